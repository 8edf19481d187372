From 7c0cf855729b5bf7489b48b0e2be2f51390efd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:01 +0000
Subject: [PATCH 01/23] fix: report a 304 answer without a cached policy
 instead of crashing

---
 policy/fetcher.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/policy/fetcher.go b/policy/fetcher.go
index 49c363d..1cef8d7 100644
--- a/policy/fetcher.go
+++ b/policy/fetcher.go
@@ -110,6 +110,11 @@ func (f *fetcher) Fetch(ctx context.Context) (*SignedPolicy, error) {
 
 	// if server responses NotModified, return policy from cache
 	if res.StatusCode == http.StatusNotModified {
+		if tp == nil {
+			errMsg := "policy = 304 not modified, but no policy cache"
+			glg.Errorf("%s, domain: %s", errMsg, f.domain)
+			return nil, errors.Wrap(ErrFetchPolicy, errMsg)
+		}
 		glg.Debugf("policy = 304 not modified, use cache for domain: %s, ETag: %v", f.domain, tp.eTag)
 		return tp.sp, nil
 	}
-- 
2.43.0


From 1f887d0c30a49e6c7848909f599fa1a04603d8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 02/23] fix: do not crash on null in a policy document

---
 policy/daemon.go  | 14 +++++++++++++-
 policy/fetcher.go |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index a64979e..ce4616d 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -95,7 +95,13 @@ func New(opts ...Option) (Daemon, error) {
 			retryAttempts: p.retryAttempts,
 			athenzURL:     p.athenzURL,
 			spVerifier: func(sp *SignedPolicy) error {
-				return sp.Verify(p.pkp)
+				if err := sp.Verify(p.pkp); err != nil {
+					return err
+				}
+				if sp.SignedPolicyData.PolicyData == nil {
+					return errors.New("no policy data")
+				}
+				return nil
 			},
 			client: p.client,
 		}
@@ -327,8 +333,14 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 	// simplify signed policy cache
 	for _, policy := range sp.DomainSignedPolicyData.SignedPolicyData.PolicyData.Policies {
 		pol := policy
+		if pol == nil {
+			continue
+		}
 		eg.Go(func() error {
 			for _, ass := range pol.Assertions {
+				if ass == nil {
+					continue
+				}
 				select {
 				case <-ctx.Done():
 					return ctx.Err()
diff --git a/policy/fetcher.go b/policy/fetcher.go
index 1cef8d7..415245e 100644
--- a/policy/fetcher.go
+++ b/policy/fetcher.go
@@ -127,7 +127,7 @@ func (f *fetcher) Fetch(ctx context.Context) (*SignedPolicy, error) {
 
 	// read and decode
 	sp := new(SignedPolicy)
-	if err = json.NewDecoder(res.Body).Decode(&sp); err != nil {
+	if err = json.NewDecoder(res.Body).Decode(sp); err != nil {
 		errMsg := "policy decode fail"
 		glg.Errorf("%s, domain: %s, error: %v", errMsg, f.domain, err)
 		return nil, errors.Wrap(err, errMsg)
-- 
2.43.0


From 50fcf9a374eb73af5d8b54cc4ce244fe9b26c425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:09 +0000
Subject: [PATCH 03/23] fix: refuse a policy document of another domain

---
 policy/daemon.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/policy/daemon.go b/policy/daemon.go
index ce4616d..b5298d2 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -88,6 +88,7 @@ func New(opts ...Option) (Daemon, error) {
 	// create fetchers
 	p.fetchers = make(map[string]Fetcher, len(p.athenzDomains))
 	for _, domain := range p.athenzDomains {
+		domain := domain // for closure
 		f := fetcher{
 			domain:        domain,
 			expiryMargin:  p.expiryMargin,
@@ -101,6 +102,9 @@ func New(opts ...Option) (Daemon, error) {
 				if sp.SignedPolicyData.PolicyData == nil {
 					return errors.New("no policy data")
 				}
+				if d := sp.SignedPolicyData.PolicyData.Domain; !strings.EqualFold(d, domain) {
+					return errors.Wrap(ErrDomainMismatch, fmt.Sprintf("policy data of domain %s", d))
+				}
 				return nil
 			},
 			client: p.client,
-- 
2.43.0


From 72694f338f4ac86b4dc476d77188a5bbb2c44c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:10 +0000
Subject: [PATCH 04/23] fix: do not crash on null in a public key document

---
 pubkey/daemon.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index 7be03ca..8dceca7 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -169,6 +169,10 @@ func (p *pubkeyd) Update(ctx context.Context) error {
 		}
 
 		for _, key := range pubKeys.PublicKeys {
+			if key == nil { // JSON null
+				glg.Errorf("error decoding key, env: %v, error: null key", env)
+				return errors.Wrap(ErrFetchAthenzPubkey, "error decoding key")
+			}
 			glg.Debugf("Decoding key, env: %v, keyID: %v", env, key.ID)
 			decKey, err := dec.DecodeString(key.Key)
 			if err != nil {
@@ -272,6 +276,10 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 		glg.Errorf("Error decoding public key entries, err: %v", err)
 		return nil, false, errors.Wrap(err, "json format not correct")
 	}
+	if sac == nil { // JSON null
+		glg.Error("Public key entries are null")
+		return nil, false, errors.Wrap(ErrFetchAthenzPubkey, "json format not correct")
+	}
 
 	if _, err = io.Copy(ioutil.Discard, r.Body); err != nil {
 		glg.Warn(errors.Wrap(err, "error io.copy"))
-- 
2.43.0


From 890242ab66490af9757d63d20683cd552f1c28f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:11 +0000
Subject: [PATCH 05/23] fix: report a 304 answer without cached public keys
 instead of crashing

---
 pubkey/daemon.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index 8dceca7..fe7990e 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -260,6 +260,10 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 
 	// if server return NotModified, return policy from cache
 	if r.StatusCode == http.StatusNotModified {
+		if !ok {
+			glg.Error("Server return not modified, but no public key entries in the cache")
+			return nil, false, errors.Wrap(ErrFetchAthenzPubkey, "http return not modified without ETag in request")
+		}
 		cache := t.(*confCache)
 		glg.Debugf("Server return not modified, ETag: %s", cache.eTag)
 		return cache.sac, false, nil
-- 
2.43.0


From 9ef3532ca6ffa74da9b8452ed510fcd5e7c08251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:12 +0000
Subject: [PATCH 06/23] fix: close the response body of every public key
 request

---
 pubkey/daemon.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index fe7990e..22a978b 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -258,6 +258,15 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 		return nil, false, errors.Wrap(err, "error make http request")
 	}
 
+	defer func() {
+		if _, err := io.Copy(ioutil.Discard, r.Body); err != nil {
+			glg.Warn(errors.Wrap(err, "error io.copy"))
+		}
+		if err := r.Body.Close(); err != nil {
+			glg.Warn(errors.Wrap(err, "error body.close"))
+		}
+	}()
+
 	// if server return NotModified, return policy from cache
 	if r.StatusCode == http.StatusNotModified {
 		if !ok {
@@ -285,13 +294,6 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 		return nil, false, errors.Wrap(ErrFetchAthenzPubkey, "json format not correct")
 	}
 
-	if _, err = io.Copy(ioutil.Discard, r.Body); err != nil {
-		glg.Warn(errors.Wrap(err, "error io.copy"))
-	}
-	if err = r.Body.Close(); err != nil {
-		glg.Warn(errors.Wrap(err, "error body.close"))
-	}
-
 	// set eTag cache
 	eTag := r.Header.Get("ETag")
 	if eTag != "" {
-- 
2.43.0


From e25000a42f6143290340fedbc7ee4388ef3f9a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 07/23] fix: close the response body of a policy request that
 cannot be drained

---
 policy/fetcher.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/policy/fetcher.go b/policy/fetcher.go
index 415245e..5365220 100644
--- a/policy/fetcher.go
+++ b/policy/fetcher.go
@@ -193,11 +193,11 @@ func flushAndClose(rc io.ReadCloser) error {
 	if rc != nil {
 		// flush
 		_, err := io.Copy(ioutil.Discard, rc)
-		if err != nil {
-			return err
-		}
 		// close
-		return rc.Close()
+		if cerr := rc.Close(); err == nil {
+			err = cerr
+		}
+		return err
 	}
 	return nil
 }
-- 
2.43.0


From fb87ed6f80db43826efc1751884821eb242d9568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:35 +0000
Subject: [PATCH 08/23] fix: drop the ETag of public keys that are not in use

---
 pubkey/daemon.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index 22a978b..d5e29c8 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -168,6 +168,12 @@ func (p *pubkeyd) Update(ctx context.Context) error {
 			return nil
 		}
 
+		stored := false
+		defer func() {
+			if !stored { // these entries are not in use, do not ask whether they are still current
+				p.eTagCache.Delete(string(env))
+			}
+		}()
 		for _, key := range pubKeys.PublicKeys {
 			if key == nil { // JSON null
 				glg.Errorf("error decoding key, env: %v, error: null key", env)
@@ -198,6 +204,7 @@ func (p *pubkeyd) Update(ctx context.Context) error {
 			}
 			return true
 		})
+		stored = true
 
 		return nil
 	}
@@ -299,6 +306,9 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 	if eTag != "" {
 		glg.Debugf("Setting ETag %v", eTag)
 		p.eTagCache.SetWithExpire(string(env), &confCache{eTag, sac}, p.eTagExpiry)
+	} else {
+		// the previous ETag does not describe these entries
+		p.eTagCache.Delete(string(env))
 	}
 
 	glg.Info("Fetch public key entries success")
-- 
2.43.0


From 89df3dec46ad8b98e7f1fafd7d157c52c239f5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:42 +0000
Subject: [PATCH 09/23] fix: keep a deny when policies hold an allow for the
 same assertion

---
 policy/daemon.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index b5298d2..24ce366 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -333,6 +333,8 @@ func fetchAndCachePolicy(ctx context.Context, g gache.Gache, f Fetcher) error {
 func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolicy) error {
 	eg := errgroup.Group{}
 	assm := new(sync.Map) // assertion map
+	type assKey struct{ role, action, resource string }
+	var mu sync.Mutex // makes the check and the store of an assertion one step
 
 	// simplify signed policy cache
 	for _, policy := range sp.DomainSignedPolicyData.SignedPolicyData.PolicyData.Policies {
@@ -349,7 +351,8 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 				case <-ctx.Done():
 					return ctx.Err()
 				default:
-					km := fmt.Sprintf("%s,%s,%s", ass.Role, ass.Action, ass.Resource)
+					km := assKey{ass.Role, ass.Action, ass.Resource}
+					mu.Lock()
 					if _, ok := assm.Load(km); !ok {
 						assm.Store(km, ass)
 					} else {
@@ -358,6 +361,7 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 							assm.Store(km, ass)
 						}
 					}
+					mu.Unlock()
 				}
 			}
 
-- 
2.43.0


From 5f66ff3a7c4c5f6465a36c7471eb9b47e6e7a291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:19 +0000
Subject: [PATCH 10/23] fix: never cache a policy that has already expired

---
 policy/daemon.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index 24ce366..0dd1463 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -377,6 +377,11 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 	var retErr error
 	now := fastime.Now()
 	assm.Range(func(k interface{}, val interface{}) bool {
+		expire := sp.DomainSignedPolicyData.SignedPolicyData.Expires.Sub(now)
+		if expire <= 0 { // the cache would keep the entry for ever
+			glg.Warnf("policy expired at %s, will not be cached", sp.DomainSignedPolicyData.SignedPolicyData.Expires.String())
+			return false
+		}
 		ass := val.(*util.Assertion)
 		a, err := NewAssertion(ass.Action, ass.Resource, ass.Effect)
 		if err != nil {
@@ -396,7 +401,7 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 		} else {
 			asss = []*Assertion{a}
 		}
-		rp.SetWithExpire(ass.Role, asss, sp.DomainSignedPolicyData.SignedPolicyData.Expires.Sub(now))
+		rp.SetWithExpire(ass.Role, asss, expire)
 
 		glg.Debugf("added assertion to the tmp cache: %+v", ass)
 		return true
-- 
2.43.0


From f9664834c066ace25b1967c651c1f1cf60e18194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:42 +0000
Subject: [PATCH 11/23] fix: replace the policy cache, never merge into it,
 when policies expire

---
 policy/daemon.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index 0dd1463..d02ed3b 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -70,6 +70,8 @@ type policyd struct {
 	client   *http.Client
 	pkp      pubkey.Provider
 	fetchers map[string]Fetcher // used for concurrent read, should never be updated
+
+	expired unsafe.Pointer // *chan struct{}, see expiredCh
 }
 
 // New represent the constructor of Policyd
@@ -120,6 +122,8 @@ func (p *policyd) Start(ctx context.Context) <-chan error {
 	glg.Info("Starting policyd updater")
 	ech := make(chan error, 100)
 	fch := make(chan struct{}, 1)
+	expired := make(chan struct{}, 1)
+	atomic.StorePointer(&p.expired, unsafe.Pointer(&expired))
 
 	go func() {
 		defer close(fch)
@@ -139,6 +143,16 @@ func (p *policyd) Start(ctx context.Context) <-chan error {
 
 					time.Sleep(p.retryDelay)
 
+					select {
+					case fch <- struct{}{}:
+					default:
+						glg.Warn("failure queue already full")
+					}
+				}
+			case <-expired:
+				if err := p.Update(ctx); err != nil {
+					ech <- errors.Wrap(err, "error update policy")
+
 					select {
 					case fch <- struct{}{}:
 					default:
@@ -162,6 +176,14 @@ func (p *policyd) Start(ctx context.Context) <-chan error {
 	return ech
 }
 
+// expiredCh returns the channel that asks the daemon for an update, since cached policies expired. It is nil when the daemon is not started.
+func (p *policyd) expiredCh() chan struct{} {
+	if ch := (*chan struct{})(atomic.LoadPointer(&p.expired)); ch != nil {
+		return *ch
+	}
+	return nil
+}
+
 // Update updates and cache policy data
 func (p *policyd) Update(ctx context.Context) error {
 	glg.Get().DisableColor()
@@ -197,8 +219,11 @@ func (p *policyd) Update(ctx context.Context) error {
 	rp.StartExpired(ctx, p.purgePeriod).
 		EnableExpiredHook().
 		SetExpiredHook(func(ctx context.Context, key string) {
-			// key = <domain>:role.<role>
-			fetchAndCachePolicy(ctx, *(p.rolePolicies), p.fetchers[strings.Split(key, ":role.")[0]])
+			// a cache in use is never modified, request a new one
+			select {
+			case p.expiredCh() <- struct{}{}:
+			default:
+			}
 		})
 
 	// swap pointer
@@ -212,6 +237,10 @@ func (p *policyd) Update(ctx context.Context) error {
 		return fmt.Sprintf("cache after swap, old: %p %v; new: %p %v", *p.rolePolicies, (*p.rolePolicies).Len(), *oldRpPtr, (*oldRpPtr).Len())
 	})
 	(*oldRpPtr).Stop()
+	select {
+	case <-p.expiredCh(): // requested by the old cache
+	default:
+	}
 
 	// prevent old cache cleanup, old pointer may be cached in other policy checking goroutine, leave clear up to GC
 	// (*oldRpPtr).Clear()
-- 
2.43.0


From 1c193fc3d41d42018cfd9b6f8a0151c0686e92d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:47 +0000
Subject: [PATCH 12/23] fix: set the expiry hook before the purge of the policy
 cache can call it

---
 policy/daemon.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index d02ed3b..f9e6a0f 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -216,15 +216,15 @@ func (p *policyd) Update(ctx context.Context) error {
 		return err
 	}
 
-	rp.StartExpired(ctx, p.purgePeriod).
-		EnableExpiredHook().
+	rp.EnableExpiredHook().
 		SetExpiredHook(func(ctx context.Context, key string) {
 			// a cache in use is never modified, request a new one
 			select {
 			case p.expiredCh() <- struct{}{}:
 			default:
 			}
-		})
+		}).
+		StartExpired(ctx, p.purgePeriod)
 
 	// swap pointer
 	glg.DebugFunc(func() string {
-- 
2.43.0


From 0d24357dc35dd589aca31770b8927fe3b8383cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:19 +0000
Subject: [PATCH 13/23] fix: replace the placeholders of a mapping rule in one
 pass

---
 translator.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/translator.go b/translator.go
index 65813d8..1345bf0 100644
--- a/translator.go
+++ b/translator.go
@@ -20,6 +20,7 @@ import (
 	"errors"
 	"fmt"
 	"net/url"
+	"sort"
 	"strings"
 )
 
@@ -177,11 +178,17 @@ OUTER:
 				}
 			}
 
-			replacedRes := rule.Resource
-			for placeholder, v := range placeholderMap {
-				replacedRes = strings.ReplaceAll(replacedRes, placeholder, v)
+			// replace in one pass, a value may look like a placeholder
+			placeholders := make([]string, 0, len(placeholderMap))
+			for placeholder := range placeholderMap {
+				placeholders = append(placeholders, placeholder)
 			}
-			return rule.Action, replacedRes, nil
+			sort.Sort(sort.Reverse(sort.StringSlice(placeholders))) // the longest first when one is a prefix of another
+			oldnew := make([]string, 0, len(placeholders)*2)
+			for _, placeholder := range placeholders {
+				oldnew = append(oldnew, placeholder, placeholderMap[placeholder])
+			}
+			return rule.Action, strings.NewReplacer(oldnew...).Replace(rule.Resource), nil
 		}
 	}
 	return method, path, nil
-- 
2.43.0


From 64d05fd92789313191ac980e8bb43b4708fd836a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:30 +0000
Subject: [PATCH 14/23] fix: keep every role of a role certificate when domain
 and role names run together

---
 authorizerd.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/authorizerd.go b/authorizerd.go
index 954c4ac..67d0f16 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -504,7 +504,7 @@ func (a *authority) VerifyRoleCert(ctx context.Context, peerCerts []*x509.Certif
 		return nil
 	}
 
-	drcheck := make(map[string]struct{})
+	drcheck := make(map[[2]string]struct{})
 	domainRoles := make(map[string][]string)
 	addDomainRoles := func(dr []string) {
 		if len(dr) != 2 {
@@ -512,9 +512,9 @@ func (a *authority) VerifyRoleCert(ctx context.Context, peerCerts []*x509.Certif
 		}
 		domain, roleName := dr[0], dr[1]
 		// duplicated role check
-		if _, ok := drcheck[domain+roleName]; !ok {
+		if _, ok := drcheck[[2]string{domain, roleName}]; !ok {
 			domainRoles[domain] = append(domainRoles[domain], roleName)
-			drcheck[domain+roleName] = struct{}{}
+			drcheck[[2]string{domain, roleName}] = struct{}{}
 		}
 	}
 
-- 
2.43.0


From cfcc7c6decf967ecae2126f4f3eae51a67d83fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 15/23] fix: never reuse a remembered success for another
 token, certificate, action, resource or query

---
 authorizerd.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/authorizerd.go b/authorizerd.go
index 67d0f16..3e2af91 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -18,7 +18,9 @@ package authorizerd
 
 import (
 	"context"
+	"crypto/sha256"
 	"crypto/x509"
+	"encoding/hex"
 	"fmt"
 	"net/http"
 	"strings"
@@ -124,6 +126,9 @@ const (
 	accessToken
 )
 
+// cacheKeyEscaper keeps the parts of a cache key apart
+var cacheKeyEscaper = strings.NewReplacer(`\`, `\\`, `:`, `\:`)
+
 // New creates the Authorizerd object with the options
 func New(opts ...Option) (Authorizerd, error) {
 	var (
@@ -366,13 +371,19 @@ func (a *authority) AuthorizeAccessToken(ctx context.Context, tok, act, res stri
 
 func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query string, cert *x509.Certificate) (Principal, error) {
 	var key strings.Builder
-	key.WriteString(tok)
+	keyTok := cacheKeyEscaper.Replace(tok)
+	key.WriteString(keyTok)
 
 	if cert != nil {
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(cert.Issuer.CommonName)
+		key.WriteString(cacheKeyEscaper.Replace(cert.Issuer.CommonName))
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(cert.Subject.CommonName)
+		key.WriteString(cacheKeyEscaper.Replace(cert.Subject.CommonName))
+		if len(cert.Raw) > 0 { // certificates may share their names
+			key.WriteRune(cacheKeyDelimiter)
+			sum := sha256.Sum256(cert.Raw)
+			key.WriteString(hex.EncodeToString(sum[:]))
+		}
 	}
 
 	if !a.disablePolicyd {
@@ -380,12 +391,12 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 			return nil, errors.Wrap(ErrInvalidParameters, "empty action / resource")
 		}
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(act)
+		key.WriteString(cacheKeyEscaper.Replace(act))
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(res)
+		key.WriteString(cacheKeyEscaper.Replace(res))
 		if query != "" && a.translator != nil {
 			key.WriteRune(cacheKeyDelimiter)
-			key.WriteString(query)
+			key.WriteString(cacheKeyEscaper.Replace(query))
 		}
 	}
 
@@ -393,7 +404,7 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 	cached, ok := a.cache.Get(key.String())
 	if ok {
 		glg.DebugFunc(func() string {
-			return fmt.Sprintf("use cached result. masked tok: %s, masked key: %s", maskToken(m, tok), maskCacheKey(key.String(), tok))
+			return fmt.Sprintf("use cached result. masked tok: %s, masked key: %s", maskToken(m, tok), maskCacheKey(key.String(), keyTok))
 		})
 		return cached.(Principal), nil
 	}
@@ -466,7 +477,7 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 	}
 
 	glg.DebugFunc(func() string {
-		return fmt.Sprintf("set token result. masked tok: %s, masked key: %s, act: %s, res: %s", maskToken(m, tok), maskCacheKey(key.String(), tok), act, res)
+		return fmt.Sprintf("set token result. masked tok: %s, masked key: %s, act: %s, res: %s", maskToken(m, tok), maskCacheKey(key.String(), keyTok), act, res)
 	})
 	a.cache.SetWithExpire(key.String(), p, a.cacheExp)
 	return p, nil
-- 
2.43.0


From fd0f4bed5819e25faf5f88c73433deed621232de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:41 +0000
Subject: [PATCH 16/23] fix: leave the response body of the retrying transport
 to its caller

---
 client/exp_rt.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/client/exp_rt.go b/client/exp_rt.go
index 0eba7db..8fff378 100644
--- a/client/exp_rt.go
+++ b/client/exp_rt.go
@@ -17,8 +17,6 @@ limitations under the License.
 package client
 
 import (
-	"io"
-	"io/ioutil"
 	"math"
 	"net/http"
 	"time"
@@ -81,9 +79,7 @@ func (p *ExponentialRoundTripper) RoundTrip(req *http.Request) (*http.Response,
 			continue
 		}
 
-		// response success
-		io.Copy(ioutil.Discard, resp.Body)
-		resp.Body.Close()
+		// response success, the body is for the caller
 		return resp, nil
 	}
 
-- 
2.43.0


From 7e7deb436e3734da8270ae4795c5ee69d56efd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:41 +0000
Subject: [PATCH 17/23] fix: back off before repeating a request answered with
 a retriable status

---
 client/exp_rt.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/client/exp_rt.go b/client/exp_rt.go
index 8fff378..c44273e 100644
--- a/client/exp_rt.go
+++ b/client/exp_rt.go
@@ -17,6 +17,8 @@ limitations under the License.
 package client
 
 import (
+	"io"
+	"io/ioutil"
 	"math"
 	"net/http"
 	"time"
@@ -76,6 +78,14 @@ func (p *ExponentialRoundTripper) RoundTrip(req *http.Request) (*http.Response,
 		}
 
 		if responseRetriable(resp) {
+			if cnt+1 >= p.maxRetryCount || !canRetry(dur, timeLimit) {
+				return resp, nil
+			}
+
+			// discard the response
+			io.Copy(ioutil.Discard, resp.Body)
+			resp.Body.Close()
+			time.Sleep(dur)
 			continue
 		}
 
-- 
2.43.0


From 7bf01590b9a9bbeef155c557efa790735226e33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:51 +0000
Subject: [PATCH 18/23] fix: close the response body of a JWK Set request
 answered with an error status

---
 jwk/daemon.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/jwk/daemon.go b/jwk/daemon.go
index 8436e82..29b988d 100644
--- a/jwk/daemon.go
+++ b/jwk/daemon.go
@@ -130,7 +130,7 @@ func (j *jwkd) Update(ctx context.Context) (err error) {
 	var failedTargets []string
 	for _, target := range targets {
 		glg.Debugf("Fetching JWK Set from %s", target)
-		keys, err := jwk.Fetch(ctx, target, jwk.WithHTTPClient(j.client))
+		keys, err := jwk.Fetch(ctx, target, jwk.WithHTTPClient(fetchClient{j.client}))
 		if err != nil {
 			glg.Errorf("Fetch JWK Set error: %v", err)
 			failedTargets = append(failedTargets, target)
@@ -148,6 +148,24 @@ func (j *jwkd) Update(ctx context.Context) (err error) {
 	return nil
 }
 
+// fetchClient closes the body of the responses that jwk.Fetch drops without closing it, namely those with a status other than 200 OK.
+type fetchClient struct {
+	client *http.Client
+}
+
+func (f fetchClient) Do(req *http.Request) (*http.Response, error) {
+	res, err := f.client.Do(req)
+	if err != nil {
+		return nil, err
+	}
+	if res.StatusCode != http.StatusOK {
+		if err := res.Body.Close(); err != nil {
+			glg.Debugf("Close JWK Set response body error: %v", err)
+		}
+	}
+	return res, nil
+}
+
 func (j *jwkd) GetProvider() Provider {
 	return j.getKey
 }
-- 
2.43.0


From 4cf367f3a4dddae3b6af25a84d95afdbb37832b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:52 +0000
Subject: [PATCH 19/23] fix: ignore policy assertions about roles of another
 domain

---
 policy/daemon.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/policy/daemon.go b/policy/daemon.go
index f9e6a0f..2a670c7 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -365,6 +365,12 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 	type assKey struct{ role, action, resource string }
 	var mu sync.Mutex // makes the check and the store of an assertion one step
 
+	// a policy can only be about the roles of its own domain
+	rolePrefix := ""
+	if d := sp.DomainSignedPolicyData.SignedPolicyData.PolicyData.Domain; d != "" {
+		rolePrefix = d + ":role."
+	}
+
 	// simplify signed policy cache
 	for _, policy := range sp.DomainSignedPolicyData.SignedPolicyData.PolicyData.Policies {
 		pol := policy
@@ -376,6 +382,10 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 				if ass == nil {
 					continue
 				}
+				if len(ass.Role) < len(rolePrefix) || !strings.EqualFold(ass.Role[:len(rolePrefix)], rolePrefix) {
+					glg.Warnf("role %s is not of the policy's domain, will be ignored", ass.Role)
+					continue
+				}
 				select {
 				case <-ctx.Done():
 					return ctx.Err()
-- 
2.43.0


From 6e5cc416726b799c276c322a2ffb375d4312748b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:17 +0000
Subject: [PATCH 20/23] fix: do not accept a cached role token as an access
 token or the reverse

---
 authorizerd.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/authorizerd.go b/authorizerd.go
index 3e2af91..fa69a5b 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -403,10 +403,13 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 	// check if exists in verification success cache
 	cached, ok := a.cache.Get(key.String())
 	if ok {
-		glg.DebugFunc(func() string {
-			return fmt.Sprintf("use cached result. masked tok: %s, masked key: %s", maskToken(m, tok), maskCacheKey(key.String(), keyTok))
-		})
-		return cached.(Principal), nil
+		// the cache is shared by the modes: a token accepted as one kind is not accepted as the other
+		if _, isAccessToken := cached.(OAuthAccessToken); isAccessToken == (m == accessToken) {
+			glg.DebugFunc(func() string {
+				return fmt.Sprintf("use cached result. masked tok: %s, masked key: %s", maskToken(m, tok), maskCacheKey(key.String(), keyTok))
+			})
+			return cached.(Principal), nil
+		}
 	}
 
 	var (
-- 
2.43.0


From b3bd0e1a24e4cfb9743412f9bf2222b039f800a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:13 +0000
Subject: [PATCH 21/23] fix: clear the success cache at shutdown without a data
 race with requests

---
 authorizerd.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/authorizerd.go b/authorizerd.go
index fa69a5b..4341b34 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -325,7 +325,11 @@ func (a *authority) Start(ctx context.Context) <-chan error {
 			select {
 			case <-ctx.Done():
 				g.Stop()
-				g.Clear()
+				// requests may still be using the cache, delete its entries instead of replacing its shards
+				g.Foreach(context.Background(), func(key string, _ interface{}, _ int64) bool {
+					g.Delete(key)
+					return true
+				})
 				ech <- ctx.Err()
 				return
 			case err := <-cech:
-- 
2.43.0


From 7bff911e2639572b2f02ada68dc3febd0b899a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:35 +0000
Subject: [PATCH 22/23] fix: do not change the shared logger at every policy
 update

---
 policy/daemon.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index 2a670c7..a30d51e 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -36,6 +36,11 @@ import (
 	"golang.org/x/sync/errgroup"
 )
 
+// The logger is shared with the whole program, it cannot be changed safely once other goroutines are logging.
+func init() {
+	glg.Get().DisableColor()
+}
+
 // Daemon represents the daemon to retrieve policy data from Athenz.
 type Daemon interface {
 	Start(context.Context) <-chan error
@@ -186,7 +191,6 @@ func (p *policyd) expiredCh() chan struct{} {
 
 // Update updates and cache policy data
 func (p *policyd) Update(ctx context.Context) error {
-	glg.Get().DisableColor()
 	jobID := fastime.Now().Unix()
 	glg.Infof("[%d] will update policy", jobID)
 	eg := errgroup.Group{}
-- 
2.43.0


From f9c3260db010a840571832da7733ce3f8f3a73ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:10 +0000
Subject: [PATCH 23/23] fix: refuse a policy with an unusable assertion, it
 stopped the updates of all domains

---
 policy/daemon.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index a30d51e..9a592b9 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -112,7 +112,7 @@ func New(opts ...Option) (Daemon, error) {
 				if d := sp.SignedPolicyData.PolicyData.Domain; !strings.EqualFold(d, domain) {
 					return errors.Wrap(ErrDomainMismatch, fmt.Sprintf("policy data of domain %s", d))
 				}
-				return nil
+				return checkAssertions(sp)
 			},
 			client: p.client,
 		}
@@ -363,6 +363,25 @@ func fetchAndCachePolicy(ctx context.Context, g gache.Gache, f Fetcher) error {
 	return nil
 }
 
+// checkAssertions returns an error if the policies have an assertion that cannot be used. Such a policy must not become the
+// latest one of its domain, since it fails the update of all domains.
+func checkAssertions(sp *SignedPolicy) error {
+	for _, pol := range sp.SignedPolicyData.PolicyData.Policies {
+		if pol == nil {
+			continue
+		}
+		for _, ass := range pol.Assertions {
+			if ass == nil {
+				continue
+			}
+			if _, err := NewAssertion(ass.Action, ass.Resource, ass.Effect); err != nil {
+				return errors.Wrap(err, fmt.Sprintf("assertion of role %s", ass.Role))
+			}
+		}
+	}
+	return nil
+}
+
 func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolicy) error {
 	eg := errgroup.Group{}
 	assm := new(sync.Map) // assertion map
-- 
2.43.0

