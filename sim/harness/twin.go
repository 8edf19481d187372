package main

import (
	"bytes"
	"context"
	"crypto/x509"
	"fmt"
	"io"
	"net/http"
	"runtime"
	"sort"
	"strings"
	"time"
	"unsafe"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/verifsim/app"
)

// A twin is a second authorizer in the same process: another Athenz with its
// own keys under the same identifiers, its own policies for the same domains
// and its own tokens. Its servers never fail unless Down is set. Neither may
// notice the other.
type TwinPlan struct {
	At     int64 // creation
	Stop   int64 // cancellation, 0: with everything else
	Change int64 // its policies change
	Down   bool  // its servers never answer
	Period time.Duration
	Cache  time.Duration
	Retry  time.Duration
	CID    bool // it verifies client identifiers
	Ops    []TwinOp
}

// TwinOp is one round of requests to the twin.
type TwinOp struct {
	At    int64
	Kind  string // own, foreign, dump, cert
	Tok   int
	Res   string
	Cross bool // its own token is shown to the other authorizer afterwards
}

const (
	twinHost = "other.sim/zts/v1"
	twinZts  = 70
	twinZms  = 71
	twinJwk  = 72
)

type twinRec struct {
	kind    string
	ver     int // which action was asked for
	t0, t1  int64
	granted bool
	err     string
	what    string
	dump    map[string][]dumpEnt
}

type twin struct {
	h        *run
	tp       *TwinPlan
	a        authorizerd.Authorizerd
	ctx      context.Context
	cancel   context.CancelFunc
	t0       int64
	initOK   int64 // -1: not (yet)
	initErr  string
	cancelAt int64
	closedAt int64
	changeAt int64
	ver      int
	recs     []*twinRec
	reqs     map[string][]int64
	roles    map[string][]string
	nerr     int
}

func (h *run) twinRoles() map[string][]string {
	m := map[string]map[string]bool{}
	add := func(d string, rs []string) {
		if m[d] == nil {
			m[d] = map[string]bool{}
		}
		for _, r := range rs {
			if r != "" && !strings.ContainsAny(r, ",:;") {
				m[d][r] = true
			}
		}
	}
	for _, d := range h.p.Cfg.Domains {
		add(d, []string{"tw"})
	}
	for _, t := range h.p.RTs {
		add(t.Dom, t.Roles)
	}
	for _, t := range h.p.ATs {
		add(t.Aud, t.Scp)
	}
	o := map[string][]string{}
	for _, d := range h.p.Cfg.Domains {
		for r := range m[d] {
			o[d] = append(o[d], r)
		}
		sort.Strings(o[d])
	}
	return o
}

func (t *twin) spec(dom string, ver int) *DocSpec {
	var as []Assert
	for _, r := range t.roles[dom] {
		as = append(as, Assert{dom + ":role." + r, fmt.Sprintf("twin%d", ver), dom + ":*", "ALLOW"})
	}
	return &DocSpec{Policies: [][]Assert{as}}
}

type twinTransport struct{ t *twin }

func (x *twinTransport) RoundTrip(req *http.Request) (*http.Response, error) {
	t := x.t
	h := t.h
	ctx := req.Context()
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	u := req.URL.String()
	h.note("twin", "req %s inm=%s", u, req.Header.Get("If-None-Match"))
	base := "https://" + twinHost
	if !strings.HasPrefix(u, base+"/") {
		h.violate([]string{"C23", "C08"}, "request to an address that is not configured: %s by the other authorizer", u)
		return nil, &simErr{"no such host", false}
	}
	path := u[len(base):]
	t.reqs[path] = append(t.reqs[path], now())
	if err := sleepCtx(ctx, 3*time.Millisecond); err != nil {
		return nil, err
	}
	if t.tp.Down {
		return nil, &simErr{"connection refused", false}
	}
	var body []byte
	etag := ""
	ids := []string{"0", "1", "zts.0", "k-2", "n1", "n2", "j1", "nv", "solo"}
	keys := func(k int) (l []PubKey) {
		for _, id := range ids {
			l = append(l, PubKey{id, k})
		}
		return
	}
	switch {
	case path == "/domain/sys.auth/service/zts":
		// validators are each server's own affair: they may well coincide
		etag, body = keysETag("content", h.w.zts), mustJSON(keysBody("sys.auth.zts", keys(twinZts)))
	case path == "/domain/sys.auth/service/zms":
		etag, body = keysETag("content", h.w.zms), mustJSON(keysBody("sys.auth.zms", keys(twinZms)))
	case path == "/oauth2/keys?rfc=true":
		body = mustJSON(jwksBody(keys(twinJwk)))
	default:
		for _, d := range h.p.Cfg.Domains {
			if path == "/domain/"+d+"/signed_policy_data" {
				etag = `"i0"`
				if c := h.w.docs[d].cur; c != nil && c.etag != "" {
					etag = c.etag
				}
				if t.ver == 2 {
					etag = `"2` + etag[1:]
				}
				body = buildPolicy(t.spec(d, t.ver), 100000e9, buildOpt{innerKey: twinZms, outerKey: twinZts, zid: h.p.Init.ZtsSig.ID, mid: h.p.Init.ZmsSig.ID, dom: d})
			}
		}
	}
	status := 200
	hd := http.Header{"Content-Type": {"application/json"}}
	if etag != "" {
		hd.Set("ETag", etag)
		if req.Header.Get("If-None-Match") == etag {
			status, body = 304, nil
		}
	}
	if body == nil && status == 200 {
		h.violate([]string{"C23", "C08"}, "request to an address that is not configured: %s by the other authorizer", u)
		status = 404
	}
	return &http.Response{StatusCode: status, Header: hd, Body: io.NopCloser(bytes.NewReader(body)), ContentLength: -1, Request: req,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}, nil
}

const twinTimeout = time.Second

// startTwin runs the second authorizer from its creation to its end.
func (h *run) startTwin() {
	tp := h.p.Twin
	t := &twin{h: h, tp: tp, t0: now(), initOK: -1, cancelAt: -1, closedAt: -1, changeAt: -1, ver: 1, reqs: map[string][]int64{}, roles: h.twinRoles()}
	t.ctx, t.cancel = context.WithCancel(context.Background())
	h.twin = t
	var doms []string
	for _, d := range h.p.Cfg.Domains {
		doms = append([]string{d}, doms...)
	}
	a, err := authorizerd.New(
		authorizerd.WithAthenzURL(twinHost),
		authorizerd.WithAthenzDomains(doms...),
		authorizerd.WithHTTPClient(&http.Client{Transport: &twinTransport{t}, Timeout: twinTimeout}),
		authorizerd.WithCacheExp(tp.Cache),
		authorizerd.WithPubkeyRefreshPeriod(ds(tp.Period)),
		authorizerd.WithPubkeyRetryDelay(ds(tp.Retry)),
		authorizerd.WithPolicyRefreshPeriod(ds(tp.Period)),
		authorizerd.WithPolicyRetryDelay(ds(tp.Retry)),
		authorizerd.WithPolicyRetryAttempts(1),
		authorizerd.WithJwkRefreshPeriod(ds(tp.Period)),
		authorizerd.WithJwkRetryDelay(ds(tp.Retry)),
		authorizerd.WithEnableRoleToken(),
		authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, false, "", "", tp.CID, map[string][]string{"twin": {"twin.user"}})),
	)
	if err != nil {
		h.violate([]string{"C23"}, "a second authorizer cannot be made: %v", err)
		t.cancel()
		return
	}
	t.a = a
	runtime.SimRelease(unsafe.Pointer(t))
	if err := a.Init(t.ctx); err != nil {
		t.initErr = err.Error()
		if t.ctx.Err() == nil {
			h.note("twin", "Init: %v", err)
		}
	} else {
		t.initOK = now()
		h.note("twin", "Init")
	}
	if t.ctx.Err() != nil {
		t.closedAt = now()
		return
	}
	for err := range a.Start(t.ctx) {
		t.nerr++
		h.note("twin", "error %v", err)
	}
	t.closedAt = now()
}

func (h *run) stopTwin() {
	if t := h.twin; t != nil && t.cancelAt < 0 {
		t.cancelAt = now()
		h.note("twin", "cancel")
		t.cancel()
	}
}

func (h *run) changeTwin() {
	if t := h.twin; t != nil {
		t.ver, t.changeAt = 2, now()
		h.note("twin", "new policies")
	}
}

// twinTokens are a sound role token and access token of the twin's Athenz.
func (h *run) twinTokens(i int) (rt, at string, dom string) {
	ds := h.p.Cfg.Domains
	dom = ds[i%len(ds)]
	r := h.twin.roles[dom]
	x := RTSpec{Dom: dom, Roles: r, Name: "twin.user", Iat: -1000, Exp: 1000000, KeyID: h.p.Init.ZtsSig.ID, Key: twinZts}
	y := ATSpec{Aud: dom, Scp: r, Sub: "twin.user", Cid: "twin.user", Iat: -100000, Exp: 1000000, Kid: h.p.Init.Jwks[0][0].ID, Key: twinJwk, Thumb: -1}
	return x.text(), y.text(h), dom
}

func (t *twin) ask(kind string, ver int, what string, f func() error) bool {
	r := &twinRec{kind: kind, ver: ver, what: what, t0: now()}
	t.recs = append(t.recs, r)
	if err := f(); err != nil {
		r.err = err.Error()
	} else {
		r.granted = true
	}
	r.t1 = now()
	t.h.note("twin", "%s %s: granted=%v %s", kind, what, r.granted, r.err)
	return r.granted
}

func (h *run) twinOp(o *TwinOp) {
	t := h.twin
	if t == nil || t.a == nil {
		return
	}
	runtime.SimAcquire(unsafe.Pointer(t))
	if h.cur != nil {
		runtime.SimAcquire(unsafe.Pointer(h.cur))
	}
	ctx := context.Background()
	rt, at, dom := h.twinTokens(o.Tok)
	var cert *x509.Certificate
	if t.tp.CID {
		cert = makeCert(&CertSpec{CN: "twin", Issuer: "ca", Serial: 91})
	}
	switch o.Kind {
	case "own":
		for ver := 1; ver <= 2; ver++ {
			act := fmt.Sprintf("twin%d", ver)
			g1 := t.ask("own", ver, "role token", func() error { _, err := t.a.AuthorizeRoleToken(ctx, rt, act, o.Res); return err })
			g2 := t.ask("own", ver, "access token", func() error { return t.a.VerifyAccessToken(ctx, at, act, o.Res, cert) })
			if n := h.cur; o.Cross && n != nil && n.a != nil {
				// the other authorizer trusts none of this
				if g1 && h.p.Cfg.RT {
					t.ask("abroad", ver, "role token", func() error { _, err := n.a.AuthorizeRoleToken(ctx, rt, act, o.Res); return err })
				}
				if g2 && h.p.Cfg.AT {
					t.ask("abroad", ver, "access token", func() error { _, err := n.a.AuthorizeAccessToken(ctx, at, act, o.Res, nil); return err })
				}
			}
		}
		t.ask("never", 0, "role token", func() error { return t.a.VerifyRoleToken(ctx, rt, "twin3", o.Res) })
	case "foreign":
		if n := len(h.p.RTs); n > 0 {
			x := h.p.RTs[o.Tok%n].text()
			t.ask("never", 0, "role token of the other Athenz", func() error { return t.a.VerifyRoleToken(ctx, x, fmt.Sprintf("twin%d", t.ver), o.Res) })
		}
		if n := len(h.p.ATs); n > 0 {
			x := h.p.ATs[o.Tok%n].text(h)
			t.ask("never", 0, "access token of the other Athenz", func() error {
				return t.a.VerifyAccessToken(ctx, x, fmt.Sprintf("twin%d", t.ver), o.Res, nil)
			})
		}
		if t.tp.CID { // clients known to the other authorizer only
			for _, cn := range sortedKeys(h.p.Cfg.CIDs) {
				y := ATSpec{Aud: dom, Scp: t.roles[dom], Sub: "twin.user", Cid: h.p.Cfg.CIDs[cn][0], Iat: -100000, Exp: 1000000, Kid: h.p.Init.Jwks[0][0].ID, Key: twinJwk, Thumb: -1}
				c := makeCert(&CertSpec{CN: cn, Issuer: "ca", Serial: 92})
				t.ask("never", 0, "client of the other authorizer", func() error {
					return t.a.VerifyAccessToken(ctx, y.text(h), fmt.Sprintf("twin%d", t.ver), o.Res, c)
				})
			}
		}
	case "cert":
		for ver := 1; ver <= 2; ver++ {
			c := []*x509.Certificate{makeCert(&CertSpec{CN: "twin", Issuer: "ca", Serial: 90, URIs: []string{"athenz://role/" + dom + "/tw"}})}
			t.ask("own", ver, "role certificate", func() error { return t.a.VerifyRoleCert(ctx, c, fmt.Sprintf("twin%d", ver), o.Res) })
		}
	case "dump":
		r := &twinRec{kind: "dump", t0: now(), dump: map[string][]dumpEnt{}}
		t.recs = append(t.recs, r)
		for k, as := range app.Assertions(t.a.GetPolicyCache(ctx)) {
			for _, x := range as {
				r.dump[k] = append(r.dump[k], dumpEnt{x.Effect, x.Action, x.Resource, x.Domain})
			}
		}
		r.t1 = now()
	}
}

// twinEcho shows the twin what the other authorizer has just granted.
func (h *run) twinEcho(rec *opRec) {
	t, o := h.twin, rec.op
	if t == nil || t.a == nil || !rec.granted || o.Act == "" || (rec.idx+rec.rep)%2 != 0 {
		return
	}
	runtime.SimAcquire(unsafe.Pointer(t))
	ctx := context.Background()
	var cert *x509.Certificate
	if len(rec.certs) > 0 {
		cert = rec.certs[0]
	}
	switch o.Kind {
	case "rt":
		t.ask("never", 0, "role token granted by the other authorizer", func() error { _, err := t.a.AuthorizeRoleToken(ctx, rec.rtTok, o.Act, o.Res); return err })
	case "at":
		t.ask("never", 0, "access token granted by the other authorizer", func() error { return t.a.VerifyAccessToken(ctx, rec.atTok, o.Act, o.Res, cert) })
	}
}

// twin judges what the second authorizer did.
func (j *jd) twin() {
	t := j.h.twin
	if t == nil || t.a == nil {
		return
	}
	h, tp := j.h, t.tp
	tags := []string{"C23"}
	unit := int64(2*(twinTimeout+tp.Retry)) + j.S + int64(time.Second)
	if t.initOK < 0 && !tp.Down && t.initErr != "" && t.cancelAt < 0 {
		h.violateAt(t.t0, append(tags, "C12"), "Init of a second authorizer failed although its servers answered correctly: %s", t.initErr)
	}
	if tp.Down && t.initOK >= 0 {
		h.violateAt(t.initOK, append(tags, "C12"), "Init of a second authorizer succeeded although its servers never answered: %s", sec(t.initOK))
	}
	// in force: version v must (must not) be in force throughout [t0, t1]
	inForce := func(v int, t0, t1 int64) (possible, certain bool) {
		if t.initOK < 0 {
			return !tp.Down && v == 1 || !tp.Down && t.changeAt >= 0, false
		}
		late := t.changeAt + int64(tp.Period+tp.Cache) + unit
		if v == 1 {
			possible = t.changeAt < 0 || t0 <= late
			certain = t0 > t.initOK && (t.changeAt < 0 || t1 < t.changeAt)
		} else {
			possible = t.changeAt >= 0 && t1 >= t.changeAt
			certain = t.changeAt >= 0 && t0 > late && t.initOK < t.changeAt
		}
		if t.cancelAt >= 0 && t1 >= t.cancelAt { // refreshed no more
			certain = certain && v == 1
			if t.changeAt >= 0 && t.cancelAt <= late {
				possible, certain = true, false
			}
		}
		return
	}
	for _, r := range t.recs {
		h.stats["twin."+r.kind]++
		if r.t1-r.t0 > j.S+eps {
			h.violateAt(r.t1, append(tags, "C15"), "request to a second authorizer took simulated time: %s", sec(r.t1-r.t0))
		}
		switch r.kind {
		case "own":
			p, c := inForce(r.ver, r.t0, r.t1)
			if r.granted && !p {
				h.violateAt(r.t1, append(tags, "C01"), "unjustified grant by a second authorizer: %s for action twin%d", r.what, r.ver)
			}
			if !r.granted && c {
				h.violateAt(r.t1, append(tags, "C01", "C06"), "unjustified refusal by a second authorizer: %s for action twin%d, initialised at %s: %s", r.what, r.ver, sec(t.initOK), r.err)
			}
			if r.granted && c {
				h.stats["judged.twin.granted"]++
			}
		case "never":
			if r.granted {
				h.violateAt(r.t1, append(tags, "C09", "C10", "C11"), "unjustified grant by a second authorizer: %s", r.what)
			}
		case "abroad":
			if r.granted {
				h.violateAt(r.t1, append(tags, "C09", "C10", "C11"), "grant for a token of a second authorizer's Athenz: %s", r.what)
			}
		case "dump":
			for _, d := range j.c.Domains {
				ok := false
				why := ""
				for v := 0; v <= 2; v++ {
					spec := &DocSpec{}
					p, c := true, false
					if v > 0 {
						spec = t.spec(d, v)
						p, c = inForce(v, r.t0, r.t1)
					} else {
						p = t.initOK < 0 || r.t0 <= t.initOK
					}
					want := docDump(spec, d)
					same := true
					n := 0
					for k, es := range r.dump {
						if strings.HasPrefix(k, d+":role.") {
							n++
							same = same && entKey(want[k]) == entKey(es)
						}
					}
					same = same && n == len(want)
					if same && p {
						ok = true
					}
					if c && !same {
						why = fmt.Sprintf(", should be version %d", v)
					}
				}
				if t.initOK < 0 && !tp.Down || t.changeAt >= 0 && r.t1 >= t.changeAt && (r.t0 <= t.changeAt+int64(tp.Period+tp.Cache)+unit || t.cancelAt >= 0) {
					ok = true // being loaded
				}
				if !ok {
					h.violateAt(r.t1, append(tags, "C02"), "policies of a second authorizer are not its servers': domain %s%s", d, why)
				}
			}
			for k := range r.dump {
				i := strings.Index(k, ":role.")
				if i < 0 || t.roles[k[:i]] == nil {
					h.violateAt(r.t1, append(tags, "C02"), "policies of a second authorizer are not its servers': role %s", k)
				}
			}
		}
	}
	end := h.endAt
	if t.cancelAt >= 0 && t.cancelAt < end {
		end = t.cancelAt
	}
	for _, path := range sortedKeys(t.reqs) {
		last := t.t0
		l := append(append([]int64(nil), t.reqs[path]...), end)
		for _, x := range l {
			if x > end {
				break
			}
			gap := x - last
			if t.initOK >= 0 && last >= t.initOK && gap > int64(tp.Period)+2*unit {
				h.violateAt(x, append(tags, "C14", "C05"), "a second authorizer stopped refreshing: no request to %s for %s", path, sec(gap))
				break
			}
			last = x
		}
	}
	if t.cancelAt >= 0 && (t.closedAt < 0 || t.closedAt-t.cancelAt > h.shutBound()+j.S) {
		h.violateAt(t.cancelAt, append(tags, "C13"), "a second authorizer did not end: cancelled at %s, closed at %s", sec(t.cancelAt), sec(t.closedAt))
	}
	if t.cancelAt < 0 && t.closedAt >= 0 || t.cancelAt >= 0 && t.closedAt >= 0 && t.closedAt < t.cancelAt {
		h.violateAt(t.closedAt, append(tags, "C13"), "a second authorizer ended on its own: %s", sec(t.closedAt))
	}
	if !tp.Down && t.nerr > 1 {
		h.violateAt(end, append(tags, "C14"), "a second authorizer reported errors although its servers answered correctly: %d", t.nerr)
	}
}
