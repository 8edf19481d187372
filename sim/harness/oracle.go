package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"time"
)

const (
	eps   = int64(time.Millisecond)
	never = int64(1) << 62
)

// jd is the judge of one run: it derives, from the recorded history, what the
// library may and must have known at every instant.
type jd struct {
	h    *run
	p    *Plan
	c    *Cfg
	S    int64 // total time stolen by stalls
	bp   int64 // a delivered policy is in force after this at the latest
	info map[*delivery]*dinfo
	by   map[string][]*delivery // inc/target
	// requests rightly answered "not modified": what the client said it had
	unmod map[string][]*delivery
}

type dinfo struct {
	possible bool
	definite bool
	deadline int64 // in force at this time at the latest (never: no such promise)
}

func tk(inc int, t string) string { return fmt.Sprintf("%d/%s", inc, t) }

func judge(h *run) {
	j := &jd{h: h, p: h.p, c: &h.p.Cfg, S: h.res.StallTime, info: map[*delivery]*dinfo{}, by: map[string][]*delivery{}, unmod: map[string][]*delivery{}}
	c := j.c
	j.bp = int64(c.tries()+1)*int64(c.Timeout+c.PolRetry) + j.S + int64(time.Second)
	for _, d := range h.w.dels {
		k := tk(d.inc, d.target)
		j.by[k] = append(j.by[k], d)
	}
	for _, d := range h.w.unmod {
		k := tk(d.inc, d.target)
		j.unmod[k] = append(j.unmod[k], d)
	}
	j.classify()
	j.twin()
	for _, o := range h.ops {
		if !o.done {
			h.violateAt(o.t0, []string{"C15"}, "request never completed: %s #%d.%d act=%q res=%q", o.op.Kind, o.idx, o.rep, o.op.Act, o.op.Res)
			continue
		}
		if o.t1-o.t0 > j.S+eps {
			h.violateAt(o.t1, []string{"C15", "C06", "C26"}, "request took simulated time: %s #%d.%d took %s", o.op.Kind, o.idx, o.rep, sec(o.t1-o.t0))
		}
		switch o.op.Kind {
		case "rt", "at", "http":
			j.access(o)
		case "rc":
			j.roleCert(o)
		case "dump":
			j.dump(o)
		case "tr":
			j.tr(o)
		}
	}
	if h.res.Dead {
		h.violateAt(h.res.EndTime, []string{"C15", "C13"}, "deadlock: the simulation's main goroutine never finished\n%s", strings.Join(h.leftStacks, "\n\n"))
	}
	for _, n := range h.nodes {
		j.inits(n)
		j.shutdown(n)
		j.pace(n)
		j.reports(n)
		j.conditional(n)
		j.local(n)
	}
	j.resources()
	j.logs()
}

func (h *run) violateAt(t int64, tags []string, f string, a ...interface{}) {
	if len(h.viol) < 200 {
		h.viol = append(h.viol, Violation{Tags: tags, Msg: fmt.Sprintf(f, a...), T: t, Sig: sigOf(f)})
	}
}

// classify decides for every delivery whether it may and must take effect.
func (j *jd) classify() {
	h := j.h
	for _, d := range h.w.dels { // keys first: policies depend on them
		if d.iss != nil {
			continue
		}
		j.info[d] = &dinfo{possible: d.good || d.maybe, definite: d.good && !d.maybe, deadline: d.t + j.S + eps}
	}
	for _, d := range h.w.dels {
		if d.iss == nil {
			continue
		}
		n := h.nodes[d.inc]
		x := &dinfo{deadline: never}
		j.info[d] = x
		is := d.iss
		if !is.genuine {
			continue
		}
		live := d.wall < is.expires // on arrival
		slack := j.S + eps
		certain := d.wall+slack < is.expires
		if !live && d.wall > is.expires+eps {
			continue
		}
		zp, zd := j.keyAt(d.inc, "zts", is.zid, is.zkey, d.t, d.t+slack, 0, 1<<62)
		mp, md := j.keyAt(d.inc, "zms", is.mid, is.mkey, d.t, d.t+slack, 0, 1<<62)
		x.possible = zp && mp
		x.definite = zd && md && certain && !is.maybe
		if x.definite {
			x.deadline = j.docDeadline(n, d)
		}
	}
}

// docDeadline is when an accepted document must be in force. Before the first
// complete load nothing is promised until the convergence bound.
func (j *jd) docDeadline(n *node, d *delivery) int64 {
	if n.cancelAt >= 0 && d.t+j.bp >= n.cancelAt {
		return never
	}
	if n.initOK {
		if d.t <= n.initOKt {
			return n.initOKt
		}
		return d.t + j.bp
	}
	if tc := j.conv(n); d.t+j.bp < tc {
		return tc
	}
	return d.t + j.bp
}

// conv is the instant from which node n must agree with the servers, which
// have been correct and unchanging since Quiet.
func (j *jd) conv(n *node) int64 {
	c := j.c
	base := j.p.Quiet
	if n.startAt > base {
		base = n.startAt
	}
	if n.startAt < 0 || !j.h.w.signersPublished() {
		return never
	}
	k := int64(c.Timeout)
	u := int64(c.tries()+1) * int64(c.Timeout+c.PolRetry)
	jw := int64(len(j.c.JwkURLs)+1) * k
	t := base
	if !c.NoPubkey {
		t += 2*int64(c.PubPeriod) + 3*int64(k+int64(c.PubRetry))
	}
	if !c.NoPolicy {
		t += 2*int64(c.PolPeriod) + 3*(u+int64(c.PolRetry))
	}
	if !c.NoJwk {
		t += 2*int64(c.JwkPeriod) + 3*(jw+int64(c.JwkRetry))
	}
	return t + j.S + int64(3*time.Second)
}

func (j *jd) converged(o *opRec) bool {
	return o.t0 > j.conv(o.node) && (o.node.cancelAt < 0 || o.t0 < o.node.cancelAt)
}

// settled reports whether the endpoint has been correct and unchanging, and
// everything it depends on too, for so long that the library must agree with
// it at o, whatever happens to the other endpoints.
func (j *jd) settled(o *opRec, target string) bool {
	if j.converged(o) {
		return true
	}
	n, c, w := o.node, j.c, j.h.w
	if n.startAt < 0 || (n.cancelAt >= 0 && o.t1 >= n.cancelAt) {
		return false
	}
	base := n.startAt
	up := func(t int64) {
		if t > base && t <= o.t1 {
			base = t
		}
	}
	pol := strings.HasPrefix(target, "pol:")
	deps := []string{target}
	if pol {
		if !n.initOK { // nothing is promised before the first complete load
			return false
		}
		up(n.initOKt)
		deps = []string{target, "zts", "zms"}
	}
	for _, d := range deps {
		for _, x := range w.hist[d] {
			up(x.t)
		}
	}
	for _, r := range w.reqs {
		if r.t0 > o.t1 {
			break
		}
		if r.inc != n.inc || r.fault == "" && r.answered {
			continue
		}
		for _, d := range deps {
			if r.target == d {
				up(r.t0)
				if r.t1 < 0 || r.t1 > o.t1 {
					return false
				}
				up(r.t1)
				if r.bodyEnd > o.t1 {
					return false
				}
				up(r.bodyEnd)
			}
		}
	}
	if pol && !w.signersPublishedAt(base, o.t1) {
		return false
	}
	k := int64(c.Timeout)
	u := int64(c.tries()+1) * int64(c.Timeout+c.PolRetry)
	t := base
	if target[0] == 'j' {
		t += 2*int64(c.JwkPeriod) + 3*(int64(len(c.JwkURLs)+1)*k+int64(c.JwkRetry))
	} else {
		t += 2*int64(c.PubPeriod) + 3*(k+int64(c.PubRetry))
	}
	if pol {
		t += 2*int64(c.PolPeriod) + 3*(u+int64(c.PolRetry))
	}
	return o.t0 > t+j.S+int64(3*time.Second)
}

// keySets calls f with every key set the library may be using in the window.
func (j *jd) keySets(inc int, target string, t0, t1 int64, s0, s1 uint64, f func(ks []PubKey)) {
	ds, ms := j.by[tk(inc, target)], j.unmod[tk(inc, target)]
	some := false
	for i, d := range ds {
		if d.t > t1 || d.seq > s1 {
			break
		}
		x := j.info[d]
		if x == nil || !x.possible {
			continue
		}
		sup := false
		for _, e := range ds[i+1:] {
			if y := j.info[e]; y != nil && y.definite && y.deadline < t0 {
				sup = true
				break
			}
		}
		for _, m := range ms {
			if j.afterAll(m, d) && m.t+j.S+eps < t0 && !sameKeys(m.keys, d.keys) {
				sup = true
				break
			}
		}
		if !sup {
			f(d.keys)
		}
		if x.definite && x.deadline < t0 {
			some = true
		}
	}
	for _, m := range ms { // "not modified": the client has said that it holds this set
		if m.t > t1 || m.seq > s1 {
			break
		}
		sup := false
		for _, e := range ds {
			if y := j.info[e]; e.seq > m.seq && y != nil && y.definite && y.deadline < t0 {
				sup = true
				break
			}
		}
		for _, e := range ms {
			if j.afterAll(e, m) && e.t+j.S+eps < t0 {
				sup = true
				break
			}
		}
		if !sup {
			f(m.keys)
		}
		if m.t+j.S+eps < t0 {
			some = true
		}
	}
	if !some {
		f(nil)
	}
}

// afterAll: the request answered "not modified" was made when d had arrived
// long enough ago to be known to whoever made it.
func (j *jd) afterAll(m, d *delivery) bool { return d.t+j.S+eps < m.req.t0 }

func sameKeys(a, b []PubKey) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		if !hasKey(b, x.ID, x.Key) {
			return false
		}
	}
	return true
}

// keyAt: may, and must, the key (id, material) be usable throughout the window.
func (j *jd) keyAt(inc int, target, id string, key int, t0, t1 int64, s0, s1 uint64) (possible, definite bool) {
	definite = true
	j.keySets(inc, target, t0, t1, s0, s1, func(ks []PubKey) {
		has := false
		for _, k := range ks {
			if k.ID == id && k.Key == key {
				has = true
			}
		}
		if has {
			possible = true
		} else {
			definite = false
		}
	})
	return
}

func hasKey(ks []PubKey, id string, key int) bool {
	for _, k := range ks {
		if k.ID == id && k.Key == key {
			return true
		}
	}
	return false
}

type cand struct {
	d *delivery // nil: no policy loaded
}

// docs lists the policy documents of dom that may be in force during the operation.
func (j *jd) docs(o *opRec, dom string) []cand {
	ds := j.by[tk(o.node.inc, "pol:"+dom)]
	var out []cand
	var last *delivery
	for _, m := range j.unmod[tk(o.node.inc, "pol:"+dom)] {
		if j.docDeadline(o.node, m) < o.t0 {
			last = m
		}
	}
	some := false
	for i, d := range ds {
		if d.seq > o.s1 {
			break
		}
		x := j.info[d]
		if !x.possible {
			continue
		}
		sup := false
		for _, e := range ds[i+1:] {
			if last != nil && j.afterAll(last, e) && e.iss.spec != last.iss.spec {
				continue
			}
			if y := j.info[e]; y.definite && y.deadline < o.t0 {
				sup = true
				break
			}
		}
		if last != nil && j.afterAll(last, d) && d.iss.spec != last.iss.spec {
			sup = true // the client has since told the server that it holds another version
		}
		if !sup {
			out = append(out, cand{d})
		}
		if x.definite && x.deadline < o.t0 {
			some = true
		}
	}
	if j.known(dom) && j.settled(o, "pol:"+dom) {
		// only the servers' present content will do
		spec := j.h.w.serving("pol:"+dom, o.t0).spec
		var f []cand
		for _, x := range out {
			if x.d.iss.genuine && x.d.iss.spec == spec {
				f = append(f, x)
			}
		}
		if len(f) == 0 && j.skewed(o, dom) {
			return append(out, cand{})
		}
		if len(f) == 0 {
			j.h.violateAt(o.t0, []string{"C05", "C06", "C14", "C15"}, "current policy never loaded: domain %s at %s", dom, sec(o.t0))
			return append(out, cand{})
		}
		return f
	}
	if !some {
		out = append(out, cand{})
	}
	return out
}

// skewed: the client's clock is so far off that what the servers hand out has
// expired, by that clock, before it arrives.
func (j *jd) skewed(o *opRec, dom string) bool {
	live, seen := false, false
	need := j.S + eps
	if o.w0 > o.t0 { // ahead: what little life is left must outlast the refresh
		need += j.bp
	}
	for _, d := range j.by[tk(o.node.inc, "pol:"+dom)] {
		if d.t < o.t0 && d.wall-d.t == o.w0-o.t0 && d.iss.genuine && d.iss.spec == j.h.w.serving("pol:"+dom, o.t0).spec {
			seen = true
			live = live || d.wall+need < d.iss.expires
		}
	}
	return seen && !live
}

func (j *jd) known(dom string) bool {
	for _, d := range j.c.Domains {
		if d == dom {
			return true
		}
	}
	return false
}

// liveness of a document during an operation, by the client's wall clock.
func (j *jd) live(x cand, o *opRec) (possible, certain bool) {
	e := x.d.iss.expires
	return o.w0 <= e+j.S+eps, o.w1 < e-eps
}

// staleTooLong: even for an expired document, a denial must end once the
// servers have been correct for long enough.
func (j *jd) staleTooLong(x cand, o *opRec) bool {
	if x.d == nil || !j.settled(o, "pol:"+x.d.iss.dom) {
		return false
	}
	c := j.c
	if x.d.iss.fault == "short" || j.skewed(o, x.d.iss.dom) {
		return false
	}
	tol := int64(c.PolPeriod) + j.bp + int64(c.tries()+1)*int64(c.Timeout+c.PolRetry) + int64(c.PolRetry)*2 + int64(2*time.Second)
	if sk := o.w0 - o.t0; sk > 0 { // the servers renew by their own clock
		tol += sk
	}
	return o.w0 > x.d.iss.expires+tol
}

// pol is the model's answer about (dom, roles, act, res).
type polAns struct {
	grant      []verdict // possible grants with their roles
	edge       bool      // a document was expiring at that moment: any non-empty subset may be reported
	deny       bool      // a denial is explicable
	certain    bool
	stale      bool
	noneReason string
}

func (j *jd) policy(o *opRec, dom string, roles []string, act, res string) polAns {
	var a polAns
	if !j.known(dom) {
		a.deny = true
		return a
	}
	for _, x := range j.docs(o, dom) {
		if x.d == nil {
			a.deny = true
			continue
		}
		lp, lc := j.live(x, o)
		v := evalDoc(x.d.iss.spec, dom, roles, act, res)
		if lp && v.granted() {
			a.grant = append(a.grant, v)
			if !lc {
				a.edge = true
			}
		}
		if lp && !lc && v.deny && len(v.allow) > 0 {
			// role entries of one document may vanish one after the other
			a.grant = append(a.grant, v)
			a.edge = true
		}
		if !v.granted() {
			a.deny = true
		}
		if !lc {
			if j.staleTooLong(x, o) {
				a.stale = true
			} else {
				a.deny = true
			}
		}
		if x.d.iss.maybe {
			a.deny = true
		}
	}
	return a
}

// sub is one credential evaluated on its own.
type sub struct {
	kind           string // rt, at
	rt             *RTSpec
	at             *ATSpec
	cert           *CertSpec
	key            string
	tokP, tokC     bool // may / must be accepted as a credential
	keyP, keyC     bool
	tokWhy         string
	dom            string
	roles          []string
	act, res       string
	trOK           bool
	pol            polAns
	emptyParm      bool
	freshP, freshC bool
}

func (j *jd) certOf(i []int) *CertSpec {
	if len(i) == 0 || i[0] >= len(j.p.Certs) {
		return nil
	}
	return &j.p.Certs[i[0]]
}

func (j *jd) evalSub(o *opRec, kind string) *sub {
	c := j.c
	s := &sub{kind: kind}
	inc := o.node.inc
	if o.op.Kind == "http" { // a token that is not where it belongs is not presented
		switch h := o.op.Hdr; {
		case h == "other", h == "form", h == "basic" && kind == "at":
			return nil
		}
	}
	var tok string
	rt, at := o.op.RT, o.op.AT
	if o.op.Cross {
		rt, at = at, rt
	}
	if kind == "rt" {
		var t *RTSpec
		switch {
		case rt < 0 || !c.RT:
			return nil
		case o.op.Cross:
			t = &RTSpec{Mut: "an access token"}
		case rt >= len(j.p.RTs):
			return nil
		default:
			t = &j.p.RTs[rt]
		}
		s.rt, tok = t, o.rtTok
		s.dom, s.roles = t.Dom, t.Roles
		exp := t.Exp * 1e9
		s.keyP, s.keyC = j.keyAt(inc, "zts", t.KeyID, t.Key, o.t0, o.t1, o.s0, o.s1)
		if j.settled(o, "zts") {
			s.keyP = hasKey(j.h.w.serving("zts", o.t0).keys, t.KeyID, t.Key)
			s.keyC = s.keyP
		}
		s.tokP = t.Mut == "" && s.keyP && o.w0 <= exp+eps
		s.tokC = t.Mut == "" && s.keyC && o.w1 < exp-eps
		switch {
		case t.Mut != "":
			s.tokWhy = "altered (" + t.Mut + ")"
		case o.w0 > exp+eps:
			s.tokWhy = "expired"
		case !s.keyP:
			s.tokWhy = "key " + t.KeyID + " not published"
		}
	} else {
		var t *ATSpec
		switch {
		case at < 0 || !c.AT:
			return nil
		case o.op.Cross:
			t = &ATSpec{Mut: "a role token", Thumb: -1}
		case at >= len(j.p.ATs):
			return nil
		default:
			t = &j.p.ATs[at]
		}
		s.at, tok = t, o.atTok
		s.dom, s.roles = t.Aud, t.Scp
		s.cert = j.certOf(o.op.Certs)
		src := -1
		for i, u := range j.h.jwkSources() {
			if t.Jku == u || (t.Jku == "" && i == 0) {
				src = i
				break
			}
		}
		if src >= 0 {
			s.keyP, s.keyC = j.keyAt(inc, fmt.Sprintf("jwk:%d", src), t.Kid, t.Key, o.t0, o.t1, o.s0, o.s1)
		}
		if t := fmt.Sprintf("jwk:%d", src); src >= 0 && j.settled(o, t) {
			s.keyP = hasKey(j.h.w.serving(t, o.t0).keys, s.at.Kid, s.at.Key)
			s.keyC = s.keyP
		}
		good := t.Mut == "" || t.Mut == "cnfnum" || t.Mut == "cnfnull"
		timeP := t.Exp != 0 && o.w0 < t.Exp*1e9 && o.w1 >= t.Iat*1e9 && (t.Nbf == 0 || o.w1 >= t.Nbf*1e9)
		timeC := t.Exp != 0 && o.w1 < t.Exp*1e9 && o.w0 >= t.Iat*1e9 && (t.Nbf == 0 || o.w0 >= t.Nbf*1e9)
		b := j.h.bound(t, s.cert)
		s.tokP = good && s.keyP && timeP && b
		s.tokC = good && s.keyC && timeC && b
		switch {
		case !good:
			s.tokWhy = "altered (" + t.Mut + ")"
		case !timeP:
			s.tokWhy = "outside its validity period"
		case !b:
			s.tokWhy = "not bound to this certificate or client"
		case !s.keyP:
			s.tokWhy = "key not in the set it names"
		}
	}
	s.key = kind + "\x00" + tok
	if s.cert != nil {
		s.key += "\x00c" + string(mustJSON(s.cert))
	}
	s.act, s.res, s.trOK = o.op.Act, o.op.Res, true
	q := ""
	if o.op.Kind == "http" {
		q = o.op.Query
	}
	if c.NoPolicy {
		s.freshP, s.freshC = s.tokP, s.tokC
		return s
	}
	s.key += "\x00" + s.act + "\x00" + s.res
	if c.Rules != nil {
		s.key += "\x00" + q
	}
	if s.act == "" || s.res == "" {
		s.emptyParm = true
		return s
	}
	if c.Rules != nil {
		s.act, s.res, s.trOK = translate(c.Rules, s.dom, s.act, s.res, q)
	}
	if !s.trOK {
		return s
	}
	s.res = c.Prefix + s.res
	s.pol = j.policy(o, s.dom, s.roles, s.act, s.res)
	s.freshP = s.tokP && len(s.pol.grant) > 0
	s.freshC = s.tokC && !s.pol.deny && !o.cancelled
	return s
}

// samePrincipal compares the principal returned with the credential's own
// contents; roles are compared separately.
func (s *sub) samePrincipal(p *prin) bool {
	if p == nil || p.nilp {
		return false
	}
	eq := func(a, b []string) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	if s.kind == "rt" {
		t := s.rt
		return !p.isAT && p.name == t.Name && p.domain == t.Dom && eq(p.roles, t.Roles) && p.iat == baseUnix+t.Iat && p.exp == baseUnix+t.Exp
	}
	t := s.at
	return p.isAT && p.name == t.Sub && p.domain == t.Aud && eq(p.roles, t.Scp) && p.iat == baseUnix+t.Iat && p.exp == baseUnix+t.Exp && p.cid == t.Cid
}

func (j *jd) rolesOK(s *sub, p *prin) bool {
	if j.c.NoPolicy {
		return len(p.auth) == 0
	}
	got := setKey(p.auth)
	for _, v := range s.pol.grant {
		if !v.deny && setKey(v.allow) == got {
			return true
		}
		if s.pol.edge && len(p.auth) > 0 {
			sub := true
			for _, r := range p.auth {
				in := false
				for _, x := range v.allow {
					in = in || x == r
				}
				sub = sub && in
			}
			if sub {
				return true
			}
		}
	}
	return false
}

// fresh reports whether granting o through s is explained without the cache.
func (j *jd) fresh(s *sub, o *opRec) bool {
	if !s.freshP {
		return false
	}
	if o.pr != nil || o.wantsPrincipal() {
		return s.samePrincipal(o.pr) && j.rolesOK(s, o.pr)
	}
	return true
}

func (o *opRec) wantsPrincipal() bool {
	return !o.op.Verify && (o.op.Kind == "rt" || o.op.Kind == "at" || o.op.Kind == "http")
}

func (j *jd) subs(o *opRec) []*sub {
	if o.subs != nil {
		return o.subs
	}
	var ss []*sub
	if o.op.Kind == "at" || o.op.Kind == "http" {
		if s := j.evalSub(o, "at"); s != nil {
			ss = append(ss, s)
		}
	}
	if o.op.Kind == "rt" || o.op.Kind == "http" {
		if s := j.evalSub(o, "rt"); s != nil {
			ss = append(ss, s)
		}
	}
	o.subs = ss
	return ss
}

// cached: granting o through s repeats a remembered success.
func (j *jd) cached(s *sub, o *opRec) (ok bool, why string) {
	why = "no earlier identical request was granted"
	for _, p := range j.h.ops {
		if p == o || !p.done || !p.granted || p.node != o.node || p.s0 > o.s1 {
			continue
		}
		if p.op.Kind != "rt" && p.op.Kind != "at" && p.op.Kind != "http" {
			continue
		}
		for _, ps := range j.subs(p) {
			if ps.key != s.key || !ps.freshP {
				continue
			}
			if o.t0 > p.t1+int64(j.c.CacheExp)+eps {
				if why[0] == 'n' {
					why = fmt.Sprintf("the last identical request granted on its merits ended at %s", sec(p.t1))
				}
				continue
			}
			if !j.fresh(ps, p) {
				continue
			}
			if o.wantsPrincipal() {
				if !s.samePrincipal(o.pr) {
					why = "principal differs"
					continue
				}
				if p.pr != nil && setKey(p.pr.auth) != setKey(o.pr.auth) {
					why = "principal's roles differ"
					continue
				}
				if p.pr == nil && !j.rolesOK(ps, o.pr) {
					why = "principal's roles differ"
					continue
				}
			}
			return true, ""
		}
	}
	return false, why
}

func (j *jd) access(o *opRec) {
	h := j.h
	if o.op.Kind == "http" && !o.granted && !o.inv {
		h.violateAt(o.t1, []string{"C20"}, "HTTP refusal without the invalid-credentials error: %s", o.err)
	}
	if !o.granted && o.pr != nil && !o.pr.nilp {
		h.violateAt(o.t1, []string{"C20", "C09", "C10"}, "principal returned with an error: %s", o.err)
	}
	ss := j.subs(o)
	id := fmt.Sprintf("%s #%d.%d act=%q res=%q query=%q hdr=%q rt=%d at=%d certs=%v inc=%d t=%s", o.op.Kind, o.idx, o.rep, o.op.Act, o.op.Res, o.op.Query, o.op.Hdr, o.op.RT, o.op.AT, o.op.Certs, o.node.inc, sec(o.t0))
	if o.granted {
		if o.wantsPrincipal() && (o.pr == nil || o.pr.nilp) {
			h.violateAt(o.t1, []string{"C20", "C09", "C10", "C11"}, "grant without principal: %s", id)
			return
		}
		why := ""
		tags := map[string]bool{}
		if len(ss) == 0 {
			why = "no enabled credential"
			tags["C20"] = true
		}
		for _, s := range ss {
			if j.fresh(s, o) {
				h.stats["judged.grant"]++
				return
			}
			ok, cw := j.cached(s, o)
			if ok {
				h.stats["judged.cached"]++
				return
			}
			why += fmt.Sprintf(" [%s: %s; cache: %s]", s.kind, j.whyNot(s, o, tags), cw)
		}
		if o.op.Kind == "http" {
			tags["C20"] = true
		}
		h.violateAt(o.t1, keysOf(tags), "unjustified grant: %s:%s principal=%+v", id, why, o.pr)
		return
	}
	// denial
	tags := map[string]bool{}
	why := ""
	for _, s := range ss {
		if s.emptyParm || !s.trOK {
			continue
		}
		if s.freshC {
			j.denyTags(s, o, tags)
			why += fmt.Sprintf(" [%s: roles %v of %s, mapped act=%q res=%q, grants %v]", s.kind, s.roles, s.dom, s.act, s.res, s.pol.grant)
		}
	}
	if why != "" {
		if o.op.Kind == "http" {
			tags["C20"] = true
		}
		h.violateAt(o.t1, keysOf(tags), "unjustified refusal: %s:%s error=%q", id, why, o.err)
		return
	}
	h.stats["judged.deny"]++
	for _, s := range ss {
		if !s.freshP {
			h.stats["judged.mustdeny"]++
		}
	}
}

func keysOf(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// whyNot explains why a grant through s is illegal and names the properties it refutes.
func (j *jd) whyNot(s *sub, o *opRec, tags map[string]bool) string {
	tags["C11"] = true
	if s.emptyParm {
		tags["C01"] = true
		return "empty action or resource"
	}
	if !s.tokP {
		if o.op.Cross {
			tags["C20"] = true
		}
		if s.kind == "rt" {
			tags["C09"] = true
			if !s.keyP {
				tags["C07"] = true
			}
		} else {
			tags["C10"] = true
			if !s.keyP {
				tags["C08"] = true
			}
		}
		return "credential not acceptable: " + s.tokWhy
	}
	if j.c.NoPolicy {
		tags["C09"], tags["C10"] = s.kind == "rt", s.kind == "at"
		return "principal differs"
	}
	if len(s.pol.grant) > 0 && o.wantsPrincipal() {
		if !s.samePrincipal(o.pr) {
			if s.kind == "rt" {
				tags["C09"] = true
			} else {
				tags["C10"] = true
			}
			return "principal is not the credential's"
		}
		tags["C01"], tags["C02"] = true, true
		return fmt.Sprintf("authorized roles %v, expected one of %v", o.pr.auth, s.pol.grant)
	}
	tags["C01"], tags["C02"] = true, true
	if !s.trOK || j.c.Rules != nil {
		tags["C16"] = true
	}
	if j.converged(o) {
		tags["C05"] = true
	}
	r := "policy in force does not allow it"
	for _, is := range j.h.w.issues {
		if !evalDoc(is.spec, s.dom, s.roles, s.act, s.res).granted() {
			continue
		}
		if !is.genuine && j.delivered(o, is) {
			tags["C03"] = true
			r += fmt.Sprintf("; doc#%d (%s, not authentic) would", is.id, is.fault)
		} else if is.genuine && is.expires < o.w0 && j.delivered(o, is) {
			tags["C04"] = true
			r += fmt.Sprintf("; doc#%d (expired at %s) would", is.id, sec(is.expires))
		}
	}
	for _, d := range j.h.w.dels {
		if d.inc == o.node.inc && d.iss != nil && !j.info[d].possible && d.iss.genuine && evalDoc(d.iss.spec, s.dom, s.roles, s.act, s.res).granted() {
			if d.wall > d.iss.expires {
				tags["C04"] = true
			} else {
				tags["C03"], tags["C07"] = true, true
			}
			r += fmt.Sprintf("; doc#%d (not acceptable on arrival) would", d.iss.id)
		}
	}
	return r
}

func (j *jd) delivered(o *opRec, is *issue) bool {
	for _, d := range j.h.w.dels {
		if d.iss == is || (d.iss != nil && d.iss.id == is.id) {
			return d.inc == o.node.inc
		}
	}
	return false
}

func (j *jd) denyTags(s *sub, o *opRec, tags map[string]bool) {
	tags["C06"] = true
	if j.converged(o) {
		tags["C05"] = true
	}
	e := o.err
	tokErr := strings.Contains(e, "role token") || strings.Contains(e, "access token") || o.op.Kind == "http" || j.c.NoPolicy
	polErr := strings.Contains(e, "token unauthorized") || o.op.Kind == "http" || !tokErr
	if tokErr {
		if s.kind == "rt" {
			tags["C09"], tags["C07"] = true, true
		} else {
			tags["C10"], tags["C08"] = true, true
		}
	}
	if polErr {
		tags["C01"], tags["C02"], tags["C03"] = true, true, true
		if j.c.Rules != nil {
			tags["C16"] = true
		}
		if strings.Contains(e, "context") {
			tags["C15"] = true
		}
	}
	if n := o.node; n.initOK && o.s0 >= n.initOKs {
		later := false
		for _, d := range j.h.w.dels {
			if d.inc == n.inc && d.seq > n.initOKs && d.seq < o.s0 {
				later = true
			}
		}
		if !later {
			tags["C12"] = true
		}
	}
	tags["C15"] = tags["C15"] || strings.Contains(e, "panic")
	if !tags["C15"] {
		delete(tags, "C15")
	}
}

// roleCert judges VerifyRoleCert.
func (j *jd) roleCert(o *opRec) {
	h, c := j.h, j.c
	id := fmt.Sprintf("rc #%d.%d act=%q res=%q certs=%v t=%s", o.idx, o.rep, o.op.Act, o.op.Res, o.op.Certs, sec(o.t0))
	if c.NoPolicy {
		if !o.granted {
			h.violateAt(o.t1, []string{"C21"}, "role certificate refused although policies are disabled: %s %s", id, o.err)
		}
		return
	}
	var cs []CertSpec
	for _, i := range o.op.Certs {
		if i < len(j.p.Certs) {
			cs = append(cs, j.p.Certs[i])
		}
	}
	m := certRoles(cs, c.RCPrefix)
	possible, certain, edge := false, false, false
	why := ""
	tags := map[string]bool{"C21": true}
	for d, rs := range m {
		a := j.policy(o, d, rs, o.op.Act, o.op.Res)
		if len(a.grant) > 0 {
			possible = true
		}
		if !a.deny {
			certain = true
			why += fmt.Sprintf(" [%s %v]", d, rs)
		}
		edge = edge || a.edge
	}
	if o.granted && !possible {
		for d, rs := range m {
			for _, is := range h.w.issues {
				if evalDoc(is.spec, d, rs, o.op.Act, o.op.Res).granted() && is.dom == d {
					if !is.genuine {
						tags["C03"] = true
					} else if is.expires < o.w0 {
						tags["C04"] = true
					}
				}
			}
		}
		tags["C01"], tags["C02"] = true, true
		if j.converged(o) {
			tags["C05"] = true
		}
		h.violateAt(o.t1, keysOf(tags), "unjustified role certificate grant: %s names %v", id, m)
		return
	}
	if !o.granted && certain && !o.cancelled {
		tags["C01"], tags["C02"], tags["C06"] = true, true, true
		if j.converged(o) {
			tags["C05"] = true
		}
		h.violateAt(o.t1, keysOf(tags), "unjustified role certificate refusal: %s names %v, granted by%s error=%q", id, m, why, o.err)
		return
	}
	if possible {
		h.stats["judged.rc.grantable"]++
	}
	h.stats["judged.rc"]++
}

func entKey(es []dumpEnt) string {
	var l []string
	for _, e := range es {
		l = append(l, e.effect+"|"+e.action+"|"+e.res+"|"+e.dom)
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// dump judges GetPolicyCache: per domain exactly one document's content.
func (j *jd) dump(o *opRec) {
	h := j.h
	if j.c.NoPolicy {
		if len(o.dump) != 0 {
			h.violateAt(o.t1, []string{"C02"}, "policy cache not empty although policies are disabled: %d", len(o.dump))
		}
		return
	}
	left := map[string]bool{}
	for r := range o.dump {
		left[r] = true
	}
	for _, dom := range j.c.Domains {
		got := map[string][]dumpEnt{}
		for r, es := range o.dump {
			if strings.HasPrefix(r, dom+":role.") {
				got[r] = es
				delete(left, r)
			}
		}
		ok := false
		desc := ""
		for _, x := range j.docs(o, dom) {
			if x.d == nil {
				if len(got) == 0 {
					ok = true
				}
				desc += " none"
				continue
			}
			lp, lc := j.live(x, o)
			want := docDump(x.d.iss.spec, dom)
			match := true
			for r, es := range got {
				if w, k := want[r]; !k || entKey(w) != entKey(es) {
					match = false
				}
			}
			if lc && !o.cancelled {
				for r := range want {
					if _, k := got[r]; !k {
						match = false
					}
				}
			}
			// an expired entry may stay in the cache unseen until it is purged
			_ = lp
			if match {
				ok = true
			}
			desc += fmt.Sprintf(" doc#%d(exp %s)", x.d.iss.id, sec(x.d.iss.expires))
		}
		if !ok {
			tags := map[string]bool{"C02": true, "C01": true}
			for _, is := range h.w.issues {
				if is.dom == dom && !is.genuine && j.delivered(o, is) {
					tags["C03"] = true
				}
			}
			if j.converged(o) {
				tags["C05"] = true
			}
			h.violateAt(o.t1, keysOf(tags), "policy cache matches no document: #%d.%d domain %s at %s; candidates:%s; content: %v", o.idx, o.rep, dom, sec(o.t0), desc, got)
			return
		}
	}
	for r := range left {
		h.violateAt(o.t1, []string{"C03", "C02"}, "policy cache holds a role of a domain that is not configured: %s", r)
		return
	}
	h.stats["judged.dump"]++
}

func (j *jd) tr(o *opRec) {
	if o.node.mr == nil {
		return
	}
	a, r, ok := translate(j.c.Rules, o.op.Dom, o.op.Act, o.op.Res, o.op.Query)
	if !ok {
		if o.granted && (o.act2 != o.op.Act || o.res2 != o.op.Res) {
			j.h.violateAt(o.t1, []string{"C16"}, "translation of a malformed query: %q %q", o.act2, o.res2)
		}
		return
	}
	if !o.granted || o.act2 != a || o.res2 != r {
		j.h.violateAt(o.t1, []string{"C16"}, "translation differs: domain %s %q %q query %q gave (%q, %q, %s), expected (%q, %q)", o.op.Dom, o.op.Act, o.op.Res, o.op.Query, o.act2, o.res2, o.err, a, r)
		return
	}
	j.h.stats["judged.tr"]++
}

func (j *jd) targets() []string {
	c := j.c
	var ts []string
	if !c.NoPubkey {
		ts = append(ts, "zts", "zms")
	}
	if !c.NoPolicy {
		for _, d := range c.Domains {
			ts = append(ts, "pol:"+d)
		}
	}
	if !c.NoJwk {
		for i := range j.h.jwkSources() {
			ts = append(ts, fmt.Sprintf("jwk:%d", i))
		}
	}
	return ts
}

func (j *jd) inits(n *node) {
	h, c := j.h, j.c
	k := int64(c.Timeout)
	bound := k + int64(c.tries()+1)*int64(c.Timeout+c.PolRetry) + int64(len(c.JwkURLs)+1)*k + j.S + int64(time.Second)
	for i, ir := range n.inits {
		if !ir.done {
			h.violateAt(h.endAt, []string{"C12", "C15"}, "Init never returned: incarnation %d try %d started %s", n.inc, i, sec(ir.t0))
			continue
		}
		if ir.t1-ir.t0 > bound {
			h.violateAt(ir.t1, []string{"C12", "C15"}, "Init exceeded its bound: took %s, bound %s", sec(ir.t1-ir.t0), sec(bound))
		}
		if ir.err == nil {
			for _, t := range j.targets() {
				ok := false
				for _, d := range j.by[tk(n.inc, t)] {
					if d.seq < ir.s1 && j.info[d].possible {
						ok = true
					}
				}
				if !ok {
					tags := []string{"C12"}
					if strings.HasPrefix(t, "pol:") {
						tags = append(tags, "C03", "C04")
					}
					h.violateAt(ir.t1, tags, "Init succeeded on partial data: nothing acceptable was received from %s", t)
				}
			}
			h.stats["init.ok"]++
			continue
		}
		h.stats["init.err"]++
		// Init must succeed when every key source answered correctly and every
		// policy was answered correctly by one of the attempts
		clean := !ir.cancelled && j.S == 0 && (n.cancelAt < 0 || n.cancelAt > ir.t1)
		good := map[string]bool{}
		for _, r := range h.w.reqs {
			if r.inc != n.inc || r.t0 < ir.t0 || r.t0 > ir.t1 {
				continue
			}
			slow := r.fault == "" || r.fault == "delay" || r.fault == "slowbody"
			switch {
			case r.ok && slow:
				good[r.target] = true
			case r.cancelled && slow && r.t1-r.t0 < int64(c.Timeout-time.Millisecond): // given up because something else failed
				good[r.target] = true
			case !strings.HasPrefix(r.target, "pol:"):
				clean = false
			}
		}
		for _, t := range j.targets() {
			if strings.HasPrefix(t, "pol:") && !good[t] {
				clean = false
			}
		}
		for _, t := range h.w.changes {
			if t >= ir.t0 && t <= ir.t1 {
				clean = false
			}
		}
		if clean && j.consistent(ir.t1) {
			h.violateAt(ir.t1, []string{"C12", "C07", "C03", "C15"}, "Init failed although every source answered correctly: %v", ir.err)
		}
	}
	// the first requests after a successful Init are decided on loaded data:
	// checked by the access oracle (documents are definite from initOKt on).
}

// consistent: the servers' keys verify what the servers sign, and nothing
// they hand out is about to expire.
func (j *jd) consistent(int64) bool {
	w := j.h.w
	return !w.everInconsistent && w.signersPublished() && j.c.Reissue > 2*j.c.Timeout+time.Duration(absd(j.c.Skew)) && !w.everWall
}

func absd(d time.Duration) int64 {
	if d < 0 {
		return int64(-d)
	}
	return int64(d)
}

func (j *jd) shutdown(n *node) {
	h := j.h
	if n.cancelAt < 0 {
		return
	}
	h.stats["shutdown"]++
	b := h.shutBound() + j.S
	if n.startAt >= 0 {
		if n.closedAt < 0 || n.closedAt > n.cancelAt+b {
			h.violateAt(n.cancelAt, []string{"C13"}, "error channel not closed in time: incarnation %d cancelled %s closed %s\n%s", n.inc, sec(n.cancelAt), sec(n.closedAt), strings.Join(h.leftStacks, "\n\n"))
		} else if !n.ctxErr {
			h.violateAt(n.closedAt, []string{"C13"}, "channel closed without the context's error: incarnation %d", n.inc)
		}
	}
	for _, r := range h.w.reqs {
		if r.inc == n.inc && r.seq > n.cancelSeq && !r.dead {
			h.violateAt(r.t0, []string{"C13"}, "request after cancellation: %s at %s, cancelled %s", r.url, sec(r.t0), sec(n.cancelAt))
			break
		}
	}
}

// pace judges request spacing (C14) and persistence (C05, C14, C15).
func (j *jd) pace(n *node) {
	h, c := j.h, j.c
	if c.ExpRT {
		return
	}
	K := int64(c.Timeout)
	U := int64(c.tries()+1) * int64(c.Timeout+c.PolRetry)
	end := h.endAt
	if n.cancelAt >= 0 && n.cancelAt < end {
		end = n.cancelAt
	}
	inits := len(n.inits)
	// sure: the exchange certainly counted as a success for the client
	bad := map[*reqRec]bool{}
	for _, d := range h.w.dels {
		if d.inc == n.inc && !j.info[d].definite {
			bad[d.req] = true
		}
	}
	sure := func(r *reqRec) bool { return r.ok && !bad[r] }
	for _, t := range j.targets() {
		var rs []*reqRec
		for _, r := range h.w.reqs {
			if r.inc == n.inc && r.target == t && !r.dead {
				rs = append(rs, r)
			}
		}
		pol := strings.HasPrefix(t, "pol:")
		var period, retry int64
		var maxGap int64
		switch {
		case pol:
			period, retry = int64(c.PolPeriod), int64(c.PolRetry)
			maxGap = period + 2*U + 3*retry
		case strings.HasPrefix(t, "jwk:"):
			period, retry = int64(c.JwkPeriod), int64(c.JwkRetry)
			maxGap = period + 2*K*int64(len(c.JwkURLs)+1) + 3*retry
		default:
			period, retry = int64(c.PubPeriod), int64(c.PubRetry)
			maxGap = period + 2*K + 3*retry
		}
		maxGap += j.S + int64(2*time.Second)

		// persistence
		tags := []string{"C05", "C14", "C15", "C06"}
		if t[0] == 'z' {
			tags = append(tags, "C07")
		} else if t[0] == 'j' {
			tags = append(tags, "C08")
		}
		if n.startAt >= 0 {
			last := n.startAt
			for _, r := range rs {
				if r.t0 < n.startAt {
					continue
				}
				if r.t0-last > maxGap {
					h.violateAt(r.t0, tags, "refreshing paused: no request to %s between %s and %s (bound %s)", t, sec(last), sec(r.t0), sec(maxGap))
					break
				}
				last = r.t0
			}
			if end-last > maxGap {
				h.violateAt(end, tags, "refreshing stopped: no request to %s since %s although running until %s (bound %s)", t, sec(last), sec(end), sec(maxGap))
			}
		}

		// a failed refresh is repeated, however late the next period
		if n.startAt >= 0 {
			for i, r := range rs {
				if !r.failed() || r.t1 < 0 || r.t0 < n.startAt || r.t1-r.t0 > K+eps {
					continue
				}
				by := r.t1 + j.S + 20*int64(c.SlowDrain) + int64(2*time.Second)
				switch {
				case pol:
					if j.accepted(n, t, r.t1) { // then the refresh may fall back on it
						continue
					}
					by += U + 2*retry
				case r.fault == "junk" || r.fault == "null" || r.fault == "expired":
					continue
				case t[0] == 'j':
					if r.fault == "empty" {
						continue
					}
					by += int64(len(c.JwkURLs)+1)*K + retry
				default:
					by += 2*K + retry
				}
				next := end
				if i+1 < len(rs) {
					next = rs[i+1].t0
				}
				if by < end && next > by {
					h.violateAt(by, tags, "failed refresh not repeated: %s failed (%s) at %s and was not requested again by %s", t, r.fault, sec(r.t1), sec(by))
					break
				}
				if by < end && r.t1+period > by {
					h.stats["repeat.tight"]++
				}
			}
		}

		// spacing of the attempts of one policy refresh
		if pol {
			run := 0 // attempts the current refresh may have made
			for i, r := range rs {
				if i > 0 && run > 0 && rs[i-1].failed() {
					p := rs[i-1]
					pe := p.t1
					if pe < 0 {
						pe = p.t0
					}
					// another initialization starts a refresh of its own
					for _, ir := range n.inits {
						if ir.t0 >= pe && ir.t0 <= r.t0 {
							run = 0
						}
					}
					if r.t0-pe < retry && run > 0 && !n.overlap(rs, i) {
						if run < c.tries()+1 {
							h.violateAt(r.t0, []string{"C14"}, "policy retried too early: %s at %s after a failure at %s, delay %s", t, sec(r.t0), sec(pe), sec(retry))
							break
						}
						run = 0 // the attempts of one refresh were used up; this is the next
					}
				}
				run++
				if sure(r) {
					run = 0
				}
			}
		}
		// rate: in any window the requests are explained by refreshes and retries
		for i := range rs {
			w := int64(10 * time.Second)
			var k int64
			fails := int64(0)
			for m := i; m < len(rs) && rs[m].t0 < rs[i].t0+w; m++ {
				k++
				if !sure(rs[m]) {
					fails++
				}
			}
			ticks := w/period + 2 + int64(inits)
			var lim int64
			if pol {
				other := int64(0) // a refresh repeats because some domain has nothing to fall back on
				for _, r := range h.w.reqs {
					if r.inc == n.inc && strings.HasPrefix(r.target, "pol:") && !sure(r) && r.t0 >= rs[i].t0-w-U && r.t0 < rs[i].t0+w {
						other++
					}
				}
				exp := int64(0)
				for _, d := range h.w.dels {
					if d.inc == n.inc && d.iss != nil && d.t < rs[i].t0+w {
						x := d.iss.expires - d.wall + d.t
						if x > rs[i].t0-2*w && x < rs[i].t0+w {
							exp++
						}
					}
				}
				if exp > 4 {
					exp = 4
				}
				lim = 2*ticks + 2*exp
				if other > 0 {
					lim += 2*(w/retry+1) + int64(c.tries()+1)*2
				}
			} else {
				lim = ticks
				if fails > 0 {
					lim += w/retry + 2 + ticks
				}
				// other sources of the same daemon failing repeats this one too
				if fails == 0 {
					for _, r := range h.w.reqs {
						if r.inc == n.inc && !sure(r) && r.target[:1] == t[:1] && r.t0 > rs[i].t0-w && r.t0 < rs[i].t0+w {
							lim += w/retry + 2 + ticks
							break
						}
					}
				}
			}
			if k > lim {
				h.violateAt(rs[i].t0, []string{"C14", "C19"}, "request storm: %d requests to %s within %s from %s, at most %d explained", k, t, sec(w), sec(rs[i].t0), lim)
				break
			}
		}
		h.stats["paced"]++
	}
}

// accepted: the client may have taken over an answer of the target by then.
func (j *jd) accepted(n *node, target string, by int64) bool {
	for _, d := range j.by[tk(n.inc, target)] {
		if j.info[d].possible && d.req.t0 <= by {
			return true
		}
	}
	return false
}

func (n *node) overlap(rs []*reqRec, i int) bool {
	for m := 0; m < i; m++ {
		if rs[m].t1 > rs[i].t0 || rs[m].t1 < 0 {
			return true
		}
	}
	return false
}

// failed: the exchange cannot have been of any use to the client.
func (r *reqRec) failed() bool {
	if r.ok || r.cancelled {
		return false
	}
	switch r.fault {
	case "hang", "drop", "temp", "status", "garbage", "empty", "trunc", "readerr", "forge", "forgezms", "forgezts", "unkid", "tamper", "tamperexp", "nosig", "noexp", "emptyobj", "halfobj", "expired", "null", "junk":
		return true
	}
	return false
}

// reports: failing key and JWK refreshes, and policy refreshes without a
// fallback, appear on the error channel.
func (j *jd) reports(n *node) {
	h, c := j.h, j.c
	if n.startAt < 0 || c.ExpRT {
		return
	}
	end := h.endAt
	if n.cancelAt >= 0 && n.cancelAt < end {
		end = n.cancelAt
	}
	U := int64(c.tries()+1) * int64(c.Timeout+c.PolRetry)
	heard := func(from, to int64) bool {
		for _, e := range n.errs {
			if e.t >= from && e.t <= to {
				return true
			}
		}
		return false
	}
	for _, r := range h.w.reqs {
		if r.inc != n.inc || r.t0 < n.startAt || !r.failed() || r.t1 < 0 {
			continue
		}
		var by int64
		switch {
		case r.target == "zts" || r.target == "zms":
			if r.fault == "junk" || r.fault == "null" || r.fault == "expired" {
				continue
			}
			by = r.t1 + int64(c.Timeout)
		case strings.HasPrefix(r.target, "jwk:"):
			if r.fault == "junk" || r.fault == "null" || r.fault == "empty" {
				continue
			}
			by = r.t1 + int64(len(c.JwkURLs)+1)*int64(c.Timeout) + int64(c.JwkRetry)
		default:
			by = r.t1 + 2*U + 2*int64(c.PolRetry)
			if j.accepted(n, r.target, by) { // then there is something to fall back on
				continue
			}
		}
		by += 2*int64(c.PubRetry) + 20*int64(c.SlowDrain) + j.S + int64(time.Second)
		if by >= end {
			continue
		}
		if !heard(r.t0, by) {
			h.violateAt(by, []string{"C14"}, "failure not reported: %s failed (%s) at %s and nothing appeared on the error channel by %s", r.target, r.fault, sec(r.t1), sec(by))
			return
		}
		h.stats["reported"]++
	}
}

func (j *jd) resources() {
	h := j.h
	seen := map[string]bool{}
	for _, r := range h.w.reqs {
		if r.answered && r.hasBody && !r.closed && r.status != 304 {
			k := r.target[:1] + r.fault
			if seen[k] {
				continue
			}
			seen[k] = true
			tags := []string{"C19"}
			h.violateAt(r.t1, tags, "response body not closed: %s status %d fault %q at %s", r.target, r.status, r.fault, sec(r.t1))
		}
		if r.answered {
			h.stats["bodies"]++
		}
	}
	limit := h.liveBound()
	for _, s := range h.live {
		if s.n <= limit {
			continue
		}
		n := s.n
		for _, x := range s.stacks { // the JWK library leaves one behind per cancelled fetch
			if strings.Contains(x, "backoff/v2.") {
				n--
			}
		}
		if n > limit {
			h.violateAt(s.t, []string{"C19"}, "too many goroutines: %d alive at %s, bound %d\n%s", n, sec(s.t), limit, groupStacks(s.stacks))
			break
		}
	}
	if h.left > 0 {
		var bad []string
		for _, s := range h.leftStacks {
			if strings.Contains(s, "backoff/v2.") || strings.Contains(s, "main.(*run).main") || strings.Contains(s, "main.bubbleStacks") || strings.Contains(s, "main.execute") {
				continue
			}
			bad = append(bad, s)
		}
		if len(bad) > 0 {
			h.violateAt(h.endAt, []string{"C13", "C19"}, "background activity survives cancellation: %d goroutines\n%s", len(bad), strings.Join(bad, "\n\n"))
		}
	}
}

func (j *jd) logs() {
	h := j.h
	if !j.c.Log {
		return
	}
	b := h.logs
	h.stats["loglines"] += bytes.Count(b, []byte("\n"))
	for _, o := range h.ops {
		rt, at := o.rtTok, o.atTok
		if o.op.Cross {
			rt, at = at, rt
		}
		for _, s := range []string{rtSecret(rt), atSecret(at)} {
			if len(s) < 16 {
				continue
			}
			// the whole of it, or a large part: its beginning or its end
			n := len(s)
			if n > 24 {
				n = 24
			}
			for _, part := range []string{s, s[:n], s[len(s)-n:]} {
				if i := bytes.Index(b, []byte(part)); i >= 0 {
					lo := bytes.LastIndexByte(b[:i], '\n') + 1
					hi := i + len(part)
					h.violateAt(o.t1, []string{"C17"}, "credential signature in the log: request #%d (%s): ...%s", o.idx, o.op.Kind, b[lo:hi])
					return
				}
			}
		}
	}
}

// groupStacks counts goroutines by the function they are parked in.
func groupStacks(ss []string) string {
	m := map[string]int{}
	for _, s := range ss {
		l := strings.Split(s, "\n")
		k := ""
		for i := 1; i < len(l); i += 2 {
			f := strings.TrimSpace(l[i])
			if p := strings.LastIndexByte(f, '('); p > 0 {
				f = f[:p]
			}
			if strings.HasPrefix(f, "created by") {
				k += " <- " + f
			} else if i < 12 {
				k += " " + f[strings.LastIndexByte(f, '/')+1:]
			}
		}
		m[k]++
	}
	var out []string
	for k, n := range m {
		out = append(out, fmt.Sprintf("%dx%s", n, k))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}
