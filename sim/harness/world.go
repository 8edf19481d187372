package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/ardielle/ardielle-go/rdl"
)

const athenzHost = "athenz.sim/zts/v1"

// issue is one signed policy document as the server (or an attacker) made it.
type issue struct {
	id       int
	dom      string
	spec     *DocSpec
	expires  int64 // ns since the simulated epoch
	zid, mid string
	zkey     int
	mkey     int
	etag     string
	body     []byte
	genuine  bool // both signatures made with the keys named, domain right
	maybe    bool // genuine but of odd shape: adopting and refusing it are both fine
	fault    string
}

// delivery is a complete 200 response body handed to the client.
type delivery struct {
	seq    uint64
	t      int64 // simulated ns
	wall   int64 // client wall clock, ns since the epoch
	inc    int
	target string
	iss    *issue
	keys   []PubKey
	good   bool // a well-formed document that must be adopted when authentic
	maybe  bool // may or may not be adopted
	fault  string
	req    *reqRec
	etag   string // validator sent along
}

// reqRec is one request that reached the transport.
type reqRec struct {
	seq       uint64
	inc       int
	target    string
	url       string
	inm       string
	sent      string // what of the request could hold a credential
	wall      int64  // client wall clock when it was sent
	t0, t1    int64
	status    int
	fault     string
	cancelled bool // its context ended before an answer
	dead      bool // its context had ended before it was sent
	answered  bool
	ok        bool // complete good answer (200 adopted or correct 304)
	hasBody   bool
	closed    bool
	bodyEnd   int64
}

type world struct {
	h                *run
	zts              []PubKey
	zms              []PubKey
	ztsSig           PubKey
	zmsSig           PubKey
	jwks             [][]PubKey
	docs             map[string]*docState
	reqs             []*reqRec
	unmod            []*delivery // answered "not modified", by right
	dels             []*delivery
	nreq             map[string]int
	ndel             map[string]int
	finj             []int
	fkinds           map[string]int
	nissue           int
	lastChange       int64
	issues           []*issue
	changes          []int64
	everWall         bool
	walls            []int64            // when the client's clock jumped
	unpub            []int64            // when a signing key was not published, or that ended
	hist             map[string][]state // what each endpoint has served since when
	everInconsistent bool
}

// state is what an endpoint serves from t on.
type state struct {
	t    int64
	keys []PubKey
	spec *DocSpec
}

// record notes the present state behind target.
func (w *world) record(target string) {
	st := state{t: now()}
	switch {
	case target == "zts":
		st.keys = w.zts
	case target == "zms":
		st.keys = w.zms
	case strings.HasPrefix(target, "pol:"):
		if d := w.docs[target[4:]]; d != nil {
			st.spec = d.spec
		}
	default:
		n, _ := strconv.Atoi(target[4:])
		if n < len(w.jwks) {
			st.keys = w.jwks[n]
		}
	}
	w.hist[target] = append(w.hist[target], st)
}

// serving is the state behind target at t.
func (w *world) serving(target string, t int64) (st state) {
	for _, x := range w.hist[target] {
		if x.t <= t {
			st = x
		}
	}
	return
}

type docState struct {
	specs []*DocSpec // all there have been
	spec  *DocSpec
	cur   *issue
	past  []*issue
}

func newWorld(h *run) *world {
	p := h.p
	w := &world{h: h, zts: p.Init.Zts, zms: p.Init.Zms, ztsSig: p.Init.ZtsSig, zmsSig: p.Init.ZmsSig,
		docs: map[string]*docState{}, nreq: map[string]int{}, ndel: map[string]int{},
		finj: make([]int, len(p.Faults)), fkinds: map[string]int{}, hist: map[string][]state{}}
	w.jwks = append(w.jwks, p.Init.Jwks...)
	for _, d := range p.Cfg.Domains {
		s := p.Init.Docs[d]
		if s == nil {
			s = &DocSpec{}
		}
		w.docs[d] = &docState{spec: s, specs: []*DocSpec{s}}
		w.record("pol:" + d)
	}
	w.record("zts")
	w.record("zms")
	for i := range w.jwks {
		w.record("jwk:" + strconv.Itoa(i))
	}
	if w.everInconsistent = !w.signersPublished(); w.everInconsistent {
		w.unpub = append(w.unpub, 0)
	}
	return w
}

func now() int64 { return runtime.SimNow() }

func clientWall() int64 { return time.Now().UnixNano() - baseUnix*1e9 }

// rdlTime converts ns since the epoch to the millisecond timestamps of Athenz.
func rdlTime(ns int64) *rdl.Timestamp {
	t := rdl.NewTimestamp(time.Unix(baseUnix, 0).Add(time.Duration(ns)).UTC().Truncate(time.Millisecond))
	return &t
}

type buildOpt struct {
	innerKey, outerKey int
	zid, mid           string
	mutate             func(sp *util.DomainSignedPolicyData) // after signing
	pre                func(sp *util.DomainSignedPolicyData) // before signing
	dom                string
}

func buildPolicy(spec *DocSpec, expires int64, o buildOpt) []byte {
	pd := &util.PolicyData{Domain: o.dom}
	for i, pol := range spec.Policies {
		p := &util.Policy{Name: fmt.Sprintf("%s:policy.p%d", o.dom, i), Modified: rdlTime(0)}
		for _, a := range pol {
			p.Assertions = append(p.Assertions, &util.Assertion{Role: a.Role, Action: a.Action, Resource: a.Resource, Effect: a.Effect})
		}
		pd.Policies = append(pd.Policies, p)
	}
	sp := &util.DomainSignedPolicyData{KeyId: o.zid, SignedPolicyData: &util.SignedPolicyData{
		Expires: rdlTime(expires), Modified: rdlTime(0), PolicyData: pd, ZmsKeyId: o.mid}}
	if o.pre != nil {
		o.pre(sp)
	}
	sp.SignedPolicyData.ZmsSignature = ysign(o.innerKey, string(mustJSON(sp.SignedPolicyData.PolicyData)))
	sp.Signature = ysign(o.outerKey, string(mustJSON(sp.SignedPolicyData)))
	if o.mutate != nil {
		o.mutate(sp)
	}
	return mustJSON(sp)
}

func (w *world) newIssue(dom string, spec *DocSpec, expires int64, fault string, o buildOpt) *issue {
	w.nissue++
	expires = expires / 1e6 * 1e6
	if o.zid == "" {
		o.zid, o.outerKey = w.ztsSig.ID, w.ztsSig.Key
	}
	if o.mid == "" {
		o.mid, o.innerKey = w.zmsSig.ID, w.zmsSig.Key
	}
	if o.dom == "" {
		o.dom = dom
	}
	is := &issue{id: w.nissue, dom: dom, spec: spec, expires: expires, zid: o.zid, mid: o.mid, zkey: o.outerKey, mkey: o.innerKey, fault: fault}
	is.body = buildPolicy(spec, expires, o)
	w.issues = append(w.issues, is)
	return is
}

// current returns the server's present document of dom, issuing one if needed.
func (w *world) current(dom string) *issue {
	d := w.docs[dom]
	c := &w.h.p.Cfg
	n := now()
	if d.cur == nil || d.cur.expires-n < int64(c.Reissue) || d.cur.zid != w.ztsSig.ID || d.cur.zkey != w.ztsSig.Key || d.cur.mid != w.zmsSig.ID || d.cur.mkey != w.zmsSig.Key {
		if d.cur != nil {
			d.past = append(d.past, d.cur)
		}
		is := w.newIssue(dom, d.spec, n+int64(c.PolLife), "", buildOpt{})
		is.genuine = true
		switch c.ETagMode {
		case "content":
			is.etag = fmt.Sprintf("\"v%x-%s-%s\"", mixs(5, string(mustJSON(d.spec))), w.ztsSig.ID, w.zmsSig.ID)
		case "issue":
			is.etag = fmt.Sprintf("\"i%d\"", is.id)
		}
		d.cur = is
	}
	return d.cur
}

func (w *world) setDoc(dom string, spec *DocSpec) {
	d := w.docs[dom]
	if d == nil {
		return
	}
	if d.cur != nil {
		d.past = append(d.past, d.cur)
		d.cur = nil
	}
	d.spec = nil
	for _, x := range d.specs { // back to an earlier version
		if string(mustJSON(x)) == string(mustJSON(spec)) {
			d.spec = x
		}
	}
	if d.spec == nil {
		d.spec = spec
		d.specs = append(d.specs, spec)
	}
	w.record("pol:" + dom)
}

func keysETag(mode string, ks []PubKey) string {
	if mode == "none" {
		return ""
	}
	return fmt.Sprintf("\"k%x\"", mixs(7, string(mustJSON(ks))))
}

func keysBody(name string, ks []PubKey) map[string]interface{} {
	var l []interface{}
	for _, k := range ks {
		l = append(l, map[string]string{"id": k.ID, "key": getKey(k.Key).yb})
	}
	if l == nil {
		l = []interface{}{}
	}
	return map[string]interface{}{"modified": "2000-01-01T00:00:00.000Z", "name": name, "publicKeys": l}
}

func jwksBody(ks []PubKey) map[string]interface{} {
	l := []interface{}{}
	for _, k := range ks {
		l = append(l, jwkOf(k.ID, k.Key))
	}
	return map[string]interface{}{"keys": l}
}

func (w *world) apply(e *Event) {
	w.lastChange = now()
	w.changes = append(w.changes, now())
	switch e.Kind {
	case "doc":
		w.setDoc(e.Dom, e.Doc)
	case "zts":
		w.zts = e.Keys
		w.record("zts")
	case "zms":
		w.zms = e.Keys
		w.record("zms")
	case "ztssig":
		w.ztsSig = e.Keys[0]
		w.record("zts")
	case "zmssig":
		w.zmsSig = e.Keys[0]
		w.record("zms")
	case "jwks":
		if e.Src < len(w.jwks) {
			w.jwks[e.Src] = e.Keys
			w.record("jwk:" + strconv.Itoa(e.Src))
		}
	case "wall":
		runtime.SimSetWall(runtime.SimWall() + e.D)
		w.everWall = true
		w.walls = append(w.walls, now())
		w.record("zts") // upsets everything
		w.record("zms")
		for i := range w.jwks {
			w.record("jwk:" + strconv.Itoa(i))
		}
	}
	if !w.signersPublished() {
		w.everInconsistent = true
	}
	if w.signersPublished() != (len(w.unpub)%2 == 0) {
		w.unpub = append(w.unpub, now())
	}
	w.h.stats["event."+e.Kind]++
	w.h.note("event", "%s %s %v", e.Kind, e.Dom, e.Keys)
}

// signersPublishedAt: both signing keys were published from t0 to t1.
func (w *world) signersPublishedAt(t0, t1 int64) bool {
	n := 0
	for _, t := range w.unpub {
		if t <= t0 {
			n++
		} else if t <= t1 {
			return false
		}
	}
	return n%2 == 0
}

func (w *world) signersPublished() bool {
	in := func(l []PubKey, k PubKey) bool {
		for _, x := range l {
			if x == k {
				return true
			}
		}
		return false
	}
	return in(w.zts, w.ztsSig) && in(w.zms, w.zmsSig)
}

// target names the endpoint of a URL, "" when it is none the client may ask.
func (w *world) target(u string) string {
	c := &w.h.p.Cfg
	base := "https://" + athenzHost
	for i, j := range w.h.jwkSources() {
		if u == j {
			return "jwk:" + strconv.Itoa(i)
		}
	}
	for _, d := range c.Domains {
		if u == base+"/domain/"+d+"/signed_policy_data" {
			return "pol:" + d
		}
	}
	if u == base+"/domain/"+c.SysAuth+"/service/zts" {
		return "zts"
	}
	if u == base+"/domain/"+c.SysAuth+"/service/zms" {
		return "zms"
	}
	return ""
}

type simErr struct {
	msg  string
	temp bool
}

func (e *simErr) Error() string   { return e.msg }
func (e *simErr) Timeout() bool   { return e.temp }
func (e *simErr) Temporary() bool { return e.temp }

var _ net.Error = (*simErr)(nil)

type transport struct {
	w   *world
	inc int
}

func sleepCtx(ctx context.Context, d time.Duration) error {
	if d <= 0 {
		return ctx.Err()
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
		return nil
	case <-ctx.Done():
		return ctx.Err()
	}
}

func matchTarget(pat, t string) bool {
	if strings.HasSuffix(pat, "*") {
		return strings.HasPrefix(t, pat[:len(pat)-1])
	}
	return pat == t
}

func (t *transport) RoundTrip(req *http.Request) (*http.Response, error) {
	w := t.w
	h := w.h
	ctx := req.Context()
	u := req.URL.String()
	r := &reqRec{seq: h.next(), inc: t.inc, url: u, inm: req.Header.Get("If-None-Match"), t0: now(), wall: clientWall(), t1: -1, bodyEnd: -1}
	r.target = w.target(u)
	if r.target == "" {
		r.sent = u
	}
	for _, k := range sortedHeader(req.Header) {
		if k != "If-None-Match" && k != "User-Agent" && k != "Accept" && k != "Accept-Encoding" {
			r.sent += " " + k + " " + strings.Join(req.Header[k], " ")
		}
	}
	if ctx.Err() != nil { // a real transport does not send it
		r.dead = true
		w.reqs = append(w.reqs, r)
		return nil, ctx.Err()
	}
	w.reqs = append(w.reqs, r)
	if r.target == "" {
		h.violate([]string{"C08", "C03", "C26"}, "request to an address that is not configured: %s", u)
		r.t1 = now()
		return nil, &simErr{"no such host", false}
	}
	if req.Method != http.MethodGet && req.Method != "" || req.Body != nil && req.Body != http.NoBody {
		h.violate([]string{"C26"}, "request other than a read: %s %s", req.Method, u)
	}
	w.nreq[r.target]++
	n := w.nreq[r.target]
	h.fireEvents(r.target, n)
	rnd := &rng{mixs(h.p.Seed^uint64(n)<<20, r.target)}
	h.note("req", "%s #%d inc=%d inm=%s", r.target, n, t.inc, r.inm)
	c := &h.p.Cfg

	// which fault, if any
	var f *Fault
	for i := range h.p.Faults {
		x := &h.p.Faults[i]
		if !matchTarget(x.Target, r.target) || now() < x.From || now() >= x.To || (x.Max > 0 && w.finj[i] >= x.Max) {
			continue
		}
		if int(mixs(h.p.Seed^uint64(n)<<24, r.target+x.Kind+x.Target)%100) < x.P {
			f = x
			w.finj[i]++
			break
		}
	}
	kind := ""
	if f != nil {
		kind = f.Kind
		r.fault = kind
		w.fkinds[kind]++
		h.note("fault", "%s %s", r.target, kind)
	}
	lat := rnd.dur(c.LatMin, c.LatMax)
	fail := func(err error) (*http.Response, error) {
		r.t1 = now()
		if ctx.Err() == context.Canceled {
			r.cancelled = true
		}
		h.fired(r.target)
		return nil, err
	}
	if kind == "delay" {
		lat += time.Duration(f.Arg)
	}
	if kind == "hang" {
		<-ctx.Done()
		return fail(ctx.Err())
	}
	if err := sleepCtx(ctx, lat/2); err != nil {
		return fail(err)
	}
	if kind == "drop" {
		return fail(&simErr{"connection reset by peer", false})
	}
	if kind == "temp" {
		return fail(&simErr{"temporary network error", true})
	}

	// the server answers from its state at this instant
	resp, del := w.answer(r, f, kind, rnd)
	if err := sleepCtx(ctx, lat-lat/2); err != nil {
		return fail(err)
	}
	r.t1 = now()
	r.status = resp.StatusCode
	r.answered = true
	resp.Request = req
	resp.Proto, resp.ProtoMajor, resp.ProtoMinor = "HTTP/1.1", 1, 1
	resp.Status = strconv.Itoa(resp.StatusCode) + " " + http.StatusText(resp.StatusCode)
	b := resp.Body.(*body)
	b.ctx = ctx
	b.w, b.r, b.del = w, r, del
	r.hasBody = len(b.data) > 0
	if kind == "slowbody" {
		b.slow = time.Duration(f.Arg)
	}
	if del == nil || del.fault == "trunc" {
		b.del = nil
	}
	if resp.StatusCode == 304 {
		r.ok = kind == ""
		if b.del = nil; del != nil { // the client says that it has this content
			del.seq, del.t, del.wall = h.next(), now(), clientWall()
			w.unmod = append(w.unmod, del)
		}
	}
	if len(b.data) == 0 {
		h.fired(r.target)
		b.done = true
	}
	return resp, nil
}

// body is a response body that tells the world when it has been handed over.
type body struct {
	w     *world
	r     *reqRec
	del   *delivery
	ctx   context.Context
	data  []byte
	off   int
	err   error // instead of io.EOF at the end
	slow  time.Duration
	done  bool
	chunk int
}

func (b *body) Read(p []byte) (int, error) {
	if b.r.closed {
		return 0, errors.New("http: read on closed response body")
	}
	if b.off >= len(b.data) {
		if b.err != nil {
			return 0, b.err
		}
		return 0, io.EOF
	}
	if b.slow > 0 {
		if err := sleepCtx(b.ctx, b.slow); err != nil {
			return 0, err
		}
	} else if b.ctx.Err() != nil {
		return 0, b.ctx.Err()
	}
	n := len(b.data) - b.off
	if b.chunk > 0 && n > b.chunk {
		n = b.chunk
	}
	n = copy(p, b.data[b.off:b.off+n])
	b.off += n
	if b.off >= len(b.data) && !b.done {
		b.done = true
		b.r.bodyEnd = now()
		if d := b.del; d != nil {
			d.seq = b.w.h.next()
			d.t = now()
			d.wall = clientWall()
			b.w.dels = append(b.w.dels, d)
			b.r.ok = d.good && !d.maybe
			b.w.h.note("delivered", "%s seq=%d %s", d.target, d.seq, d.describe())
		}
		b.w.h.fired(b.r.target)
	}
	return n, nil
}

func (b *body) Close() error {
	if !b.done {
		b.done = true
		b.w.h.fired(b.r.target)
	}
	b.r.closed = true
	return nil
}

func (d *delivery) describe() string {
	if d.iss != nil {
		return fmt.Sprintf("doc#%d exp=%s genuine=%v fault=%q", d.iss.id, sec(d.iss.expires), d.iss.genuine, d.fault)
	}
	return fmt.Sprintf("keys=%v good=%v fault=%q", d.keys, d.good, d.fault)
}

func evilSpec(h *run, dom string) *DocSpec {
	var as []Assert
	seen := map[string]bool{}
	add := func(r string) {
		if !seen[r] {
			seen[r] = true
			as = append(as, Assert{dom + ":role." + r, "*", dom + ":*", "ALLOW"})
		}
	}
	for _, t := range h.p.RTs {
		for _, r := range t.Roles {
			add(r)
		}
	}
	for _, t := range h.p.ATs {
		for _, r := range t.Scp {
			add(r)
		}
	}
	return &DocSpec{Policies: [][]Assert{as}}
}

func (w *world) answer(r *reqRec, f *Fault, kind string, rnd *rng) (*http.Response, *delivery) {
	c := &w.h.p.Cfg
	hdr := http.Header{"Content-Type": {"application/json"}}
	mk := func(status int, data []byte) *http.Response {
		return &http.Response{StatusCode: status, Header: hdr, Body: &body{data: data, chunk: c.Chunk}, ContentLength: -1}
	}
	switch kind {
	case "status":
		return mk(int(f.Arg), []byte(`{"code":`+strconv.Itoa(int(f.Arg))+`,"message":"simulated"}`)), nil
	case "304":
		return mk(304, nil), nil
	case "garbage":
		return mk(200, []byte("<html>captive portal</html>")), nil
	case "empty":
		return mk(200, nil), nil
	case "junk":
		hdr.Set("ETag", "\"junk\"")
		junk := []string{`[]`, `"x"`, `12`, `true`, `{"a":`, `{"keyId":7}`, `[null]`, `{"signedPolicyData":[]}`, `{"publicKeys":{}}`, `{"keys":7}`, "\x00\xff"}
		x := junk[rnd.n(len(junk))]
		var del *delivery
		if strings.HasPrefix(x, "{") && strings.HasSuffix(x, "}") && !strings.HasPrefix(r.target, "pol:") {
			// a JSON object without keys: an empty set, or nothing of the kind
			del = &delivery{inc: r.inc, target: r.target, fault: kind, req: r, good: true, maybe: true, etag: "\"junk\""}
		}
		return mk(200, []byte(x)), del
	}
	d := &delivery{inc: r.inc, target: r.target, fault: kind, req: r}
	var data []byte
	var etag string
	isPol := strings.HasPrefix(r.target, "pol:")
	if isPol {
		dom := r.target[4:]
		is := w.current(dom)
		etag = is.etag
		if kind == "" && etag != "" && r.inm == etag {
			hdr.Set("ETag", etag)
			d.iss, d.good = is, true
			return mk(304, nil), d
		}
		is, data = w.policyFault(dom, is, kind, f, rnd, data)
		if is != nil {
			data = is.body
			if kind == "stale" {
				etag = is.etag
			}
			d.iss = is
			d.good = is.genuine
			d.maybe = is.maybe
		} else {
			d = nil
		}
		if kind == "null" {
			etag = "\"null\""
		}
	} else {
		var ks []PubKey
		jwks := strings.HasPrefix(r.target, "jwk:")
		switch {
		case r.target == "zts":
			ks = w.zts
		case r.target == "zms":
			ks = w.zms
		default:
			n, _ := strconv.Atoi(r.target[4:])
			if n < len(w.jwks) {
				ks = w.jwks[n]
			}
		}
		if !jwks {
			etag = keysETag(c.ETagMode, ks)
			if kind == "" && etag != "" && r.inm == etag {
				hdr.Set("ETag", etag)
				d.keys, d.good = ks, true
				return mk(304, nil), d
			}
		}
		d.keys = ks
		d.good = true
		var v map[string]interface{}
		if jwks {
			v = jwksBody(ks)
		} else {
			v = keysBody(c.SysAuth+"."+r.target, ks)
		}
		switch kind {
		case "null":
			data = []byte("null")
			if jwks {
				d.keys, d.maybe = nil, true
			} else {
				d = nil
			}
		case "badkey", "nullkey":
			if jwks {
				l := v["keys"].([]interface{})
				if kind == "nullkey" {
					l = append(l, nil)
				} else {
					l = append(l, map[string]interface{}{"kty": "EC", "kid": "bad", "crv": "P-256"})
				}
				v["keys"] = l
				d.maybe = true
			} else {
				l := v["publicKeys"].([]interface{})
				var bad interface{} = map[string]string{"id": "bad", "key": "!!not-ybase64!!"}
				switch rnd.n(3) {
				case 0:
					bad = map[string]string{"id": "bad", "key": "bm90IGEga2V5"}
				case 1:
					if len(l) > 0 { // an existing identifier with undecodable material
						m := l[rnd.n(len(l))].(map[string]string)
						bad = map[string]string{"id": m["id"], "key": m["key"][:20]}
					}
				}
				if kind == "nullkey" {
					bad = nil
				}
				at := rnd.n(len(l) + 1)
				l = append(append(append([]interface{}{}, l[:at]...), bad), l[at:]...)
				v["publicKeys"] = l
				if kind == "nullkey" {
					d.maybe = true // refusing the document and skipping the entry are both fine
				} else {
					d = nil
				}
			}
		}
		if data == nil {
			data = mustJSON(v)
		}
	}
	if kind == "noetag" {
		etag = ""
	}
	if etag != "" {
		hdr.Set("ETag", etag)
		if d != nil {
			d.etag = etag
		}
	}
	resp := mk(200, data)
	b := resp.Body.(*body)
	switch kind {
	case "trunc", "readerr":
		n := len(data) * (5 + rnd.n(90)) / 100
		b.data = data[:n]
		if kind == "readerr" {
			b.err = io.ErrUnexpectedEOF
		}
		d = nil
	}
	return resp, d
}

func (w *world) policyFault(dom string, cur *issue, kind string, f *Fault, rnd *rng, data []byte) (*issue, []byte) {
	d := w.docs[dom]
	n := now()
	evil := evilKey + rnd.n(4)
	life := int64(w.h.p.Cfg.PolLife)
	switch kind {
	case "stale":
		if len(d.past) > 0 {
			return d.past[rnd.n(len(d.past))], nil
		}
		return cur, nil
	case "expired":
		is := w.newIssue(dom, evilSpec(w.h, dom), n-int64(rnd.dur(time.Millisecond, 60*time.Second)), kind, buildOpt{})
		is.genuine = true
		return is, nil
	case "short":
		is := w.newIssue(dom, d.spec, n+f.Arg, kind, buildOpt{})
		is.genuine = true
		is.etag = cur.etag
		return is, nil
	case "forge":
		return w.newIssue(dom, evilSpec(w.h, dom), n+life, kind, buildOpt{zid: w.ztsSig.ID, mid: w.zmsSig.ID, outerKey: evil, innerKey: evil}), nil
	case "forgezms": // outer signature right, inner one not
		return w.newIssue(dom, evilSpec(w.h, dom), n+life, kind, buildOpt{mid: w.zmsSig.ID, innerKey: evil}), nil
	case "forgezts": // inner signature right, outer one not
		return w.newIssue(dom, d.spec, n+life*100, kind, buildOpt{zid: w.ztsSig.ID, outerKey: evil}), nil
	case "unkid":
		return w.newIssue(dom, evilSpec(w.h, dom), n+life, kind, buildOpt{zid: "attacker", mid: "attacker", outerKey: evil, innerKey: evil}), nil
	case "swap": // signed throughout with the other service's key
		return w.newIssue(dom, evilSpec(w.h, dom), n+life, kind, buildOpt{zid: w.zmsSig.ID, outerKey: w.zmsSig.Key, mid: w.ztsSig.ID, innerKey: w.ztsSig.Key}), nil
	case "tamper":
		ev := evilSpec(w.h, dom)
		return w.newIssue(dom, ev, n+life, kind, buildOpt{mutate: func(sp *util.DomainSignedPolicyData) {
			var t util.DomainSignedPolicyData
			jsonInto(cur.body, &t)
			sp.Signature, sp.SignedPolicyData.ZmsSignature = t.Signature, t.SignedPolicyData.ZmsSignature
		}}), nil
	case "tamperexp":
		is := w.newIssue(dom, cur.spec, n+life*50, kind, buildOpt{mutate: func(sp *util.DomainSignedPolicyData) {
			var t util.DomainSignedPolicyData
			jsonInto(cur.body, &t)
			sp.Signature, sp.SignedPolicyData.ZmsSignature = t.Signature, t.SignedPolicyData.ZmsSignature
		}})
		return is, nil
	case "nosig":
		return w.newIssue(dom, evilSpec(w.h, dom), n+life, kind, buildOpt{mutate: func(sp *util.DomainSignedPolicyData) {
			if rnd.p(50) {
				sp.Signature = ""
			} else {
				sp.SignedPolicyData.ZmsSignature = ""
			}
		}}), nil
	case "foreign":
		for _, o := range w.h.p.Cfg.Domains {
			if o != dom {
				oi := w.current(o)
				x := *oi
				x.dom = dom
				x.genuine = false
				x.fault = kind
				return &x, nil
			}
		}
		// another domain of the same service, granting this domain's roles
		is := w.newIssue(dom, evilSpec(w.h, dom), n+life, kind, buildOpt{dom: "other.domain"})
		return is, nil
	case "nullpol": // properly signed, with null members
		v := rnd.n(3)
		spec := d.spec
		if v == 2 {
			spec = &DocSpec{}
		}
		is := w.newIssue(dom, spec, n+life, kind, buildOpt{pre: func(sp *util.DomainSignedPolicyData) {
			pd := sp.SignedPolicyData.PolicyData
			switch v {
			case 0:
				pd.Policies = append(pd.Policies, nil)
			case 1:
				pd.Policies = append(pd.Policies, &util.Policy{Assertions: []*util.Assertion{nil}})
			case 2:
				sp.SignedPolicyData.PolicyData = nil
			}
		}})
		is.maybe = true
		is.genuine = true
		return is, nil
	case "malformed": // properly signed, with an assertion nothing can be made of: refused, or taken without it
		is := w.newIssue(dom, d.spec, n+life, kind, buildOpt{pre: func(sp *util.DomainSignedPolicyData) {
			pd := sp.SignedPolicyData.PolicyData
			role := dom + ":role.r0"
			for _, pol := range d.spec.Policies {
				for _, x := range pol {
					role = x.Role
				}
			}
			a := &util.Assertion{Role: role, Action: "*", Resource: []string{"", "nodomain", "*"}[rnd.n(3)], Effect: []string{"ALLOW", "DENY"}[rnd.n(2)]}
			if len(pd.Policies) > 0 && rnd.p(50) {
				p := pd.Policies[rnd.n(len(pd.Policies))]
				p.Assertions = append(p.Assertions, a)
			} else {
				pd.Policies = append(pd.Policies, &util.Policy{Assertions: []*util.Assertion{a}})
			}
		}})
		is.maybe = true
		is.genuine = true
		return is, nil
	case "noexp":
		is := w.newIssue(dom, evilSpec(w.h, dom), n+life, kind, buildOpt{pre: func(sp *util.DomainSignedPolicyData) { sp.SignedPolicyData.Expires = nil }})
		return is, nil
	case "null":
		return nil, []byte("null")
	case "emptyobj":
		return nil, []byte(`{}`)
	case "halfobj":
		return nil, []byte([]string{`{"signedPolicyData":null,"keyId":"0","signature":"x"}`, `{"signedPolicyData":{}}`, `{"signedPolicyData":{"expires":"bogus"}}`, `{"signedPolicyData":{"expires":"2030-01-01T00:00:00.000Z","policyData":null}}`}[rnd.n(4)])
	}
	return cur, nil
}

func sortedHeader(hd http.Header) []string {
	if len(hd) == 0 {
		return nil
	}
	l := make([]string, 0, len(hd))
	for k := range hd {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
