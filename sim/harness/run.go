package main

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"runtime"
	"sort"
	"strings"
	"time"
	"unsafe"

	"github.com/kpango/glg"
	"github.com/pkg/errors"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/client"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/verifsim/app"
)

// Violation is a broken property, with every property it refutes.
type Violation struct {
	Tags []string `json:"properties"`
	Msg  string   `json:"msg"`
	T    int64    `json:"t"`
	Sig  string   `json:"sig"` // stable class, used by minimisation and known findings
}

type note struct {
	t    int64
	kind string
	msg  string
}

type prin struct {
	name, domain string
	roles        []string
	iat, exp     int64
	auth         []string
	isAT         bool
	cid          string
	nilp         bool
}

type dumpEnt struct{ effect, action, res, dom string }

type opRec struct {
	op         *Op
	idx, rep   int
	before     string // the HTTP request as it was
	node       *node
	s0, s1     uint64 // event sequence numbers at start and end
	t0, t1     int64
	w0, w1     int64
	done       bool
	granted    bool
	err        string
	inv        bool // error is ErrInvalidCredentials
	pr         *prin
	dump       map[string][]dumpEnt
	rtTok      string
	atTok      string
	certs      []*x509.Certificate
	act2, res2 string
	trErr      string
	cancelled  bool
	subs       []*sub
}

type initRec struct {
	t0, t1    int64
	s0, s1    uint64
	err       error
	cancelled bool
	done      bool
}

type node struct {
	inc       int
	a         authorizerd.Authorizerd
	mr        authorizerd.Translator
	ctx       context.Context
	cancel    context.CancelFunc
	cancelAt  int64
	cancelSeq uint64
	inits     []*initRec
	initOK    bool
	initOKt   int64
	initOKs   uint64
	startAt   int64
	errs      []note
	ctxErr    bool // the channel delivered the context's error
	closedAt  int64
	over      chan struct{} // closed when the channel is closed (or Start was never reached)
	tNew      int64
}

type run struct {
	p          *Plan
	w          *world
	seq        uint64
	nodes      []*node
	cur        *node
	ops        []*opRec
	viol       []Violation
	notes      []note
	trace      bool
	logs       []byte
	evDone     []bool
	holds      []held
	gens       []generation
	hg         int // harness goroutines alive
	live       []liveSample
	left       int
	leftStacks []string
	endAt      int64
	res        runtime.SimResult
	opFired    map[int]bool
	stats      map[string]int
	rtrun      *rtRun
	stallCap   int64
	ending     bool
	twin       *twin
}

type liveSample struct {
	t      int64
	n      int
	stacks []string
}

func (h *run) next() uint64 { h.seq++; return h.seq }

func (h *run) note(kind, f string, a ...interface{}) {
	if h.trace {
		h.notes = append(h.notes, note{now(), kind, fmt.Sprintf(f, a...)})
	}
}

func (h *run) violate(tags []string, f string, a ...interface{}) {
	if len(h.viol) < 200 {
		h.viol = append(h.viol, Violation{Tags: tags, Msg: fmt.Sprintf(f, a...), T: now(), Sig: sigOf(f)})
	}
}

func sigOf(f string) string {
	if i := strings.IndexByte(f, ':'); i > 0 {
		f = f[:i]
	}
	return strings.Join(strings.Fields(f), " ")
}

// jwkSources lists the JWK set URLs: the server's own first.
func (h *run) jwkSources() []string {
	c := &h.p.Cfg
	return append([]string{"https://" + athenzHost + "/oauth2/keys?rfc=true"}, c.JwkURLs...)
}

// goh starts a goroutine of the harness.
func (h *run) goh(f func()) {
	h.hg++
	go func() {
		defer func() { h.hg-- }()
		f()
	}()
}

// fireEvents applies the events waiting for the nth request to target.
func (h *run) fireEvents(target string, n int) {
	for i := range h.p.Events {
		e := &h.p.Events[i]
		if e.On == target && e.Nth == n && !h.evDone[i] && now() < h.p.Quiet {
			h.evDone[i] = true
			h.w.apply(e)
		}
	}
}

// fired is called when an exchange with target has finished.
func (h *run) fired(target string) {
	h.w.ndel[target]++
	n := h.w.ndel[target]
	for i := range h.p.Ops {
		o := &h.p.Ops[i]
		if o.On == target && o.Nth == n && !h.opFired[i] {
			h.opFired[i] = true
			i := i
			h.goh(func() {
				if o.At > 0 { // delay after the trigger
					time.Sleep(time.Duration(o.At))
				}
				h.runOp(i)
			})
		}
	}
}

func ds(d time.Duration) string { return d.String() }

func (h *run) rules() map[string][]authorizerd.Rule {
	// The plan's own maps come from outside the simulation and so does the order
	// in which they are walked: walk them sorted.
	m := map[string][]authorizerd.Rule{}
	for _, d := range sortedKeys(h.p.Cfg.Rules) {
		l := []authorizerd.Rule{}
		for _, r := range h.p.Cfg.Rules[d] {
			l = append(l, authorizerd.Rule{Method: r.Method, Path: r.Path, Action: r.Action, Resource: r.Resource})
		}
		m[d] = l
	}
	return m
}

func (h *run) newNode() *node {
	c := &h.p.Cfg
	n := &node{inc: len(h.nodes), cancelAt: -1, startAt: -1, closedAt: -1, over: make(chan struct{}), tNew: now()}
	n.ctx, n.cancel = context.WithCancel(context.Background())
	runtime.SimRelease(unsafe.Pointer(n))
	h.nodes = append(h.nodes, n)
	cids := map[string][]string{}
	for _, cn := range sortedKeys(c.CIDs) {
		cids[cn] = append([]string(nil), c.CIDs[cn]...)
	}
	var rt http.RoundTripper = &transport{h.w, n.inc}
	if c.ExpRT {
		x, err := client.NewExponentialRoundTripper(rt, 3, 2, 500*time.Millisecond)
		if err != nil {
			panic(err)
		}
		rt = x
	}
	opts := []authorizerd.Option{
		authorizerd.WithAthenzURL(athenzHost),
		authorizerd.WithAthenzDomains(c.Domains...),
		authorizerd.WithHTTPClient(&http.Client{Transport: rt, Timeout: c.Timeout}),
		authorizerd.WithCacheExp(c.CacheExp),
		authorizerd.WithPubkeyRefreshPeriod(ds(c.PubPeriod)),
		authorizerd.WithPubkeyRetryDelay(ds(c.PubRetry)),
		authorizerd.WithPubkeySysAuthDomain(c.SysAuth),
		authorizerd.WithPubkeyETagExpiry(ds(c.PubETag)),
		authorizerd.WithPubkeyETagPurgePeriod(ds(c.PubPurge)),
		authorizerd.WithPolicyRefreshPeriod(ds(c.PolPeriod)),
		authorizerd.WithPolicyExpiryMargin(ds(c.PolMargin)),
		authorizerd.WithPolicyPurgePeriod(ds(c.PolPurge)),
		authorizerd.WithPolicyRetryDelay(ds(c.PolRetry)),
		authorizerd.WithPolicyRetryAttempts(c.PolTries),
		authorizerd.WithJwkRefreshPeriod(ds(c.JwkPeriod)),
		authorizerd.WithJwkRetryDelay(ds(c.JwkRetry)),
		authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(c.AT, c.MTLS, ds(c.Backdate), ds(c.Offset), c.VerifyCID, cids)),
	}
	urls := append([]string(nil), c.JwkURLs...)
	if c.JwkOwnIn {
		urls = append(urls, h.jwkSources()[0])
	}
	opts = append(opts, authorizerd.WithJwkURLs(urls))
	pick := func(b bool, t, f authorizerd.Option) {
		if b {
			opts = append(opts, t)
		} else {
			opts = append(opts, f)
		}
	}
	pick(c.NoPolicy, authorizerd.WithDisablePolicyd(), authorizerd.WithEnablePolicyd())
	pick(c.NoPubkey, authorizerd.WithDisablePubkeyd(), authorizerd.WithEnablePubkeyd())
	pick(c.NoJwk, authorizerd.WithDisableJwkd(), authorizerd.WithEnableJwkd())
	pick(c.RT, authorizerd.WithEnableRoleToken(), authorizerd.WithDisableRoleToken())
	pick(c.RC, authorizerd.WithEnableRoleCert(), authorizerd.WithDisableRoleCert())
	if c.RTHeader != "" {
		opts = append(opts, authorizerd.WithRoleAuthHeader(c.RTHeader))
	}
	if c.RCPrefix != "" {
		opts = append(opts, authorizerd.WithRoleCertURIPrefix(c.RCPrefix))
	}
	if c.Prefix != "" {
		opts = append(opts, authorizerd.WithResourcePrefix(c.Prefix))
	}
	if c.Rules != nil {
		mr, err := authorizerd.NewMappingRules(h.rules())
		if err != nil {
			panic("generator made invalid rules: " + err.Error())
		}
		n.mr = mr
		opts = append(opts, authorizerd.WithTranslator(mr))
	}
	a, err := authorizerd.New(opts...)
	if err != nil {
		panic("generator made an invalid configuration: " + err.Error())
	}
	n.a = a
	runtime.SimRelease(unsafe.Pointer(n))
	h.cur = n
	return n
}

// life is one incarnation: New, Init, Start, read errors until the channel is closed.
func (h *run) life() {
	c := &h.p.Cfg
	n := h.newNode()
	h.note("node", "new incarnation %d", n.inc)
	if !c.StartFirst {
		for try := 0; try < c.InitTries; try++ {
			if n.ctx.Err() != nil {
				break
			}
			ir := &initRec{t0: now(), s0: h.next()}
			n.inits = append(n.inits, ir)
			ictx, icancel := context.WithCancel(n.ctx)
			if try == 0 && c.InitCancel > 0 {
				t := time.AfterFunc(time.Duration(c.InitCancel), func() { ir.cancelled = !ir.done; icancel() })
				defer t.Stop()
			}
			h.note("init", "start")
			ir.err = n.a.Init(ictx)
			ir.done = true
			ir.t1, ir.s1 = now(), h.next()
			if n.ctx.Err() != nil {
				ir.cancelled = true
			}
			h.note("init", "end err=%v", ir.err)
			if c.InitCancel == 0 || try > 0 {
				// the documented use: the same context goes to Init and Start
			}
			icancelLater(n.ctx, icancel)
			if ir.err == nil {
				n.initOK, n.initOKt, n.initOKs = true, now(), ir.s1
				break
			}
			if sleepCtx(n.ctx, time.Second) != nil {
				break
			}
		}
	}
	if n.ctx.Err() != nil {
		n.closedAt = now()
		n.ctxErr = true
		close(n.over)
		return
	}
	n.startAt = now()
	h.note("start", "")
	ech := n.a.Start(n.ctx)
	for {
		err, ok := <-ech
		if !ok {
			n.closedAt = now()
			h.note("closed", "")
			close(n.over)
			return
		}
		if err == nil {
			h.violate([]string{"C13", "C14"}, "nil error on the error channel: incarnation %d", n.inc)
			continue
		}
		if errors.Cause(err) == context.Canceled || err == context.Canceled {
			if n.cancelAt < 0 {
				h.violate([]string{"C13", "C15"}, "context error reported although the context is alive: %v", err)
			}
			n.ctxErr = true
		}
		n.errs = append(n.errs, note{now(), "err", err.Error()})
		h.note("errch", "%v", err)
		if c.SlowDrain > 0 && n.cancelAt < 0 {
			time.Sleep(c.SlowDrain)
		}
	}
}

// icancelLater releases an Init context together with its node.
func icancelLater(parent context.Context, c context.CancelFunc) {
	context.AfterFunc(parent, c)
}

func (h *run) stop(n *node) {
	if n.cancelAt >= 0 {
		return
	}
	n.cancelAt = now()
	n.cancelSeq = h.next()
	h.note("cancel", "incarnation %d", n.inc)
	runtime.SimAcquire(unsafe.Pointer(n))
	n.cancel()
}

func toPrin(p authorizerd.Principal) *prin {
	if p == nil {
		return &prin{nilp: true}
	}
	x := app.Read(p)
	return &prin{name: x.Name, domain: x.Domain, roles: x.Roles, iat: x.Iat, exp: x.Exp, auth: x.Auth, isAT: x.Access, cid: x.ClientID}
}

func (h *run) opCerts(o *Op) []*x509.Certificate {
	var cs []*x509.Certificate
	for _, i := range o.Certs {
		if i < len(h.p.Certs) {
			cs = append(cs, makeCert(&h.p.Certs[i]))
		}
	}
	return cs
}

func (h *run) runOp(i int) {
	o := &h.p.Ops[i]
	rep := o.Rep
	if rep < 1 {
		rep = 1
	}
	for k := 0; k < rep; k++ {
		if k > 0 && o.Gap > 0 {
			time.Sleep(time.Duration(o.Gap))
		}
		h.oneOp(o, i, k)
	}
}

func (h *run) oneOp(o *Op, idx, rep int) {
	n := h.cur
	if n == nil || n.a == nil {
		return
	}
	runtime.SimAcquire(unsafe.Pointer(n)) // the application hands the authorizer to its request handlers
	c := &h.p.Cfg
	rec := &opRec{op: o, idx: idx, rep: rep, node: n}
	if o.RT >= 0 && o.RT < len(h.p.RTs) {
		rec.rtTok = h.p.RTs[o.RT].text()
	}
	if o.AT >= 0 && o.AT < len(h.p.ATs) {
		rec.atTok = h.p.ATs[o.AT].text(h)
	}
	hasRT, hasAT := o.RT >= 0, o.AT >= 0
	if o.Cross {
		rec.rtTok, rec.atTok = rec.atTok, rec.rtTok
		hasRT, hasAT = hasAT, hasRT
	}
	rec.certs = h.opCerts(o)
	ctx := context.Background()
	switch o.Ctx {
	case "cancelled":
		x, cancel := context.WithCancel(ctx)
		cancel()
		ctx = x
		rec.cancelled = true
	case "cancel":
		x, cancel := context.WithCancel(ctx)
		ctx = x
		rec.cancelled = true
		h.goh(func() { cancel() })
	}
	var req *http.Request
	sent := &spyBody{}
	if o.Kind == "http" {
		req = &http.Request{Method: "GET", Header: http.Header{}, URL: &url.URL{Scheme: "https", Host: "app", Path: "/", RawQuery: o.Query}}
		if hasRT {
			hd := c.RTHeader
			if hd == "" {
				hd = "Athenz-Role-Auth"
			}
			switch o.Hdr {
			case "other":
				hd = map[bool]string{true: "X-Role", false: "Athenz-Role-Auth"}[c.RTHeader == ""]
			case "form":
				hd = "X-" + hd
			}
			req.Header.Set(hd, rec.rtTok)
		}
		if hasAT {
			switch o.Hdr {
			case "other":
				req.Header.Set("Proxy-Authorization", "Bearer "+rec.atTok)
			case "form":
				if idx%2 == 0 {
					sent.s = "access_token=" + url.QueryEscape(rec.atTok)
					break
				}
				req.URL.RawQuery = strings.TrimPrefix(o.Query+"&access_token="+url.QueryEscape(rec.atTok), "&")
			case "basic":
				req.Header.Set("Authorization", "Basic "+rec.atTok)
			case "lower":
				req.Header.Set("Authorization", "bearer "+rec.atTok)
			default:
				req.Header.Set("Authorization", "Bearer "+rec.atTok)
			}
		}
		if rec.certs != nil {
			req.TLS = &tls.ConnectionState{PeerCertificates: rec.certs}
		} else if idx%2 == 0 {
			req.TLS = &tls.ConnectionState{} // a client that presented none
		}
		if sent.s != "" || idx%3 == 0 {
			sent.s += "&x=1"
			req.Method, req.Body, req.ContentLength = "POST", sent, int64(len(sent.s))
			req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
		}
		req = req.WithContext(ctx)
		rec.before = fmt.Sprint(req.Method, req.URL, req.Header, req.Host)
	}
	h.ops = append(h.ops, rec)
	rec.s0, rec.t0, rec.w0 = h.next(), now(), clientWall()
	var err error
	var p authorizerd.Principal
	gotP := false
	var cert *x509.Certificate
	if len(rec.certs) > 0 {
		cert = rec.certs[0]
	}
	switch o.Kind {
	case "rt":
		if o.Verify {
			err = n.a.VerifyRoleToken(ctx, rec.rtTok, o.Act, o.Res)
		} else {
			p, err = n.a.AuthorizeRoleToken(ctx, rec.rtTok, o.Act, o.Res)
			gotP = true
		}
	case "at":
		if o.Verify {
			err = n.a.VerifyAccessToken(ctx, rec.atTok, o.Act, o.Res, cert)
		} else {
			p, err = n.a.AuthorizeAccessToken(ctx, rec.atTok, o.Act, o.Res, cert)
			gotP = true
		}
	case "rc":
		err = n.a.VerifyRoleCert(ctx, rec.certs, o.Act, o.Res)
	case "http":
		if o.Verify {
			err = n.a.Verify(req, o.Act, o.Res)
		} else {
			p, err = n.a.Authorize(req, o.Act, o.Res)
			gotP = true
		}
		rec.inv = err == nil || errors.Cause(err) == authorizerd.ErrInvalidCredentials
	case "dump":
		rec.dump = map[string][]dumpEnt{}
		for k, as := range app.Assertions(n.a.GetPolicyCache(ctx)) {
			for _, x := range as {
				rec.dump[k] = append(rec.dump[k], dumpEnt{x.Effect, x.Action, x.Resource, x.Domain})
			}
		}
	case "tr":
		if n.mr != nil {
			rec.act2, rec.res2, err = n.mr.Translate(o.Dom, o.Act, o.Res, o.Query)
		}
	}
	rec.s1, rec.t1, rec.w1 = h.next(), now(), clientWall()
	rec.done = true
	if req != nil {
		if s := fmt.Sprint(req.Method, req.URL, req.Header, req.Host); s != rec.before || sent.used {
			h.violate([]string{"C20"}, "request changed by its authorization: #%d.%d was %s, is %s, body read: %v", idx, rep, rec.before, s, sent.used)
		}
	}
	if err != nil {
		rec.err = err.Error()
	} else {
		rec.granted = true
		if gotP {
			rec.pr = toPrin(p)
			h.hold(rec, p)
		}
	}
	h.stats["op."+o.Kind]++
	if rec.granted {
		h.stats["grant."+o.Kind]++
	} else {
		h.stats["deny."+o.Kind]++
	}
	h.twinEcho(rec)
	h.note("op", "#%d.%d inc=%d %s act=%q res=%q rt=%d at=%d -> granted=%v %s", idx, rep, n.inc, o.Kind, o.Act, o.Res, o.RT, o.AT, rec.granted, rec.err)
}

// spyBody is the body of a request that is for the application to read.
type spyBody struct {
	s    string
	used bool
}

func (b *spyBody) Read(p []byte) (int, error) {
	b.used = true
	if b.s == "" {
		return 0, io.EOF
	}
	n := copy(p, b.s)
	b.s = b.s[n:]
	return n, nil
}

func (b *spyBody) Close() error { b.used = true; return nil }

type logSink struct{ h *run }

func (l *logSink) Write(b []byte) (int, error) {
	if len(l.h.logs) < 8<<20 {
		l.h.logs = append(l.h.logs, b...)
	}
	return len(b), nil
}

// shutBound is how long background work may take to notice a cancellation:
// a policy refresh may be inside its retry loop, a daemon inside its delay.
func (h *run) shutBound() int64 {
	c := &h.p.Cfg
	m := c.PolRetry
	if c.PubRetry > m {
		m = c.PubRetry
	}
	if c.JwkRetry > m {
		m = c.JwkRetry
	}
	if h.p.Twin != nil && m < h.p.Twin.Retry {
		m = h.p.Twin.Retry
	}
	// once cancelled, a daemon with a queued retry may pick that retry before
	// it sees the cancellation; each pick costs one delay and halves the odds
	u := time.Duration(c.tries()+1)*c.PolRetry + 24*m + 2*time.Second + c.SlowDrain
	return int64(u)
}

// main is the root goroutine of the simulation.
func (h *run) main() {
	p := h.p
	runtime.SimSetWall(int64(p.Cfg.Skew))
	h.goh(h.life)

	type action struct {
		at int64
		f  func()
	}
	var acts []action
	for i := range p.Events {
		e := &p.Events[i]
		i := i
		if e.On != "" {
			continue
		}
		acts = append(acts, action{e.At, func() {
			if h.evDone[i] {
				return
			}
			h.evDone[i] = true
			if e.Kind == "restart" {
				h.restart()
				return
			}
			h.w.apply(e)
		}})
	}
	for i := range p.Ops {
		o := &p.Ops[i]
		i := i
		if o.On != "" {
			continue
		}
		acts = append(acts, action{o.At, func() { h.goh(func() { h.runOp(i) }) }})
	}
	if tp := p.Twin; tp != nil {
		acts = append(acts, action{tp.At, func() { h.goh(h.startTwin) }})
		if tp.Stop > 0 {
			acts = append(acts, action{tp.Stop, h.stopTwin})
		}
		if tp.Change > 0 {
			acts = append(acts, action{tp.Change, h.changeTwin})
		}
		for i := range tp.Ops {
			o := &tp.Ops[i]
			acts = append(acts, action{o.At, func() { h.goh(func() { h.twinOp(o) }) }})
		}
	}
	span := (p.End - p.Quiet)
	for k := int64(1); k <= 3; k++ {
		at := p.Quiet + span*k/3 - 1
		acts = append(acts, action{at, func() {
			runtime.SimWait()
			ls := liveSample{t: now(), n: runtime.SimLive() - h.hg}
			if ls.n > h.liveBound() {
				ls.stacks = bubbleStacks()
			}
			h.live = append(h.live, ls)
		}})
	}
	if p.Profile == "C19" {
		for k := int64(1); k <= 12; k++ {
			acts = append(acts, action{p.End * k / 13, func() { h.goh(h.snapshot) }})
		}
	}
	sort.SliceStable(acts, func(i, j int) bool { return acts[i].at < acts[j].at })
	for _, a := range acts {
		if d := a.at - now(); d > 0 {
			time.Sleep(time.Duration(d))
		}
		a.f()
	}
	if d := p.End - now(); d > 0 {
		time.Sleep(time.Duration(d))
	}
	h.released()
	h.endAt = now()
	h.ending = true
	for _, n := range h.nodes {
		h.stop(n)
	}
	h.stopTwin()
	for lim := now() + h.shutBound() + h.sim0Stall(); now() < lim; {
		time.Sleep(2 * time.Second)
		runtime.SimWait()
		if runtime.SimLive()-h.hg <= 0 && h.hg == 0 {
			break
		}
	}
	runtime.SimWait()
	h.left = runtime.SimLive() - h.hg
	if h.left > 0 || h.hg > 0 {
		h.leftStacks = bubbleStacks()
	}
}

// sim0Stall is the longest the scheduler may delay the shutdown by stalls.
func (h *run) sim0Stall() int64 { return h.stallCap }

func (h *run) restart() {
	h.stats["event.restart"]++
	n := h.cur
	if n == nil {
		return
	}
	h.stop(n)
	h.goh(func() {
		t := time.NewTimer(time.Duration(h.shutBound()))
		defer t.Stop()
		select {
		case <-n.over:
		case <-t.C:
		}
		if h.ending {
			return
		}
		h.life()
	})
}

// bubbleStacks returns the stacks of the goroutines of the newest bubble.
func bubbleStacks() []string {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	best := ""
	var out []string
	parts := strings.Split(string(buf), "\n\n")
	num := func(s string) string {
		l := s
		if i := strings.IndexByte(l, '\n'); i >= 0 {
			l = l[:i]
		}
		i := strings.Index(l, "synctest bubble ")
		if i < 0 {
			return ""
		}
		l = l[i+len("synctest bubble "):]
		j := 0
		for j < len(l) && l[j] >= '0' && l[j] <= '9' {
			j++
		}
		return l[:j]
	}
	less := func(a, b string) bool { return len(a) < len(b) || len(a) == len(b) && a < b }
	for _, s := range parts {
		if n := num(s); n != "" && less(best, n) {
			best = n
		}
	}
	for _, s := range parts {
		if n := num(s); n != "" && n == best {
			out = append(out, s)
		}
	}
	return out
}

// execute performs one simulated run and evaluates every oracle over it.
func execute(p *Plan, sc runtime.SimConf, trace bool) *run {
	h := &run{p: p, trace: trace, opFired: map[int]bool{}, stats: map[string]int{}, evDone: make([]bool, len(p.Events))}
	if p.RT != nil {
		executeRT(h, sc)
		h.judgeRaces()
		return h
	}
	h.w = newWorld(h)
	warm(h)
	if p.Cfg.Log {
		g := glg.Get()
		g.SetMode(glg.WRITER)
		g.SetLevel(glg.DEBG)
		g.DisableColor()
		for _, l := range []glg.LEVEL{glg.DEBG, glg.TRACE, glg.PRINT, glg.LOG, glg.INFO, glg.OK, glg.WARN, glg.ERR, glg.FAIL} {
			g.SetLevelWriter(l, &logSink{h})
		}
	} else {
		glg.Get().SetMode(glg.NONE)
	}
	h.stallCap = sc.StallMax * int64(sc.StallMaxN)
	h.res = runtime.SimRun(&sc, h.main)
	glg.Get().SetMode(glg.NONE)
	judge(h)
	h.judgeRaces()
	return h
}

// warm builds credentials outside the simulation so that a run's cost does
// not depend on what the process did before.
func warm(h *run) {
	for i := range h.p.RTs {
		h.p.RTs[i].text()
	}
	for i := range h.p.ATs {
		h.p.ATs[i].text(h)
	}
}

// liveBound is how many goroutines a running client may keep.
func (h *run) liveBound() int {
	n := 12 + 2*len(h.p.Cfg.Domains) + 2*(len(h.nodes)-1)
	if h.p.Twin != nil {
		n += 12 + 2*len(h.p.Cfg.Domains)
	}
	return n
}
