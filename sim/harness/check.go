package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/bits"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

const (
	workers     = 8
	runWatchdog = 120 * time.Second // wall clock allowed to one simulated run
)

// found is a run that may break the property.
type found struct {
	i      int
	first  int // first index run by the same process
	sig    string
	msg    string
	crash  bool
	tags   []string
	hash   uint64
	nprops int
}

type agg struct {
	sync.Mutex
	runs, nontrivial     int
	hashes               map[uint64]bool
	simTime              int64
	stats, faults        map[string]int
	decisions, switches  uint64
	preempts, stalls     uint64
	stallTime            int64
	spawned              uint64
	pairs, sites         []byte
	other                map[string]int // violations of other properties seen on the way
	otherMsg             map[string]string
	cands                []found
	harnessErr           []string
	samples              []map[string]interface{}
	recheck              map[int]uint64
	modes                map[string]int
	crashes              int
	maxSim               int64
	logLost              int
	known                map[string]int
	stop                 bool
	procs                map[int]*os.Process
	wallSearch           float64
	recheckOK, recheckNo int
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func checkMain(a []string) {
	t0 := time.Now()
	prop := a[0]
	verif := envOr("VERIF_DIR", "/verif")
	tier := envOr("VERIF_TIER", "quick")
	if tier != "thorough" {
		tier = "quick"
	}
	base, err := strconv.ParseUint(envOr("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		base = mixs(1, os.Getenv("VERIF_SEED")) >> 1
	}
	budget := 40 * time.Second
	if runtime.SimRaceBuild {
		budget = 100 * time.Second // its runs are ten times slower
	}
	if tier == "thorough" {
		budget = 600 * time.Second
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil && v > 0 {
		budget = time.Duration(v) * time.Second
	}
	fmt.Printf("deterministic simulation of %s: base seed %d, tier %s, %d processes, %s\n", prop, base, tier, workers, budget)
	known := loadKnown(filepath.Join(verif, "known_findings.txt"), prop)
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.desc)
	}
	ag := &agg{hashes: map[uint64]bool{}, stats: map[string]int{}, faults: map[string]int{}, other: map[string]int{}, otherMsg: map[string]string{},
		pairs: make([]byte, 1<<15), sites: make([]byte, 1<<13), recheck: map[int]uint64{}, modes: map[string]int{}, known: map[string]int{}, procs: map[int]*os.Process{}}
	tmp, err := os.MkdirTemp("", "verifsim")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(tmp)
	quit := func(code int) {
		os.RemoveAll(tmp)
		os.Exit(code)
	}
	os.Setenv("VERIF_RACEDIR", tmp)
	until := time.Now().Add(budget)
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			ag.worker(prop, base, k, until, known)
		}(k)
	}
	wg.Wait()
	ag.wallSearch = time.Since(t0).Seconds()
	ag.determinism(prop, base, tmp)

	code := 0
	viol := 0
	if len(ag.cands) > 0 {
		sort.SliceStable(ag.cands, func(i, j int) bool {
			x, y := ag.cands[i], ag.cands[j]
			if x.crash != y.crash {
				return !x.crash
			}
			return x.i < y.i
		})
		done := map[string]bool{}
		tries := 0
		for _, f := range ag.cands {
			if done[f.sig] || tries >= 6 {
				continue
			}
			tries++
			m := &minimiser{prop: prop, base: base, f: f, tmp: tmp, until: time.Now().Add(25 * time.Second)}
			path, err := m.run(verif)
			if err != nil {
				fmt.Printf("note: seed index %d (%s): %v\n", f.i, f.sig, err)
				ag.harnessErr = append(ag.harnessErr, fmt.Sprintf("seed index %d (%s): %v", f.i, f.sig, err))
				continue
			}
			done[f.sig] = true
			viol++
			fmt.Printf("seed index %d of base %d: %s\n", f.i, base, firstLines(m.msg, 30))
			fmt.Printf("minimised: %s\n", m.summary)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			code = 1
			break
		}
		if viol == 0 {
			code = 2
		}
	}
	if code == 0 && len(ag.harnessErr) > 0 {
		code = 2
	}
	for _, e := range ag.harnessErr {
		fmt.Fprintln(os.Stderr, "harness:", e)
	}
	for s, n := range ag.other {
		fmt.Printf("note: %d run(s) refute another property: %s: %s\n", n, s, firstLines(ag.otherMsg[s], 3))
	}
	if err := ag.evidence(verif, prop, tier, base, budget, viol, time.Since(t0)); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		quit(2)
	}
	fmt.Printf("%d runs, %d distinct and non-trivial, %.0f simulated hours, %d faults injected, exit %d\n", ag.runs, ag.nontrivial, float64(ag.simTime)/3.6e12, sum(ag.faults), code)
	quit(code)
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = append(l[:n], "...")
	}
	s = strings.Join(l, "\n")
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return s
}

type knownFinding struct {
	sig  string
	re   *regexp.Regexp
	desc string
}

// loadKnown reads lines "finding: property=<id> sig=<class> match=<regexp> | <description>".
func loadKnown(path, prop string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	re := regexp.MustCompile(`^finding: property=(\S+) sig=(.+?) match=(.*?) \| (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		m := re.FindStringSubmatch(l)
		if m == nil || m[1] != prop {
			continue
		}
		x, err := regexp.Compile(m[3])
		if err != nil {
			fmt.Fprintln(os.Stderr, "known findings:", err)
			os.Exit(2)
		}
		out = append(out, knownFinding{m[2], x, m[4]})
	}
	return out
}

func isKnown(ks []knownFinding, sig, msg string) *knownFinding {
	for i := range ks {
		if ks[i].sig == sig && ks[i].re.MatchString(msg) {
			return &ks[i]
		}
	}
	return nil
}

func hasTag(tags []string, p string) bool {
	for _, t := range tags {
		if t == p {
			return true
		}
	}
	return false
}

// worker supervises one simulating process at a time until the budget ends.
func (ag *agg) worker(prop string, base uint64, k int, until time.Time, known []knownFinding) {
	next := k
	for crashes := 0; crashes < 8; crashes++ {
		ag.Lock()
		stop := ag.stop
		ag.Unlock()
		if stop || !time.Now().Before(until) {
			return
		}
		cmd := exec.Command(self(), "worker", prop, fmt.Sprint(base), fmt.Sprint(next), fmt.Sprint(workers), fmt.Sprint(1<<40), fmt.Sprint(until.UnixMilli()))
		var stderr bytes.Buffer
		cmd.Stderr = &capWriter{b: &stderr, max: 4 << 20}
		out, err := cmd.StdoutPipe()
		if err != nil {
			ag.fail("pipe: %v", err)
			return
		}
		if err := cmd.Start(); err != nil {
			ag.fail("worker: %v", err)
			return
		}
		ag.Lock()
		ag.procs[k] = cmd.Process
		ag.Unlock()
		first := next
		cur := -1
		hung := false
		dog := time.AfterFunc(runWatchdog, func() { hung = true; cmd.Process.Kill() })
		rd := bufio.NewReaderSize(out, 1<<20)
		ended := false
		for {
			line, err := rd.ReadBytes('\n')
			if err != nil {
				break
			}
			dog.Reset(runWatchdog)
			switch line[0] {
			case 'B':
				cur, _ = strconv.Atoi(strings.TrimSpace(string(line[2:])))
			case 'R':
				var o runOut
				if err := json.Unmarshal(line[2:], &o); err != nil {
					ag.fail("worker output: %v", err)
					break
				}
				ag.add(prop, base, &o, first, known)
				cur = -1
				next = o.I + workers
			case 'E':
				ended = true
				var e map[string][]byte
				if json.Unmarshal(line[2:], &e) == nil {
					ag.Lock()
					for i, x := range e["pairs"] {
						ag.pairs[i] |= x
					}
					for i, x := range e["sites"] {
						ag.sites[i] |= x
					}
					ag.Unlock()
				}
			}
		}
		werr := cmd.Wait()
		dog.Stop()
		if ended && werr == nil {
			return
		}
		ag.Lock()
		stop = ag.stop
		ag.Unlock()
		if stop {
			return
		}
		if cur < 0 && next == first {
			cur = first // while the process warmed up, which every run begins with
		}
		if cur < 0 {
			ag.fail("worker ended: %v %s", werr, tail(stderr.String(), 500))
			return
		}
		c := classifyCrash(stderr.String(), werr, hung)
		if c.harness {
			ag.fail("seed index %d: %s", cur, c.msg)
			return
		}
		ag.Lock()
		ag.crashes++
		if kf := isKnown(known, c.sig, c.msg); kf != nil {
			ag.known[kf.desc]++
		} else {
			ag.cands = append(ag.cands, found{i: cur, first: first, sig: c.sig, msg: c.msg, crash: true, tags: []string{"C15", prop}})
			ag.halt()
		}
		ag.Unlock()
		next = cur + workers
	}
}

// halt ends the search: enough has been found.
func (ag *agg) halt() {
	if ag.stop {
		return
	}
	ag.stop = true
	for _, p := range ag.procs {
		p.Kill()
	}
}

func (ag *agg) fail(f string, a ...interface{}) {
	ag.Lock()
	defer ag.Unlock()
	if len(ag.harnessErr) < 20 {
		ag.harnessErr = append(ag.harnessErr, fmt.Sprintf(f, a...))
	}
}

func (ag *agg) add(prop string, base uint64, o *runOut, first int, known []knownFinding) {
	ag.Lock()
	defer ag.Unlock()
	ag.runs++
	ag.simTime += o.Res.EndTime
	if o.Res.EndTime > ag.maxSim {
		ag.maxSim = o.Res.EndTime
	}
	for k, v := range o.Stats {
		ag.stats[k] += v
	}
	nf := 0
	for k, v := range o.Fault {
		ag.faults[k] += v
		nf += v
	}
	for k, v := range o.Stats {
		if strings.HasPrefix(k, "event.") {
			nf += v
		}
	}
	ag.decisions += o.Res.Decisions
	ag.switches += o.Res.Switches
	ag.preempts += o.Res.Preempts
	ag.stalls += o.Res.Stalls
	ag.stallTime += o.Res.StallTime
	ag.spawned += o.Res.Spawned
	if o.Lost {
		ag.logLost++
	}
	if o.Ops > 0 && (nf > 0 || o.Res.Preempts > 0 || o.Res.Stalls > 0 || o.Stats["rt.retried"] > 0) && !ag.hashes[o.Hash] {
		ag.nontrivial++
	}
	ag.hashes[o.Hash] = true
	if len(ag.samples) < 4 && o.Ops > 0 && nf > 0 && (len(ag.samples) == 0 || o.I > 100*len(ag.samples)) {
		ag.samples = append(ag.samples, map[string]interface{}{"seed_index": o.I, "plan_seed": fmt.Sprint(planSeed(prop, base, o.I)), "schedule_hash": fmt.Sprintf("%016x", o.Hash),
			"operations": o.Ops, "faults": o.Fault, "outcomes": o.Stats, "simulated_s": float64(o.Res.EndTime) / 1e9, "decisions": o.Res.Decisions, "preemptions": o.Res.Preempts, "stalls": o.Res.Stalls, "goroutines": o.Res.Spawned})
	}
	if len(ag.recheck) < 16 && o.I%7 == 3 {
		ag.recheck[o.I] = o.Hash
	}
	for _, v := range o.Viol {
		if !hasTag(v.Tags, prop) {
			k := fmt.Sprintf("%v %s", v.Tags, v.Sig)
			if ag.other[k] == 0 {
				ag.otherMsg[k] = fmt.Sprintf("(seed index %d) %s", o.I, v.Msg)
			}
			ag.other[k]++
			continue
		}
		if kf := isKnown(known, v.Sig, v.Msg); kf != nil {
			ag.known[kf.desc]++
			continue
		}
		ag.cands = append(ag.cands, found{i: o.I, first: first, sig: v.Sig, msg: v.Msg, tags: v.Tags, hash: o.Hash})
		ag.halt()
	}
}

// determinism runs some seeds again, each in a process of its own and from the
// written-out plan, and compares the interleavings.
func (ag *agg) determinism(prop string, base uint64, tmp string) {
	type r struct {
		i int
		h uint64
	}
	var l []r
	for i, h := range ag.recheck {
		l = append(l, r{i, h})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].i < l[j].i })
	if len(l) > 8 {
		l = l[:8]
	}
	ok := parallel(len(l), func(n int) bool {
		seed := planSeed(prop, base, l[n].i)
		p := genPlan(prop, seed)
		x := probe(tmp, Case{Plan: p, Sched: genSched(seed, p)}, "-")
		return x.out != nil && x.out.Hash == l[n].h
	})
	for _, b := range ok {
		if b {
			ag.recheckOK++
		} else {
			ag.recheckNo++
		}
	}
}

func parallel(n int, f func(i int) bool) []bool {
	out := make([]bool, n)
	sem := make(chan struct{}, workers)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer wg.Done()
			out[i] = f(i)
			<-sem
		}(i)
	}
	wg.Wait()
	return out
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		return os.Args[0]
	}
	return p
}

type capWriter struct {
	b   *bytes.Buffer
	max int
}

func (c *capWriter) Write(p []byte) (int, error) {
	if c.b.Len() < c.max {
		c.b.Write(p)
	}
	return len(p), nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type crashClass struct {
	sig, msg string
	harness  bool
}

// classifyCrash names what ended a simulating process: a panic belongs to the
// first frame that is the harness's or the library's.
func classifyCrash(stderr string, err error, hung bool) crashClass {
	if hung {
		return crashClass{sig: "hang", msg: "hang: a simulated run did not finish in " + runWatchdog.String() + " of real time"}
	}
	if i := strings.Index(stderr, "SIMLIMIT"); i >= 0 {
		return crashClass{sig: "livelock", msg: "livelock: " + strings.SplitN(stderr[i:], "\n", 2)[0] + ": the code keeps running without the clock advancing or the run ending"}
	}
	if strings.Contains(stderr, "SIMERR") {
		return crashClass{sig: "goroutine explosion", msg: "goroutine explosion: more runnable goroutines than the simulator holds"}
	}
	start := -1
	for _, k := range []string{"panic: ", "fatal error: "} {
		if i := strings.Index(stderr, k); i >= 0 && (i == 0 || stderr[i-1] == '\n') && (start < 0 || i < start) {
			start = i
		}
	}
	if start < 0 {
		return crashClass{harness: true, msg: fmt.Sprintf("process ended (%v): %s", err, tail(stderr, 1000))}
	}
	txt := stderr[start:]
	head := strings.SplitN(txt, "\n", 2)[0]
	where, harness := "", false
	if g := strings.Index(txt, "\ngoroutine "); g >= 0 {
		lines := strings.Split(txt[g+1:], "\n")
		for _, l := range lines[1:] {
			if l == "" {
				break
			}
			if strings.HasPrefix(l, "\t") {
				continue
			}
			l = strings.TrimPrefix(l, "created by ")
			if strings.HasPrefix(l, "main.") {
				harness = where == ""
				break
			}
			if strings.Contains(l, "athenz-authorizer/") {
				where = l
				if i := strings.LastIndexByte(where, '/'); i >= 0 {
					where = where[i+1:]
				}
				if i := strings.LastIndexByte(where, '('); i > 0 {
					where = where[:i]
				}
				if i := strings.Index(where, " in goroutine"); i > 0 {
					where = where[:i]
				}
				break
			}
		}
	}
	if strings.HasPrefix(head, "fatal error: ") && (strings.Contains(head, "out of memory") || strings.Contains(head, "cannot allocate")) {
		harness = false
	}
	if harness {
		return crashClass{harness: true, msg: "panic in the harness: " + tail(firstLines(txt, 40), 3000)}
	}
	return crashClass{sig: "crash " + where, msg: "crash: " + head + " in " + where + "\n" + firstLines(txt, 40)}
}

// probed is the outcome of one child process.
type probed struct {
	out   *runOut
	crash *crashClass
	hung  bool
}

func (p *probed) sigs() map[string]string {
	m := map[string]string{}
	if p.crash != nil {
		m[p.crash.sig] = p.crash.msg
	}
	if p.out != nil {
		for _, v := range p.out.Viol {
			if _, ok := m[v.Sig]; !ok {
				m[v.Sig] = v.Msg
			}
		}
	}
	return m
}

var probeSeq struct {
	sync.Mutex
	n int
}

// probe runs a case in a fresh process.
func probe(tmp string, c Case, log string, extra ...string) probed {
	probeSeq.Lock()
	probeSeq.n++
	f := filepath.Join(tmp, fmt.Sprintf("case%d.json", probeSeq.n))
	probeSeq.Unlock()
	if err := os.WriteFile(f, mustJSON(&c), 0o600); err != nil {
		return probed{crash: &crashClass{harness: true, msg: err.Error()}}
	}
	defer os.Remove(f)
	cmd := exec.Command(self(), append([]string{"exec", f, log}, extra...)...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &capWriter{&so, 64 << 20}, &capWriter{&se, 4 << 20}
	if err := cmd.Start(); err != nil {
		return probed{crash: &crashClass{harness: true, msg: err.Error()}}
	}
	hung := false
	dog := time.AfterFunc(runWatchdog+time.Duration(len(c.Prefix))*2*time.Second, func() { hung = true; cmd.Process.Kill() })
	err := cmd.Wait()
	dog.Stop()
	if len(extra) > 0 {
		os.Stdout.Write(so.Bytes())
	}
	for _, l := range strings.Split(so.String(), "\n") {
		if strings.HasPrefix(l, "R ") {
			var o runOut
			if json.Unmarshal([]byte(l[2:]), &o) == nil {
				return probed{out: &o}
			}
		}
	}
	x := classifyCrash(se.String(), err, hung)
	return probed{crash: &x, hung: hung}
}

// Replay is the file a violation is reported with.
type Replay struct {
	Property  string `json:"property"`
	Violation string `json:"violation"`
	Message   string `json:"message"`
	Base      uint64 `json:"base_seed"`
	Index     int    `json:"seed_index"`
	Hash      string `json:"schedule_hash"`
	Note      string `json:"note"`
	Case
}

type minimiser struct {
	prop    string
	base    uint64
	f       found
	tmp     string
	until   time.Time
	sig     string
	msg     string
	cur     Case
	tried   int
	summary string
}

func (m *minimiser) left() bool { return time.Now().Before(m.until) }

func (m *minimiser) hit(c Case) bool {
	p := probe(m.tmp, c, "-")
	_, ok := p.sigs()[m.sig]
	return ok
}

// first returns the index of the first case that still fails, -1 if none.
func (m *minimiser) first(cs []Case) int {
	m.tried += len(cs)
	ok := parallel(len(cs), func(i int) bool { return m.hit(cs[i]) })
	for i, b := range ok {
		if b {
			return i
		}
	}
	return -1
}

func clonePlan(p *Plan) *Plan {
	var q Plan
	if err := json.Unmarshal(mustJSON(p), &q); err != nil {
		panic(err)
	}
	return &q
}

func (m *minimiser) run(verif string) (string, error) {
	m.sig = m.f.sig
	seed := planSeed(m.prop, m.base, m.f.i)
	p := genPlan(m.prop, seed)
	c := Case{Plan: p, Sched: genSched(seed, p)}
	confirmed := false
	if m.hit(c) {
		confirmed = true
	} else {
		// the failure needs runs before it in the same process: global state
		n := (m.f.i - m.f.first) / workers
		for _, k := range []int{1, 4, 16, 64, 256} {
			if k > n && k/4 >= n {
				break
			}
			if k > n {
				k = n
			}
			d := c
			for q := m.f.i - k*workers; q < m.f.i; q += workers {
				d.Prefix = append(d.Prefix, Seq{m.prop, m.base, q})
			}
			if m.hit(d) {
				c, confirmed = d, true
				break
			}
		}
	}
	if !confirmed {
		q := probe(m.tmp, c, "-")
		what := "ran to the end"
		if q.crash != nil {
			what = firstLines(q.crash.msg, 5)
		} else if q.out != nil {
			what += fmt.Sprintf(", hash %d (found with %d), %d violations", q.out.Hash, m.f.hash, len(q.out.Viol))
		}
		return "", fmt.Errorf("not reproduced in a fresh process: %s", what)
	}
	n0 := planSize(c.Plan)
	orig := c
	m.cur = c
	if len(c.Prefix) == 0 {
		m.shrinkPlan()
	} else {
		m.shrinkPrefix()
	}
	m.explicit()
	// the final file must fail in the same way, twice with the same interleaving
	var msg, hash, remark string
	good := false
	for _, c := range []Case{m.cur, orig, orig} {
		m.cur = c
		a := probe(m.tmp, m.cur, "-")
		b := probe(m.tmp, m.cur, "-")
		ma, ok := a.sigs()[m.sig]
		_, ok2 := b.sigs()[m.sig]
		if !ok || !ok2 {
			continue
		}
		msg, good = ma, true
		if a.out != nil && b.out != nil {
			hash = fmt.Sprintf("%016x", a.out.Hash)
			if a.out.Hash != b.out.Hash {
				remark = "; the violation repeats but the interleaving differs between replays: the code brings in randomness of its own"
			}
		}
		break
	}
	if !good {
		return "", fmt.Errorf("minimised case does not reproduce")
	}
	m.msg = msg
	m.summary = fmt.Sprintf("%d plan items -> %d, %d explicit scheduling decisions, %d candidates tried%s", n0, planSize(m.cur.Plan), len(m.cur.Sched.OverIdx), m.tried, remark)
	r := Replay{Property: m.prop, Violation: m.sig, Message: msg, Base: m.base, Index: m.f.i, Hash: hash, Note: "run: /verif/replay.sh <this file>; " + m.summary, Case: m.cur}
	js, _ := json.MarshalIndent(&r, "", " ")
	sum := sha256.Sum256(js)
	path := filepath.Join(verif, "replays", m.prop+"-"+hex.EncodeToString(sum[:5])+".json")
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return "", err
	}
	if err := os.WriteFile(path, js, 0o644); err != nil {
		return "", err
	}
	return path, nil
}

func planSize(p *Plan) int {
	n := len(p.Ops) + len(p.Events) + len(p.Faults)
	if p.Twin != nil {
		n += 1 + len(p.Twin.Ops)
	}
	if p.RT != nil {
		for _, c := range p.RT.Calls {
			n += 1 + len(c.Answers)
		}
	}
	return n
}

func (m *minimiser) shrinkPrefix() {
	for len(m.cur.Prefix) > 1 && m.left() {
		var cs []Case
		for i := range m.cur.Prefix {
			c := m.cur
			c.Prefix = []Seq{m.cur.Prefix[i]}
			cs = append(cs, c)
		}
		if k := m.first(cs); k >= 0 {
			m.cur = cs[k]
		}
		return
	}
}

// scheds are the schedules tried with a changed plan: none, the one that
// failed, and a few others of the same kind.
func (m *minimiser) scheds() []Sched {
	fifo := Sched{Seed: m.cur.Sched.Seed}
	ss := []Sched{fifo, m.cur.Sched}
	for i := 0; i < 2; i++ {
		s := m.cur.Sched
		s.Seed = mix(s.Seed + uint64(m.tried) + uint64(i) + 1)
		ss = append(ss, s)
	}
	if m.cur.Sched.Mode == runtime.SimModeFIFO && m.cur.Sched.StallMaxN == 0 {
		ss = ss[1:2]
	}
	return ss
}

// try adopts the first of the changed plans that still fails.
func (m *minimiser) try(ps []*Plan) int {
	var cs []Case
	for _, p := range ps {
		for _, s := range m.scheds() {
			c := m.cur
			c.Plan, c.Sched = p, s
			cs = append(cs, c)
		}
	}
	n := len(cs) / max1(len(ps))
	for i := 0; i < len(cs) && m.left(); i += 4 * workers {
		e := i + 4*workers
		if e > len(cs) {
			e = len(cs)
		}
		if k := m.first(cs[i:e]); k >= 0 {
			m.cur = cs[i+k]
			return (i + k) / n
		}
	}
	return -1
}

func max1(n int) int {
	if n < 1 {
		return 1
	}
	return n
}

// shrinkList removes chunks of a list held by the plan.
func (m *minimiser) shrinkList(size func(p *Plan) int, drop func(p *Plan, from, to int)) {
	for chunk := size(m.cur.Plan); chunk >= 1 && m.left(); {
		n := size(m.cur.Plan)
		if n == 0 {
			return
		}
		if chunk > n {
			chunk = n
		}
		var ps []*Plan
		for at := 0; at < n; at += chunk {
			to := at + chunk
			if to > n {
				to = n
			}
			p := clonePlan(m.cur.Plan)
			drop(p, at, to)
			ps = append(ps, p)
		}
		if m.try(ps) >= 0 {
			continue
		}
		chunk /= 2
	}
}

func (m *minimiser) shrinkPlan() {
	m.shrinkList(func(p *Plan) int { return len(p.Ops) }, func(p *Plan, a, b int) { p.Ops = append(p.Ops[:a:a], p.Ops[b:]...) })
	m.shrinkList(func(p *Plan) int { return len(p.Faults) }, func(p *Plan, a, b int) { p.Faults = append(p.Faults[:a:a], p.Faults[b:]...) })
	m.shrinkList(func(p *Plan) int { return len(p.Events) }, func(p *Plan, a, b int) { p.Events = append(p.Events[:a:a], p.Events[b:]...) })
	if m.cur.Plan.Twin != nil {
		p := clonePlan(m.cur.Plan)
		p.Twin = nil
		if m.left() {
			m.try([]*Plan{p})
		}
	}
	if m.cur.Plan.Twin != nil {
		m.shrinkList(func(p *Plan) int { return len(p.Twin.Ops) }, func(p *Plan, a, b int) { p.Twin.Ops = append(p.Twin.Ops[:a:a], p.Twin.Ops[b:]...) })
	}
	if m.cur.Plan.RT != nil {
		m.shrinkList(func(p *Plan) int { return len(p.RT.Calls) }, func(p *Plan, a, b int) { p.RT.Calls = append(p.RT.Calls[:a:a], p.RT.Calls[b:]...) })
	}
	simpl := []func(p *Plan) bool{
		func(p *Plan) bool { r := p.Cfg.Chunk != 0; p.Cfg.Chunk = 0; return r },
		func(p *Plan) bool { r := p.Cfg.Log; p.Cfg.Log = false; return r },
		func(p *Plan) bool { r := p.Cfg.ExpRT; p.Cfg.ExpRT = false; return r },
		func(p *Plan) bool { r := p.Cfg.SlowDrain != 0; p.Cfg.SlowDrain = 0; return r },
		func(p *Plan) bool { r := p.Cfg.LatMax != p.Cfg.LatMin; p.Cfg.LatMax = p.Cfg.LatMin; return r },
		func(p *Plan) bool { r := p.Cfg.Skew != 0; p.Cfg.Skew = 0; return r },
		func(p *Plan) bool {
			r := false
			for i := range p.Ops {
				r = r || p.Ops[i].Rep > 1
				p.Ops[i].Rep = 1
			}
			return r
		},
	}
	for _, f := range simpl {
		p := clonePlan(m.cur.Plan)
		if m.left() && f(p) {
			m.try([]*Plan{p})
		}
	}
	for i := 0; i < len(m.cur.Plan.Ops) && m.left(); i++ {
		if m.cur.Plan.Ops[i].Rep > 2 {
			p := clonePlan(m.cur.Plan)
			p.Ops[i].Rep = 2
			m.try([]*Plan{p})
		}
	}
}

// explicit turns the schedule into the list of decisions that matter.
func (m *minimiser) explicit() {
	log := filepath.Join(m.tmp, "decisions")
	defer os.Remove(log)
	p := probe(m.tmp, m.cur, log)
	if _, ok := p.sigs()[m.sig]; !ok {
		return
	}
	b, err := os.ReadFile(log)
	if err != nil || len(b) < 16*logCap {
		return
	}
	var idx []uint64
	var val []int64
	for i := 0; i < logCap; i++ {
		v := int64(binary.LittleEndian.Uint64(b[8*(logCap+i):]))
		if v == 0 {
			break
		}
		idx = append(idx, binary.LittleEndian.Uint64(b[8*i:]))
		val = append(val, v)
	}
	if len(idx) >= logCap {
		return // the seed stays the schedule
	}
	c := m.cur
	c.Sched = Sched{Seed: m.cur.Sched.Seed, Mode: runtime.SimModeReplay, OverIdx: idx, OverVal: val}
	if !m.hit(c) {
		return
	}
	m.cur = c
	m.until = time.Now().Add(12 * time.Second)
	with := func(from, to int) Case {
		d := m.cur
		s := m.cur.Sched
		s.OverIdx = append(append([]uint64(nil), s.OverIdx[:from]...), s.OverIdx[to:]...)
		s.OverVal = append(append([]int64(nil), s.OverVal[:from]...), s.OverVal[to:]...)
		d.Sched = s
		return d
	}
	for chunk := len(m.cur.Sched.OverIdx); chunk >= 1 && m.left(); {
		n := len(m.cur.Sched.OverIdx)
		if n == 0 {
			break
		}
		if chunk > n {
			chunk = n
		}
		hit := false
		for at := 0; at < n && m.left() && !hit; at += chunk * 2 * workers {
			var cs []Case
			for k := at; k < n && k < at+chunk*2*workers; k += chunk {
				to := k + chunk
				if to > n {
					to = n
				}
				cs = append(cs, with(k, to))
			}
			if k := m.first(cs); k >= 0 {
				m.cur = cs[k]
				hit = true
			}
		}
		if !hit {
			chunk /= 2
		}
	}
}

// replay FILE: exit 1 with the VIOLATION line when the file's violation happens again.
func replayMain(a []string) {
	b, err := os.ReadFile(a[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	tmp, err := os.MkdirTemp("", "verifsim")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	os.Setenv("VERIF_RACEDIR", tmp)
	p := probe(tmp, r.Case, "-", "trace")
	os.RemoveAll(tmp)
	msg, ok := p.sigs()[r.Violation]
	if p.out != nil {
		fmt.Printf("schedule hash %016x, recorded %s\n", p.out.Hash, r.Hash)
	}
	if !ok {
		fmt.Printf("the violation %q does not happen on this tree\n", r.Violation)
		os.Exit(0)
	}
	fmt.Println(firstLines(msg, 40))
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, a[0])
	os.Exit(1)
}

func popcount(b []byte) int {
	n := 0
	for _, x := range b {
		n += bits.OnesCount8(x)
	}
	return n
}

func (ag *agg) evidence(verif, prop, tier string, base uint64, budget time.Duration, viol int, wall time.Duration) error {
	hours := ag.wallSearch / 3600
	perHour := 0
	if hours > 0 {
		perHour = int(float64(ag.runs) / hours)
	}
	cov := map[string]interface{}{
		"evaluations":         ag.runs,
		"distinct_nontrivial": ag.nontrivial,
		"rule": "one evaluation is one simulated execution of the real library: a seed generates configuration, server behaviour, key and policy history, credentials, requests and faults (profile " + prop +
			"), and decides every scheduling choice. It is non-trivial when at least one operation was judged and at least one fault or world change was injected or one preemption or stall taken; it is distinct when the hash of its sequence of goroutine switches and the sites they happened at is new.",
		"samples":                            ag.samples,
		"runs_per_hour":                      perHour,
		"base_seed":                          base,
		"simulated_hours":                    float64(ag.simTime) / 3.6e12,
		"longest_run_simulated_s":            float64(ag.maxSim) / 1e9,
		"faults_injected":                    ag.faults,
		"fault_kinds_injected":               len(ag.faults),
		"operations_and_judgements":          ag.stats,
		"distinct_schedules":                 len(ag.hashes),
		"scheduling_decisions":               ag.decisions,
		"goroutine_switches":                 ag.switches,
		"preemptions":                        ag.preempts,
		"stalls":                             ag.stalls,
		"stalled_simulated_s":                float64(ag.stallTime) / 1e9,
		"goroutines_started":                 ag.spawned,
		"distinct_preemption_pairs":          popcount(ag.pairs),
		"distinct_sites_reached":             popcount(ag.sites),
		"replays_compared":                   ag.recheckOK + ag.recheckNo,
		"replays_identical":                  ag.recheckOK,
		"runs_with_truncated_decision_log":   ag.logLost,
		"process_crashes":                    ag.crashes,
		"known_findings_seen":                ag.known,
		"violations_of_other_properties":     ag.other,
		"components_real":                    []string{"authorizerd", "access", "client", "jwk", "policy", "pubkey", "role", "gache", "x/sync/errgroup", "net/http Client", "lestrrat-go/jwx", "golang-jwt", "athenz libs"},
		"components_simulated":               []string{"goroutine scheduler", "clocks and timers", "map/select/rand randomness", "kpango/fastime", "HTTP transport and Athenz servers (stub)", "callers"},
		"search_wall_s":                      ag.wallSearch,
		"preemption_pair_measure_size_limit": 8 << 15,
	}
	if cov["samples"] == nil || len(ag.samples) == 0 {
		cov["samples"] = []map[string]interface{}{{"note": "no run had both operations and faults", "runs": ag.runs}}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": base, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"interleavings are explored at statement granularity on one processor: data races within a statement and weak memory effects are not",
			"the Athenz servers, the network and the callers are models; TLS, DNS and sockets are not exercised",
			"a clean batch is evidence, not proof: schedules and faults are sampled",
			"gache runs with 16 shards instead of 512",
		},
		"wall_s": wall.Seconds(), "violations": viol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, prop+".json"), b, 0o644)
}
