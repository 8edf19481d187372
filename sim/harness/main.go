package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"syscall"
	"time"
	"unsafe"
)

func planSeed(prop string, base uint64, i int) uint64 {
	return mixs(mix(base)^uint64(i)<<8, prop)
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simbin check|replay|worker|exec|one ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		checkMain(os.Args[2:])
	case "replay":
		replayMain(os.Args[2:])
	case "worker":
		simProcess()
		workerMain(os.Args[2:])
	case "exec":
		simProcess()
		execMain(os.Args[2:])
	case "one":
		simProcess()
		one(os.Args[2:])
	default:
		os.Exit(2)
	}
}

// simProcess prepares a process for simulated runs: one P, and a garbage
// collector that runs between runs only.
func simProcess() {
	raceInit()
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
	// a run must not outlive its watchdog by eating the machine's memory
	if !runtime.SimRaceBuild { // the race detector reserves terabytes of addresses
		lim := syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	// one-time initialisations (sync.Once, type caches) happen here, so that a
	// run does not depend on whether it is the first of its process
	if os.Getenv("VERIF_NOWARM") != "" {
		return
	}
	li, lv := make([]uint64, 64), make([]int64, 64)
	for i, prop := range warmProfiles {
		seed := planSeed(prop, 0, i)
		p := genPlan(prop, seed)
		s := Sched{Seed: seed, Mode: runtime.SimModeFIFO}
		execute(p, s.conf(li, lv), false)
		collect()
	}
	races() // belong to no run
}

// collect frees what a run left and, with a second cycle, empties every sync.Pool,
// so that the next run starts as it would in a fresh process.
func collect() {
	runtime.GC()
	runtime.GC()
}

var warmProfiles = []string{"C20", "C10", "C21", "C09", "C16", "C17", "C18", "C13"}

// runOut is what one simulated run reports to the orchestrator.
type runOut struct {
	I     int               `json:"i"`
	Hash  uint64            `json:"hash"`
	Res   runtime.SimResult `json:"res"`
	Viol  []Violation       `json:"viol,omitempty"`
	Stats map[string]int    `json:"stats,omitempty"`
	Fault map[string]int    `json:"faults,omitempty"`
	Log   int               `json:"log"`
	Lost  bool              `json:"lost,omitempty"`
	Ops   int               `json:"ops"`
}

func outOf(i int, h *run) runOut {
	o := runOut{I: i, Hash: h.res.Hash, Res: h.res, Stats: h.stats, Log: h.res.Logged, Lost: h.res.LogLost, Ops: len(h.ops)}
	if h.w != nil {
		o.Fault = h.w.fkinds
	}
	if h.rtrun != nil {
		o.Ops = len(h.rtrun.calls)
	}
	for _, v := range h.viol {
		if len(v.Msg) > 4000 {
			v.Msg = v.Msg[:4000] + "..."
		}
		o.Viol = append(o.Viol, v)
		if len(o.Viol) >= 20 {
			break
		}
	}
	return o
}

// worker PROP BASE START STEP COUNT UNTIL: runs seeds START, START+STEP, ...
func workerMain(a []string) {
	prop := a[0]
	base, _ := strconv.ParseUint(a[1], 10, 64)
	start, _ := strconv.Atoi(a[2])
	step, _ := strconv.Atoi(a[3])
	end, _ := strconv.Atoi(a[4])
	until, _ := strconv.ParseInt(a[5], 10, 64)
	w := bufio.NewWriter(os.Stdout)
	li, lv := make([]uint64, logCap), make([]int64, logCap)
	for i := start; i < end && time.Now().UnixMilli() < until; i += step {
		fmt.Fprintf(w, "B %d\n", i)
		w.Flush()
		seed := planSeed(prop, base, i)
		p := genPlan(prop, seed)
		s := genSched(seed, p)
		runtime.SimTrace(os.Getenv("VERIF_YTRACE") == strconv.Itoa(i))
		h := execute(p, s.conf(li, lv), false)
		runtime.SimTrace(false)
		o := outOf(i, h)
		h = nil
		b, _ := json.Marshal(&o)
		fmt.Fprintf(w, "R %s\n", b)
		w.Flush()
		collect()
	}
	pairs, sites := make([]byte, 1<<15), make([]byte, 1<<13)
	runtime.SimPairs(pairs)
	runtime.SimSites(sites)
	b, _ := json.Marshal(map[string][]byte{"pairs": pairs, "sites": sites})
	fmt.Fprintf(w, "E %s\n", b)
	w.Flush()
}

// Seq names a generated run by its seed.
type Seq struct {
	Prop string `json:"property"`
	Base uint64 `json:"base"`
	I    int    `json:"index"`
}

// Case is one run written out in full, preceded by the runs that must come
// before it in the same process (none, unless the code keeps global state).
type Case struct {
	Prefix []Seq `json:"prefix,omitempty"`
	Plan   *Plan `json:"plan"`
	Sched  Sched `json:"schedule"`
}

// exec CASEFILE [LOGFILE]
func execMain(a []string) {
	b, err := os.ReadFile(a[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	trace := len(a) > 2 && a[2] == "trace"
	li, lv := make([]uint64, logCap), make([]int64, logCap)
	for _, q := range c.Prefix {
		seed := planSeed(q.Prop, q.Base, q.I)
		p := genPlan(q.Prop, seed)
		s := genSched(seed, p)
		h := execute(p, s.conf(li, lv), false)
		_ = h
		collect()
	}
	if len(a) > 1 && a[1] != "-" {
		li, lv = mapLog(a[1])
	}
	fmt.Println("B")
	h := execute(c.Plan, c.Sched.conf(li, lv), trace)
	if trace {
		for _, n := range h.notes {
			fmt.Printf("%s %s %s\n", sec(n.t), n.kind, n.msg)
		}
	}
	o := outOf(0, h)
	j, _ := json.Marshal(&o)
	fmt.Printf("R %s\n", j)
}

// mapLog maps a file that keeps the recorded decisions when the run crashes.
func mapLog(path string) ([]uint64, []int64) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o600)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	n := logCap * 16
	if err := f.Truncate(int64(n)); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	w := unsafe.Slice((*uint64)(unsafe.Pointer(&m[0])), 2*logCap)
	v := unsafe.Slice((*int64)(unsafe.Pointer(&m[8*logCap])), logCap)
	return w[:logCap], v
}

func one(a []string) {
	prop := a[0]
	base, _ := strconv.ParseUint(a[1], 10, 64)
	from, _ := strconv.Atoi(a[2])
	to := from + 1
	trace := true
	if len(a) > 3 {
		to, _ = strconv.Atoi(a[3])
		trace = len(a) > 4
	}
	li, lv := make([]uint64, logCap), make([]int64, logCap)
	sigs := map[string]int{}
	first := map[string]int{}
	stats := map[string]int{}
	t0 := time.Now()
	for i := from; i < to; i++ {
		seed := planSeed(prop, base, i)
		p := genPlan(prop, seed)
		s := genSched(seed, p)
		if to == from+1 && trace {
			fmt.Println(string(mustJSON(p)))
			fmt.Println(string(mustJSON(s)))
		}
		t1 := time.Now()
		h := execute(p, s.conf(li, lv), trace)
		if trace {
			for _, n := range h.notes {
				fmt.Printf("%s %s %s\n", sec(n.t), n.kind, n.msg)
			}
		}
		for k, v := range h.stats {
			stats[k] += v
		}
		if h.w != nil {
			for k, v := range h.w.fkinds {
				stats["fault."+k] += v
			}
		}
		for _, v := range h.viol {
			if sigs[v.Sig] == 0 {
				first[v.Sig] = i
				fmt.Printf("#%d %v %s [%s]\n", i, v.Tags, v.Msg, sec(v.T))
			}
			sigs[v.Sig]++
		}
		if to == from+1 {
			b, _ := json.Marshal(h.res)
			fmt.Println(string(b), "wall", time.Since(t1))
			for _, v := range h.viol {
				fmt.Printf("VIOL %v %s [%s]\n", v.Tags, v.Msg, sec(v.T))
			}
		}
		h = nil
		collect()
	}
	b, _ := json.Marshal(stats)
	fmt.Println(string(b))
	for k, v := range sigs {
		fmt.Println(v, first[k], k)
	}
	fmt.Println("wall", time.Since(t0))
}
