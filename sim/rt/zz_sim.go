// Deterministic-simulation scheduler for a synctest bubble.
//
// This file is added to package runtime by `go build -overlay`; the small
// textual patches listed in tools/mkoverlay/patches.go route every goroutine
// of the simulated bubble through simq below.  The process runs with one P and
// with the garbage collector stopped during a run, so the decisions taken here
// (pick / preempt / stall) are the only source of interleaving.

package runtime

import (
	"internal/runtime/maps"
	"unsafe"
)

const (
	simMaxQ    = 1 << 16
	simMaxPCT  = 64
	simPairLen = 1 << 15 // bytes: bitmap of hashed (site,site) preemption pairs
)

// SimMode values.
const (
	SimModeFIFO   = 0 // never preempt, FIFO picks
	SimModeWalk   = 1 // preempt with probability, uniform picks
	SimModePCT    = 2 // random priorities with change points
	SimModeHot    = 3 // preempt (and maybe stall) at a random subset of sites
	SimModeReplay = 9 // only the recorded overrides
)

// SimConf configures one run. All slices are owned by the caller.
type SimConf struct {
	Seed       uint64
	Mode       int
	PreemptPPM uint32 // per-yield preemption probability (Walk)
	HotMask    uint32 // Hot: a site is hot when hash(site,seed)&HotMask == 0
	HotPPM     uint32 // Hot: preemption probability at a hot site
	StallPPM   uint32 // probability of a stall at a yield
	StallMax   int64  // longest stall (ns of simulated time)
	StallMaxN  uint32 // number of stalls allowed
	StallUntil int64  // no stall once the simulated clock is beyond this (ns since start)
	PCTDepth   int
	PCTLen     uint64
	Limit      uint64 // decisions before the run is declared livelocked
	OverIdx    []uint64
	OverVal    []int64
	LogIdx     []uint64 // capacity for recorded non-default decisions
	LogVal     []int64
}

// SimResult is what one run did.
type SimResult struct {
	Decisions uint64
	Switches  uint64
	Preempts  uint64
	Stalls    uint64
	StallTime int64
	Picks     uint64
	MaxQ      int
	Hash      uint64
	Logged    int
	LogLost   bool
	Left      int64
	Dead      bool
	Spawned   uint64
	EndTime   int64
}

var sim struct {
	on     bool
	conf   SimConf
	res    SimResult
	bubble *synctestBubble
	q      [simMaxQ]guintptr
	qn     int
	sub    uint64
	subT   uint64
	over   int
	ids    uint64
	wall   int64
	pct    [simMaxPCT]uint64
	pctn   int
	low    uint64
	same   uint64
	last   uint64
	pairs  [simPairLen]byte
	npairs uint64
	pend   uint32 // site at which the last preempted goroutine stopped
	sites  [1 << 13]byte
	nsites uint64
	trace  bool
	frozen bool
}

const simBase = 946684800000000000

//go:nosplit
func simMix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// simRand is the randomness handed to bubbled code (map iteration, select,
// math/rand, timer ties): a function of the seed and the position in the run.
//
//go:nosplit
func simRand() uint64 {
	sim.sub++
	return simMix(sim.conf.Seed ^ simMix(sim.res.Decisions*0x10001+sim.sub))
}

// simRandTimer is simRand for the parts of the runtime whose draws must not
// depend on how many maps were made in the same step: timers and select.
//
//go:nosplit
func simRandTimer() uint64 {
	sim.subT++
	return simMix(sim.conf.Seed*3 ^ simMix(sim.res.Decisions*0x20003+sim.subT))
}

//go:nosplit
func simRandOn() bool {
	return sim.on && getg().bubble != nil
}

//go:nosplit
func simRandn(n uint32) uint32 {
	return uint32((uint64(uint32(simRandTimer())) * uint64(n)) >> 32)
}

// simPut queues a runnable goroutine of the simulated bubble.
func simPut(gp *g) bool {
	if gp.bubble == nil {
		return false
	}
	if sim.qn >= simMaxQ {
		print("SIMERR runqueue overflow\n")
		exit(76)
	}
	sim.q[sim.qn].set(gp)
	sim.qn++
	if sim.qn > sim.res.MaxQ {
		sim.res.MaxQ = sim.qn
	}
	return true
}

func simRecord(v int64) {
	if v == 0 {
		return
	}
	n := sim.res.Logged
	if n >= len(sim.conf.LogIdx) {
		sim.res.LogLost = true
		return
	}
	sim.conf.LogIdx[n] = sim.res.Decisions
	sim.conf.LogVal[n] = v
	sim.res.Logged++
}

func simOverride() int64 {
	for sim.over < len(sim.conf.OverIdx) && sim.conf.OverIdx[sim.over] < sim.res.Decisions {
		sim.over++
	}
	if sim.over < len(sim.conf.OverIdx) && sim.conf.OverIdx[sim.over] == sim.res.Decisions {
		v := sim.conf.OverVal[sim.over]
		sim.over++
		return v
	}
	return 0
}

// simStep accounts for one decision and returns a hash private to it.
func simStep() uint64 {
	sim.res.Decisions++
	sim.sub = 0
	sim.subT = 0
	if sim.res.Decisions > sim.conf.Limit {
		print("\nSIMLIMIT decisions=", sim.res.Decisions, " now=", sim.bubble.now-simBase, "\n")
		exit(77)
	}
	return simMix(sim.conf.Seed*0x9e37 ^ simMix(sim.res.Decisions^0x5151))
}

func simPrio(gp *g) uint64 {
	if gp.simprio == 0 {
		gp.simprio = simMix(sim.conf.Seed^simMix(gp.simid+77))>>1 | 1<<62
	}
	return gp.simprio
}

func simBestPrio() int {
	best, bp := 0, uint64(0)
	for i := 0; i < sim.qn; i++ {
		if p := simPrio(sim.q[i].ptr()); p > bp {
			best, bp = i, p
		}
	}
	return best
}

// simPick removes and returns the next goroutine of the bubble to run.
func simPick() *g {
	if sim.qn == 0 || sim.frozen {
		return nil
	}
	i := 0
	if sim.qn > 1 {
		h := simStep()
		sim.res.Picks++
		switch sim.conf.Mode {
		case SimModeFIFO:
		case SimModeReplay:
			i = int(simOverride())
			if i < 0 || i >= sim.qn {
				i = 0
			}
		case SimModePCT:
			i = simBestPrio()
		case SimModeHot:
			if h&7 == 0 {
				i = int((h >> 8) % uint64(sim.qn))
			}
		default:
			i = int((h >> 8) % uint64(sim.qn))
		}
		if sim.conf.Mode != SimModeReplay {
			simRecord(int64(i))
		}
	}
	gp := sim.q[i].ptr()
	for j := i; j+1 < sim.qn; j++ {
		sim.q[j] = sim.q[j+1]
	}
	sim.qn--
	sim.q[sim.qn] = 0
	if gp.simid != sim.last {
		sim.res.Switches++
		sim.res.Hash = simMix(sim.res.Hash ^ simMix(gp.simid<<32|uint64(gp.simsite)) ^ uint64(sim.pend)<<20)
		sim.last = gp.simid
		sim.same = 0
		if sim.pend != 0 {
			ph := simMix(uint64(sim.pend)<<32 | uint64(gp.simsite))
			b := (ph >> 8) % (simPairLen * 8)
			if sim.pairs[b>>3]&(1<<(b&7)) == 0 {
				sim.pairs[b>>3] |= 1 << (b & 7)
				sim.npairs++
			}
		}
	}
	sim.pend = 0
	return gp
}

func simYield_m(gp *g) {
	casgstatus(gp, _Grunning, _Grunnable)
	dropg()
	simPut(gp)
	schedule()
}

// SimYield is a scheduling point: the seeded scheduler may preempt or stall
// the calling goroutine here. Outside a simulated run it does nothing.
func SimYield(site uint32) {
	if sim.on {
		simYieldAt(site, false)
	}
}

// SimYieldMap is SimYield before a statement that writes an element: if that
// is an element of a map, the middle of the write is a scheduling point too.
func SimYieldMap(site uint32) {
	if sim.on {
		simYieldAt(site, false)
		getg().simmap = site
	}
}

// SimMapEnd ends the statement begun with SimYieldMap.
func SimMapEnd() { getg().simmap = 0 }

func simMapHook() {
	if gp := getg(); sim.on && gp.simmap != 0 {
		site := gp.simmap
		gp.simmap = 0
		simYieldAt(site, true)
	}
}

// SimVal is a scheduling point between the computation of a value and its use.
func SimVal[T any](site uint32, x T) T {
	if sim.on {
		simYieldAt(site, true)
	}
	return x
}

// simYieldAt yields at site; inside a statement the scheduler is readier to.
func simYieldAt(site uint32, inside bool) {
	gp := getg()
	if gp.bubble == nil || gp.bubble != sim.bubble || gp.m.locks != 0 {
		return
	}
	gp.simmap = 0
	gp.simsite = site
	if s := site & (1<<16 - 1); sim.sites[s>>3]&(1<<(s&7)) == 0 {
		sim.sites[s>>3] |= 1 << (s & 7)
		sim.nsites++
	}
	if sim.trace {
		println("Y", sim.res.Decisions, gp.simid, site, sim.qn)
	}
	h := simStep()
	v := int64(0)
	c := &sim.conf
	if c.Mode == SimModeReplay {
		v = simOverride()
	} else {
		r := uint32(h % 1000000)
		h2 := h >> 20
		hot := c.Mode == SimModeHot && simMix(uint64(site)^simMix(c.Seed+3))&uint64(c.HotMask) == 0
		if c.StallPPM != 0 && sim.res.Stalls < uint64(c.StallMaxN) && (c.Mode != SimModeHot || hot) && r < c.StallPPM &&
			gp.bubble.now-simBase < c.StallUntil {
			// log-uniform stall between 1ms and StallMax
			d := int64(1000000) << (h2 % 16)
			d += int64(h2>>8) % d
			if d > c.StallMax {
				d = c.StallMax
			}
			v = d
		} else if sim.qn > 0 {
			r2 := uint32(simMix(h) % 1000000)
			if inside && c.Mode != SimModeFIFO {
				r2 /= 8
			}
			switch c.Mode {
			case SimModeWalk:
				if r2 < c.PreemptPPM {
					v = 1
				}
			case SimModeHot:
				if hot && r2 < c.HotPPM {
					v = 1
				} else if !hot && r2 < c.PreemptPPM {
					v = 1
				}
			case SimModePCT:
				sim.same++
				for i := 0; i < sim.pctn; i++ {
					if sim.pct[i] == sim.res.Decisions {
						sim.low--
						gp.simprio = sim.low
					}
				}
				if sim.same > 20000 {
					sim.same = 0
					sim.low--
					gp.simprio = sim.low
				}
				if simPrio(sim.q[simBestPrio()].ptr()) > simPrio(gp) {
					v = 1
				}
			}
		}
		simRecord(v)
	}
	if v <= 0 {
		return
	}
	sim.res.Hash = simMix(sim.res.Hash ^ uint64(v)<<33 ^ uint64(site))
	if v == 1 {
		if sim.qn == 0 {
			return
		}
		sim.res.Preempts++
		sim.pend = site
		mcall(simYield_m)
		return
	}
	sim.res.Stalls++
	sim.res.StallTime += v
	timeSleep(v)
}

// SimRun executes f in a fresh bubble under the scheduler described by c and
// returns when every goroutine of the bubble is blocked for ever or gone, or
// f has returned and the bubble is idle.
func SimRun(c *SimConf, f func()) SimResult {
	sim.conf = *c
	sim.res = SimResult{}
	sim.qn = 0
	sim.sub = 0
	sim.subT = 0
	sim.over = 0
	sim.ids = 0
	sim.wall = 0
	sim.last = 0
	sim.same = 0
	sim.pend = 0
	sim.low = 1 << 61
	sim.pctn = 0
	sim.bubble = nil
	if c.Mode == SimModePCT {
		for i := 0; i < c.PCTDepth && i < simMaxPCT; i++ {
			sim.pct[i] = simMix(c.Seed^simMix(uint64(i)+991)) % c.PCTLen
			sim.pctn++
		}
	}
	maps.SimHook = simMapHook
	sim.on = true
	synctestRun(f)
	sim.on = false
	sim.bubble = nil
	return sim.res
}

// SimNow is the simulated monotonic clock (ns since the start of the run).
func SimNow() int64 {
	if b := getg().bubble; b != nil {
		return b.now - simBase
	}
	return 0
}

// SimSetWall sets the offset of the wall clock (time.Now) from the monotonic one.
func SimSetWall(d int64) { sim.wall = d }

// SimWall is the current wall clock offset.
func SimWall() int64 { return sim.wall }

// SimGoid identifies the calling goroutine within the run.
func SimGoid() uint64 { return getg().simid }

// SimLive is the number of goroutines of the bubble that exist now, the
// bubble's root and main goroutines excluded.
func SimLive() int {
	b := getg().bubble
	if b == nil {
		return 0
	}
	lock(&b.mu)
	n := b.total - 2
	unlock(&b.mu)
	return n
}

// SimDecisions is the number of scheduling decisions so far.
func SimDecisions() uint64 { return sim.res.Decisions }

// SimHash is the hash of the interleaving so far.
func SimHash() uint64 { return sim.res.Hash }

// SimCoverage returns the distinct preemption pairs and sites seen by this process.
func SimCoverage() (pairs, sites uint64) { return sim.npairs, sim.nsites }

// SimPairs copies the preemption-pair bitmap.
func SimPairs(dst []byte) int { return copy(dst, sim.pairs[:]) }

// SimSites copies the visited-site bitmap.
func SimSites(dst []byte) int { return copy(dst, sim.sites[:]) }

// SimTrace switches the textual trace of yields on (debugging aid).
func SimTrace(b bool) { sim.trace = b }

// SimOutside runs f on the calling goroutine as if it were not part of the
// simulation, which stands still meanwhile.
func SimOutside(f func()) {
	gp := getg()
	b := gp.bubble
	gp.bubble, sim.frozen = nil, true
	f()
	gp.bubble, sim.frozen = b, false
}

// SimWait blocks until every other goroutine of the bubble is durably blocked.
func SimWait() { synctestWait() }

var _ unsafe.Pointer

// SimRaceBuild: the race detector watches the simulated run.
const SimRaceBuild = raceenabled

// the text of package main, whose accesses the race detector leaves out
var simRaceLo, simRaceLen uintptr

// SimRaceSkipMain has the race detector leave out the accesses of package main.
func SimRaceSkipMain() {
	if !raceenabled {
		return
	}
	var lo, hi uintptr
	md := &firstmoduledata
	for i := 0; i < len(md.ftab)-1; i++ {
		pc := md.textAddr(md.ftab[i].entryoff)
		end := md.textAddr(md.ftab[i+1].entryoff)
		f := findfunc(pc)
		if !f.valid() {
			continue
		}
		if n := funcname(f); len(n) > 5 && n[:5] == "main." {
			if lo == 0 {
				lo = pc
			}
			hi = end
		}
	}
	simRaceLo, simRaceLen = lo, hi-lo
}

// SimRelease and SimAcquire order what precedes the first before what follows
// the second, as handing a value from one goroutine to another does.
func SimRelease(p unsafe.Pointer) {
	if raceenabled {
		racereleasemerge(p)
	}
}

func SimAcquire(p unsafe.Pointer) {
	if raceenabled {
		raceacquire(p)
	}
}
