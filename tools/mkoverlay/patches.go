package main

// patch is one textual edit of a file of the Go runtime. Every "old" text must
// occur exactly once: a toolchain that differs stops the build (exit 2).
type patch struct {
	file string
	old  string
	new  string
	n    int // occurrences, 0: one
}

var runtimePatches = []patch{
	{file: "runtime2.go",
		old: "	coroarg *coro // argument during coroutine transfers\n	bubble  *synctestBubble\n",
		new: "	coroarg *coro // argument during coroutine transfers\n	bubble  *synctestBubble\n	simid, simprio uint64\n	simsite uint32\n	simmap uint32\n"},
	{file: "runtime2.go",
		old: "	waitReasonSynctestSelect:        true,\n}\n\nvar (",
		new: "	waitReasonSynctestSelect:        true,\n	waitReasonSyncMutexLock: true, waitReasonSyncRWMutexRLock: true, waitReasonSyncRWMutexLock: true, waitReasonSyncWaitGroupWait: true,\n	waitReasonSelect: true, waitReasonChanReceive: true, waitReasonChanSend: true,\n}\n\nvar ("},
	{file: "proc.go",
		old: "func runqput(pp *p, gp *g, next bool) {\n",
		new: "func runqput(pp *p, gp *g, next bool) {\n	if sim.on && simPut(gp) {\n		return\n	}\n"},
	{file: "proc.go",
		old: "func globrunqput(gp *g) {\n",
		new: "func globrunqput(gp *g) {\n	if sim.on && simPut(gp) {\n		return\n	}\n"},
	{file: "proc.go",
		old: "	// Poll network.\n	// This netpoll is only an optimization before we resort to stealing.\n",
		new: "	if sim.on {\n		if gp := simPick(); gp != nil {\n			return gp, false, false\n		}\n	}\n\n	// Poll network.\n	// This netpoll is only an optimization before we resort to stealing.\n"},
	{file: "proc.go",
		old: "func preemptone(pp *p) bool {\n",
		new: "func preemptone(pp *p) bool {\n	if sim.on && !sched.gcwaiting.Load() {\n		return false\n	}\n"},
	{file: "proc.go",
		old: "func retake(now int64) uint32 {\n",
		new: "func retake(now int64) uint32 {\n	if sim.on {\n		return 0\n	}\n"},
	{file: "proc.go",
		old: "		newg.bubble = callergp.bubble\n",
		new: "		newg.bubble = callergp.bubble\n		newg.simid, newg.simprio, newg.simsite, newg.simmap = 0, 0, 0, 0\n		if sim.on && newg.bubble != nil {\n			sim.ids++\n			newg.simid = sim.ids\n			sim.res.Spawned++\n		}\n"},
	{file: "synctest.go",
		old: "	bubble.now = synctestBaseTime\n",
		new: "	bubble.now = synctestBaseTime\n	if sim.on {\n		sim.bubble = bubble\n	}\n"},
	{file: "synctest.go",
		old: "	if total != 1 {\n",
		new: "	if sim.on {\n		sim.res.Left, sim.res.Dead, sim.res.EndTime = int64(total-1), !bubble.done, bubble.now-simBase\n		total = 1\n	}\n	if total != 1 {\n"},
	{file: "select.go",
		old: "		j := cheaprandn(uint32(norder + 1))\n",
		new: "		j := uint32(0)\n		if simRandOn() {\n			j = simRandn(uint32(norder + 1))\n		} else {\n			j = cheaprandn(uint32(norder + 1))\n		}\n"},
	{file: "time.go",
		old: "			t.rand = cheaprand()\n		}\n		t.state |= timerHeaped\n",
		new: "			if sim.on {\n				t.rand = uint32(simRandTimer())\n			} else {\n				t.rand = cheaprand()\n			}\n		}\n		t.state |= timerHeaped\n"},
	{file: "time.go",
		old: "		sec = bubble.now / (1000 * 1000 * 1000)\n		nsec = int32(bubble.now % (1000 * 1000 * 1000))\n",
		new: "		w := bubble.now\n		if sim.on {\n			w += sim.wall\n		}\n		sec = w / (1000 * 1000 * 1000)\n		nsec = int32(w % (1000 * 1000 * 1000))\n"},
	// inside the bubble a time has no monotonic reading: with one, what is left of
	// a span of time does not depend on how the wall clock was set meanwhile
	{file: "time.go",
		old: "		return sec, nsec, 0\n",
		new: "		if sim.on {\n			return sec, nsec, bubble.now\n		}\n		return sec, nsec, 0\n"},
	{file: "../time/time.go",
		old: "var startNano int64 = runtimeNano() - 1\n",
		new: "var startNano int64 = 0\n"},
	{file: "rand.go",
		old: "func rand() uint64 {\n",
		new: "func rand() uint64 {\n	if simRandOn() {\n		return simRand()\n	}\n"},
	{file: "rand.go",
		old: "	globalRand.state.Init(*seed)\n",
		new: "	for i := range seed {\n		seed[i] = byte(i*37 + 11)\n	}\n	globalRand.state.Init(*seed)\n"},
	{file: "sema.go",
		old: "func internal_sync_nanotime() int64 {\n",
		new: "func internal_sync_nanotime() int64 {\n	if b := getg().bubble; sim.on && b != nil {\n		return b.now\n	}\n"},
	// race builds only: the race detector looks at the code under test, not at
	// the accesses of the harness, whose goroutines are never on at once
	{file: "race_amd64.s",
		old: "	MOVQ	AX, RARG1\n	MOVQ	(SP), RARG2\n", n: 2,
		new: "	MOVQ	AX, RARG1\n	MOVQ	(SP), RARG2\n	XORQ	RARG3, RARG3\n"},
	{file: "race_amd64.s",
		old: "TEXT	racecalladdr<>(SB), NOSPLIT, $0-0\n",
		new: "TEXT	racecalladdr<>(SB), NOSPLIT, $0-0\n	MOVQ	RARG2, R11\n	SUBQ	runtime·simRaceLo(SB), R11\n	CMPQ	R11, runtime·simRaceLen(SB)\n	JB	ret\n	MOVQ	RARG3, R11\n	SUBQ	runtime·simRaceLo(SB), R11\n	CMPQ	R11, runtime·simRaceLen(SB)\n	JB	ret\n"},
	{file: "race.go",
		old: "func racewriterangepc(addr unsafe.Pointer, sz, callpc, pc uintptr) {\n",
		new: "func racewriterangepc(addr unsafe.Pointer, sz, callpc, pc uintptr) {\n	if callpc-simRaceLo < simRaceLen {\n		return\n	}\n"},
	{file: "race.go",
		old: "func racereadrangepc(addr unsafe.Pointer, sz, callpc, pc uintptr) {\n",
		new: "func racereadrangepc(addr unsafe.Pointer, sz, callpc, pc uintptr) {\n	if callpc-simRaceLo < simRaceLen {\n		return\n	}\n"},
	// a pool orders what put a value before what gets it: with races watched it
	// keeps nothing, or every formatted text would order the goroutines
	{file: "../sync/pool.go",
		old: "		if runtime_randn(4) == 0 {\n",
		new: "		if true {\n"},
	// a cancelled context cancels its children in the order of a map keyed by
	// addresses, which differ between processes: keep them in creation order
	{file: "../context/context.go",
		old: "	children map[canceler]struct{} // set to nil by the first cancel call\n",
		new: "	children map[canceler]struct{} // set to nil by the first cancel call\n	simorder []canceler\n"},
	{file: "../context/context.go",
		old: "		delete(p.children, child)\n",
		new: "		delete(p.children, child)\n		for i, x := range p.simorder {\n			if x == child {\n				p.simorder = append(p.simorder[:i], p.simorder[i+1:]...)\n				break\n			}\n		}\n"},
	{file: "../context/context.go",
		old: "			p.children[child] = struct{}{}\n",
		new: "			if _, ok := p.children[child]; !ok {\n				p.simorder = append(p.simorder, child)\n			}\n			p.children[child] = struct{}{}\n"},
	{file: "../context/context.go",
		old: "	for child := range c.children {\n",
		new: "	for _, child := range c.simorder {\n"},
	{file: "../context/context.go",
		old: "	c.children = nil\n",
		new: "	c.children = nil\n	c.simorder = nil\n"},
	// a plain map in the middle of a write is a scheduling point where the code
	// under test writes one: an unguarded access by another goroutine meanwhile
	// is the runtime's fatal error
	{file: "../internal/runtime/maps/table_debug.go",
		old: "const debugLog = false\n",
		new: "const debugLog = false\n\nvar SimHook func()\n\nfunc simHook() {\n	if SimHook != nil {\n		SimHook()\n	}\n}\n"},
	{file: "../internal/runtime/maps/map.go", n: 3,
		old: "	m.writing ^= 1 // toggle, see comment on writing\n",
		new: "	m.writing ^= 1 // toggle, see comment on writing\n	simHook()\n"},
	{file: "../internal/runtime/maps/runtime.go", n: 1,
		old: "	m.writing ^= 1 // toggle, see comment on writing\n",
		new: "	m.writing ^= 1 // toggle, see comment on writing\n	simHook()\n"},
	{file: "../internal/runtime/maps/runtime_fast32.go", n: 2,
		old: "	m.writing ^= 1 // toggle, see comment on writing\n",
		new: "	m.writing ^= 1 // toggle, see comment on writing\n	simHook()\n"},
	{file: "../internal/runtime/maps/runtime_fast64.go", n: 2,
		old: "	m.writing ^= 1 // toggle, see comment on writing\n",
		new: "	m.writing ^= 1 // toggle, see comment on writing\n	simHook()\n"},
	{file: "../internal/runtime/maps/runtime_faststr.go", n: 1,
		old: "	m.writing ^= 1 // toggle, see comment on writing\n",
		new: "	m.writing ^= 1 // toggle, see comment on writing\n	simHook()\n"},
}
