package main

import "runtime"

const (
	logCap  = 1 << 20
	stepCap = 60_000_000
)

// Sched is the schedule of a run: a seed and a strategy, or (Mode Replay) the
// explicit list of decisions that differ from "keep running, else first in line".
type Sched struct {
	Seed       uint64   `json:"seed"`
	Mode       int      `json:"mode"`
	PreemptPPM uint32   `json:"preempt_ppm,omitempty"`
	HotMask    uint32   `json:"hot_mask,omitempty"`
	HotPPM     uint32   `json:"hot_ppm,omitempty"`
	StallPPM   uint32   `json:"stall_ppm,omitempty"`
	StallMax   int64    `json:"stall_max,omitempty"`
	StallMaxN  uint32   `json:"stall_max_n,omitempty"`
	StallUntil int64    `json:"stall_until,omitempty"`
	PCTDepth   int      `json:"pct_depth,omitempty"`
	PCTLen     uint64   `json:"pct_len,omitempty"`
	OverIdx    []uint64 `json:"at,omitempty"`
	OverVal    []int64  `json:"do,omitempty"`
}

func genSched(seed uint64, p *Plan) Sched {
	r := newRng(seed, "sched"+p.Profile)
	s := Sched{Seed: mix(seed ^ 0x5c4ed), StallUntil: p.Quiet}
	switch x := r.n(100); {
	case x < 12:
		s.Mode = runtime.SimModeFIFO
	case x < 45:
		s.Mode = runtime.SimModeWalk
		s.PreemptPPM = logUniform(r, 500, 200000)
	case x < 58:
		s.Mode = runtime.SimModePCT
		s.PCTDepth = r.in(1, 12)
		s.PCTLen = uint64(1) << uint(r.in(12, 20))
	default:
		s.Mode = runtime.SimModeHot
		s.HotMask = []uint32{0, 7, 15, 31, 63, 127}[r.n(6)]
		s.HotPPM = logUniform(r, 10000, 600000)
		if r.p(50) {
			s.PreemptPPM = logUniform(r, 100, 5000)
		}
	}
	if r.p(35) {
		s.StallMaxN = uint32(r.in(1, 4))
		s.StallMax = int64(5e6) << uint(r.n(10))
		s.StallPPM = logUniform(r, 20, 20000)
	}
	return s
}

func logUniform(r *rng, lo, hi uint32) uint32 {
	v := lo
	for v*2 <= hi && r.p(80) {
		v *= 2
	}
	return v + uint32(r.n(int(v)))
}

// conf makes the runtime's configuration.
func (s *Sched) conf(logIdx []uint64, logVal []int64) runtime.SimConf {
	return runtime.SimConf{Seed: s.Seed, Mode: s.Mode, PreemptPPM: s.PreemptPPM, HotMask: s.HotMask, HotPPM: s.HotPPM,
		StallPPM: s.StallPPM, StallMax: s.StallMax, StallMaxN: s.StallMaxN, StallUntil: s.StallUntil,
		PCTDepth: s.PCTDepth, PCTLen: s.PCTLen, Limit: stepCap, OverIdx: s.OverIdx, OverVal: s.OverVal, LogIdx: logIdx, LogVal: logVal}
}
