package main

import (
	"reflect"
	"runtime"
	"weak"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
)

// held is a principal handed out, known without keeping it alive.
type held struct {
	w   weak.Pointer[byte]
	t   int64 // handed out last
	rec *opRec
}

// hold remembers, weakly, the principal that an operation returned.
func (h *run) hold(rec *opRec, p authorizerd.Principal) {
	v := reflect.ValueOf(p)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return
	}
	w := weak.Make((*byte)(v.UnsafePointer()))
	for i := range h.holds {
		if h.holds[i].w == w {
			h.holds[i].t = rec.t1
			return
		}
	}
	h.holds = append(h.holds, held{w, rec.t1, rec})
}

// generation is a loaded policy, known without keeping it alive.
type generation struct {
	n  *node
	t  int64
	as []weak.Pointer[policy.Assertion]
}

// snapshot notes, weakly, the assertions in force.
func (h *run) snapshot() {
	n := h.cur
	if n == nil || n.cancelAt >= 0 || h.p.Cfg.NoPolicy {
		return
	}
	g := generation{n: n, t: now()}
	m := n.a.GetPolicyCache(n.ctx)
	for _, k := range sortedKeys(m) {
		if as, ok := m[k].([]*policy.Assertion); ok && len(as) > 0 && as[0] != nil {
			g.as = append(g.as, weak.Make(as[0]))
		}
	}
	if len(g.as) > 0 {
		h.gens = append(h.gens, g)
	}
}

// superseded: policies that have been replaced are let go (C19). A few may be
// kept, say to compare with, but not all of them.
func (h *run) superseded() {
	seen := map[weak.Pointer[policy.Assertion]]bool{}
	for i := len(h.gens) - 1; i >= 0; i-- { // what later ones share with earlier ones is in use
		g := &h.gens[i]
		var as []weak.Pointer[policy.Assertion]
		for _, a := range g.as {
			if !seen[a] {
				seen[a] = true
				as = append(as, a)
			}
		}
		g.as = as
	}
	kept, old := 0, 0
	for i := 0; i+1 < len(h.gens); i++ {
		g := &h.gens[i]
		if g.n != h.cur || len(g.as) == 0 {
			continue
		}
		old++
		for _, a := range g.as {
			if a.Value() != nil {
				kept++
				break
			}
		}
	}
	h.stats["superseded"] += old
	if kept > 3 {
		h.violate([]string{"C19"}, "replaced policies never let go: %d of %d earlier loads are still kept at %s", kept, old, sec(now()))
	}
}

// released: a remembered success is let go some time after its life, while
// the authorizer runs (C19). The harness keeps the authorizers, not what they
// returned.
func (h *run) released() {
	if h.p.Profile != "C19" || h.cur == nil {
		return
	}
	runtime.SimWait()
	limit := int64(4*h.p.Cfg.CacheExp) + h.sim0Stall() + 10e9
	t1 := now()
	var due []held
	for _, x := range h.holds {
		n := x.rec.node
		if n.startAt < 0 || n.cancelAt >= 0 {
			continue
		}
		from := x.t
		if n.startAt > from {
			from = n.startAt
		}
		for _, t := range h.w.walls {
			if t > from {
				from = t
			}
		}
		if t1-from >= limit {
			due = append(due, x)
		}
	}
	h.snapshot()
	if len(due) == 0 && len(h.gens) < 5 {
		return
	}
	runtime.SimOutside(runtime.GC)
	h.superseded()
	for _, x := range due {
		h.stats["released"]++
		if x.w.Value() != nil {
			h.violate([]string{"C19"}, "remembered success never let go: the principal returned by %s #%d at %s is still kept at %s, cache life %s", x.rec.op.Kind, x.rec.idx, sec(x.t), sec(t1), sec(int64(h.p.Cfg.CacheExp)))
			break
		}
	}
	runtime.KeepAlive(h.nodes)
}
