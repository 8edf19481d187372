package main

import "strings"

// conditional judges the validators sent along with the requests (C24): a
// request may name only a validator of content in use, no longer than the
// configuration allows, and must name it while it may.
func (j *jd) conditional(n *node) {
	h, c := j.h, j.c
	if c.ExpRT { // repeats requests on its own account
		return
	}
	slack := j.S + eps
	by := map[string][]*reqRec{}
	var order []string
	for _, r := range h.w.reqs {
		if r.inc != n.inc || r.target == "" || r.dead {
			continue
		}
		if strings.HasPrefix(r.target, "jwk:") {
			continue
		}
		if by[r.target] == nil {
			order = append(order, r.target)
		}
		by[r.target] = append(by[r.target], r)
	}
	jumped := func(t0, t1 int64) bool {
		for _, x := range h.w.walls {
			if x >= t0 && x <= t1 {
				return true
			}
		}
		return false
	}
	// left is how long the validator received with d may still be named at r;
	// the clock may be read either way.
	left := func(d *delivery, r *reqRec) (lo, hi int64) {
		if d.iss != nil {
			x := d.iss.expires - int64(c.PolMargin) - r.wall
			return x, x
		}
		lo = int64(c.PubETag) - (r.wall - d.wall)
		hi = int64(c.PubETag) - (r.t0 - d.t)
		if lo > hi {
			lo, hi = hi, lo
		}
		return
	}
	of := map[*reqRec]*delivery{}
	for _, d := range h.w.dels {
		if d.inc == n.inc {
			of[d.req] = d
		}
	}
	unmod := map[*reqRec]bool{}
	for _, d := range h.w.unmod {
		unmod[d.req] = true
	}
	for _, t := range order {
		ds := j.by[tk(n.inc, t)]
		var held *delivery // what the client certainly took over last
		known := false
		end := int64(-1)
		for _, r := range by[t] {
			overlap := end >= r.t0-slack
			shaky := jumped(r.t0-slack, r.t0+slack)
			if r.inm != "" && !shaky {
				var found, usable bool
				stop := never
				for i := len(ds) - 1; i >= 0; i-- {
					d := ds[i]
					if d.seq > r.seq || d.t > r.t0 {
						continue
					}
					if d.t+slack < stop && stop != never {
						break
					}
					x := j.info[d]
					if !x.possible {
						continue
					}
					if d.etag == r.inm {
						found = true
						if _, hi := left(d, r); hi > -slack {
							usable = true
						}
					}
					if x.definite && d.t+slack < r.t0 && stop == never {
						stop = d.t
					}
				}
				switch {
				case !found:
					h.violateAt(r.t0, []string{"C24"}, "validator of content not in use: %s asked with If-None-Match %s at %s", t, r.inm, sec(r.t0))
				case !usable:
					h.violateAt(r.t0, []string{"C24"}, "validator used beyond its time: %s asked with If-None-Match %s at %s (client clock %s)", t, r.inm, sec(r.t0), sec(r.wall))
				default:
					h.stats["conditional"]++
				}
			}
			if overlap {
				known = false
			}
			if known && held != nil && !shaky {
				if lo, _ := left(held, r); lo > slack {
					h.stats["validator_due"]++
					if r.inm != held.etag {
						h.violateAt(r.t0, []string{"C24"}, "known validator not used: %s asked at %s with If-None-Match %q, has %s received at %s", t, sec(r.t0), r.inm, held.etag, sec(held.t))
					}
				}
			}
			// what is known after this exchange
			e := r.t1
			if r.bodyEnd > e {
				e = r.bodyEnd
			}
			if e < 0 {
				e = never
			}
			if e > end {
				end = e
			}
			switch d := of[r]; {
			case overlap:
				known = false
			case !r.answered: // nothing learnt
			case r.status == 304:
				if !unmod[r] {
					known = false
				}
			case r.status != 200: // nothing learnt
			case d != nil && j.info[d].definite && !jumped(d.t-slack, d.t+slack):
				known, held = true, d
				if d.etag == "" {
					held = nil
				}
			default:
				known = false
			}
		}
	}
}
