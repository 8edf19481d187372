package main

import (
	"sort"
	"strings"
)

// local judges that deciding is local (C26): what the library sends is
// explained by its configured periods, by initialisations, by failures and by
// policies that expire, over any span of time, and so not by what is presented.
// That a request never waits for a server is judged with the operations.
func (j *jd) local(n *node) {
	h, c := j.h, j.c
	j.leaks(n)
	if c.ExpRT { // repeats requests on its own account
		return
	}
	bad := map[*reqRec]bool{}
	for _, d := range h.w.dels {
		if d.inc == n.inc && !j.info[d].definite {
			bad[d.req] = true
		}
	}
	type doubt struct{ t0, t1 int64 }
	doubts := map[string][]doubt{} // exchanges that may have failed, by daemon
	byT := map[string][]doubt{}
	reqs := map[string][]*reqRec{}
	for _, r := range h.w.reqs {
		if r.inc != n.inc || r.target == "" {
			continue
		}
		if !r.ok || bad[r] || r.dead {
			e := r.t1
			if r.bodyEnd > e {
				e = r.bodyEnd
			}
			if e < 0 {
				e = h.endAt
			}
			doubts[r.target[:1]] = append(doubts[r.target[:1]], doubt{r.t0, e})
			byT[r.target] = append(byT[r.target], doubt{r.t0, e})
		}
		if !r.dead {
			reqs[r.target] = append(reqs[r.target], r)
		}
	}
	within := func(l []doubt, from, to int64) (k int64) {
		for _, d := range l {
			if d.t1 >= from && d.t0 <= to {
				k++
			}
		}
		return
	}
	var expiries []int64 // by the client's clock as it then was
	for _, d := range h.w.dels {
		if d.inc == n.inc && d.iss != nil && j.info[d].possible {
			expiries = append(expiries, d.t+d.iss.expires-d.wall)
		}
	}
	sort.Slice(expiries, func(a, b int) bool { return expiries[a] < expiries[b] })
	for _, t := range j.targets() {
		rs := reqs[t]
		pol := t[:1] == "p"
		if pol && h.w.everWall {
			continue
		}
		var period, retry int64
		switch t[:1] {
		case "p":
			period, retry = int64(c.PolPeriod), int64(c.PolRetry)
		case "j":
			period, retry = int64(c.JwkPeriod), int64(c.JwkRetry)
		default:
			period, retry = int64(c.PubPeriod), int64(c.PubRetry)
		}
		// how long ago a failure may lie that is only now made good
		back := j.S + 2*retry + int64(c.tries()+2)*(int64(c.Timeout)+retry) + int64(len(c.JwkURLs)+1)*int64(c.Timeout) + 200*int64(c.SlowDrain)
	span:
		for i := range rs {
			for m := i + 1; m < len(rs); m++ {
				from, to := rs[i].t0, rs[m].t0
				k := int64(m - i + 1)
				lim := (to-from)/period + 2
				if k <= lim {
					continue
				}
				for _, ir := range n.inits {
					if ir.t0 <= to && (!ir.done || ir.t1 >= from-j.S) {
						lim++
					}
				}
				lim += within(doubts[t[:1]], from-back, to)
				if pol {
					lim += within(byT[t], from-back, to)
					for _, x := range expiries {
						if x >= from-back && x <= to+int64(sd) {
							lim += 3
						}
					}
				}
				if k > lim {
					h.violateAt(from, []string{"C26", "C14"}, "requests not explained: %d requests to %s between %s and %s, at most %d explained by the period %s, failures and expiries", k, t, sec(from), sec(to), lim, sec(period))
					break span
				}
			}
		}
	}
	h.stats["local"]++
}

// leaks: nothing of a credential is sent anywhere.
func (j *jd) leaks(n *node) {
	h := j.h
	var parts []string
	seen := map[string]bool{}
	add := func(s string) {
		if len(s) >= 20 && !seen[s] {
			seen[s] = true
			parts = append(parts, s)
		}
	}
	for _, o := range h.ops {
		if i := strings.LastIndex(o.rtTok, ";s="); i >= 0 {
			add(o.rtTok[i+3:])
			add(o.rtTok[:i])
		}
		for _, s := range strings.Split(o.atTok, ".") {
			add(s)
		}
	}
	for _, r := range h.w.reqs {
		if r.inc != n.inc || r.sent == "" {
			continue
		}
		for _, s := range parts {
			if strings.Contains(r.sent, s) {
				h.violateAt(r.t0, []string{"C26"}, "part of a credential was sent to a server: %s", r.url)
				return
			}
		}
	}
}
