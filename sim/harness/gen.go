package main

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// knobs bias the generator towards one property; everything stays possible.
type knobs struct {
	ndomLo, ndomHi             int
	docEv, keyEv, jwkEv        int // how many changes at most
	faults                     int
	kinds                      []string
	targets                    []string // prefixes
	ops                        int
	rt, at, rc, http, dump, tr int // weights
	rtMut, atMut               int // per cent of altered tokens
	polLife                    [2]time.Duration
	polPeriod                  [2]time.Duration
	keyPeriod                  [2]time.Duration
	cacheExp                   [2]time.Duration
	rules                      int // per cent
	mtls                       int
	cid                        int
	noPolicy                   int
	restart                    int
	wall                       int
	log                        int
	init                       bool // faults and cancellation during Init
	quiet                      [2]time.Duration
	trig                       int // per cent of operations triggered by responses
	collide                    int
	cross                      int // per cent of operations presenting a token as one of the other kind
	grant                      int // per cent of operations asking for what a role of the credential is allowed
	dup                        int // per cent of assertions repeated with another effect
	extraJwk                   int
	startFirst                 int
	tokExp                     int // per cent of tokens expiring during the run
	tail                       int // operations after convergence
	early                      int // per cent of runs that end before the quiet period
	manyRoles                  int
	expRT                      int
	slow, slower               int
	crowd                      int // per cent of runs with requests that arrive together
	hdr                        int // per cent of HTTP requests with a token in another place or scheme
	scn                        int // per cent of runs with a version served without validator
	lateInit                   int // per cent of runs in which the answers are only late
	twins                      int // per cent chance of each altered copy of an unaltered token
	twin                       int // per cent of runs with a second authorizer in the process
	withdrawn                  int // per cent of runs in which a token of a withdrawn key is presented again and again
	solo                       int // per cent of runs with a lasting outage of one endpoint only
	long                       int // per cent of runs with long refresh periods
	cond                       int // per cent of runs in which validators expire
}

var (
	netKinds   = []string{"hang", "delay", "drop", "temp", "status", "slowbody", "readerr", "trunc"}
	protoKinds = []string{"304", "garbage", "empty", "junk", "null", "noetag", "emptyobj", "halfobj"}
	keyKinds   = []string{"badkey", "nullkey", "null", "junk", "garbage", "trunc", "304", "empty"}
	forgeKinds = []string{"forge", "forgezms", "forgezts", "unkid", "swap", "tamper", "tamperexp", "nosig", "foreign", "noexp"}
	expKinds   = []string{"expired", "short", "stale", "malformed"}
)

func cat(l ...[]string) []string {
	var o []string
	for _, x := range l {
		o = append(o, x...)
	}
	return o
}

const sd = time.Second

func baseKnobs() knobs {
	return knobs{ndomLo: 1, ndomHi: 3, docEv: 4, keyEv: 1, jwkEv: 1, faults: 3,
		kinds:   cat(netKinds, protoKinds, keyKinds, forgeKinds, expKinds),
		targets: []string{"pol:*", "pol:", "zts", "zms", "jwk:*", "*"},
		ops:     30, rt: 5, at: 4, rc: 1, http: 2, dump: 1, tr: 0, rtMut: 15, atMut: 15,
		polLife: [2]time.Duration{20 * sd, 400 * sd}, polPeriod: [2]time.Duration{5 * sd, 30 * sd}, keyPeriod: [2]time.Duration{5 * sd, 40 * sd},
		cacheExp: [2]time.Duration{2 * sd, 20 * sd}, rules: 15, mtls: 40, cid: 15, noPolicy: 3, restart: 8, wall: 8, log: 3,
		quiet: [2]time.Duration{30 * sd, 90 * sd}, trig: 35, collide: 15, cross: 2, grant: 20, dup: 20, extraJwk: 40, startFirst: 3, tokExp: 20, tail: 8, early: 10, manyRoles: 5, expRT: 6, slow: 10, scn: 3, long: 3, solo: 4, withdrawn: 15, twins: 8, twin: 3, hdr: 3, crowd: 12}
}

func knobsFor(prof string) knobs {
	k := baseKnobs()
	switch prof {
	case "C01":
		k.docEv, k.keyEv, k.jwkEv, k.faults = 3, 0, 0, 1
		k.rt, k.at, k.rc, k.http, k.dump = 8, 2, 2, 1, 2
		k.rtMut, k.atMut, k.dup, k.quiet = 0, 0, 45, [2]time.Duration{12 * sd, 40 * sd}
		k.kinds = cat(netKinds)
		k.mtls, k.cid, k.restart, k.wall = 0, 0, 0, 0
		k.cacheExp = [2]time.Duration{sd, 4 * sd}
		k.ops, k.manyRoles = 40, 12
	case "C02":
		k.docEv, k.keyEv, k.jwkEv, k.faults = 10, 0, 0, 2
		k.rt, k.at, k.rc, k.http, k.dump = 8, 1, 2, 0, 4
		k.rtMut, k.atMut = 0, 0
		k.polLife = [2]time.Duration{8 * sd, 90 * sd}
		k.polPeriod = [2]time.Duration{5 * sd, 12 * sd}
		k.cacheExp = [2]time.Duration{sd, 3 * sd}
		k.kinds = cat(expKinds, netKinds)
		k.targets = []string{"pol:*", "pol:"}
		k.trig, k.ops, k.mtls, k.cid, k.manyRoles = 70, 45, 0, 0, 20
	case "C03":
		k.keyEv, k.faults = 3, 6
		k.kinds = cat(forgeKinds, forgeKinds, forgeKinds, []string{"stale", "noetag", "304", "halfobj", "drop"})
		k.targets = []string{"pol:*", "pol:", "pol:", "zts", "zms"}
		k.cacheExp = [2]time.Duration{sd, 4 * sd}
		k.rtMut, k.atMut, k.dump, k.trig = 0, 0, 3, 55
		k.mtls, k.cid, k.startFirst = 0, 0, 8
		k.init = true
	case "C04":
		k.polLife = [2]time.Duration{6 * sd, 60 * sd}
		k.kinds = cat(expKinds, expKinds, netKinds, []string{"304", "noetag", "garbage"})
		k.targets = []string{"pol:*", "pol:", "*"}
		k.faults, k.wall, k.cacheExp = 5, 25, [2]time.Duration{sd, 4 * sd}
		k.rtMut, k.atMut, k.tokExp, k.mtls, k.cid = 0, 0, 0, 0, 0
		k.quiet = [2]time.Duration{60 * sd, 150 * sd}
	case "C05":
		k.withdrawn = 35
		k.scn = 15
		k.faults, k.docEv, k.keyEv, k.jwkEv, k.tail, k.early = 6, 6, 2, 2, 25, 0
		k.ops, k.startFirst = 12, 10
	case "C06":
		k.solo = 35
		k.faults, k.ndomLo, k.docEv, k.keyEv = 5, 2, 3, 0
		k.kinds = cat(netKinds, netKinds, protoKinds, keyKinds, []string{"malformed", "malformed"})
		k.rtMut, k.atMut = 0, 0
		k.polLife = [2]time.Duration{40 * sd, 400 * sd}
		k.cacheExp = [2]time.Duration{sd, 3 * sd}
		k.quiet = [2]time.Duration{60 * sd, 150 * sd}
		k.tokExp, k.mtls, k.cid = 0, 20, 0
	case "C07":
		k.withdrawn = 50
		k.long = 10
		k.scn = 10
		k.keyEv, k.docEv, k.jwkEv, k.faults = 8, 1, 0, 4
		k.kinds = cat(keyKinds, keyKinds, netKinds, []string{"noetag"})
		k.targets = []string{"zts", "zms", "zts", "zms", "z*"}
		k.rt, k.at, k.rc, k.http, k.dump = 12, 0, 0, 1, 1
		k.rtMut, k.trig, k.noPolicy = 3, 60, 30
		k.keyPeriod = [2]time.Duration{5 * sd, 15 * sd}
		k.cacheExp = [2]time.Duration{sd, 2 * sd}
		k.tokExp, k.extraJwk = 5, 0
	case "C08":
		k.withdrawn = 50
		k.long = 10
		k.keyEv, k.docEv, k.jwkEv, k.faults = 0, 1, 8, 4
		k.kinds = cat(keyKinds, netKinds, netKinds)
		k.targets = []string{"jwk:*", "jwk:0", "jwk:1", "jwk:2"}
		k.rt, k.at, k.rc, k.http, k.dump = 0, 12, 0, 2, 0
		k.atMut, k.trig, k.noPolicy, k.extraJwk = 3, 55, 30, 90
		k.keyPeriod = [2]time.Duration{5 * sd, 15 * sd}
		k.cacheExp = [2]time.Duration{sd, 2 * sd}
		k.tokExp, k.mtls, k.cid = 5, 15, 0
	case "C09":
		k.twins = 55
		k.withdrawn = 30
		k.rt, k.at, k.rc, k.http, k.dump = 12, 0, 0, 2, 0
		k.rtMut, k.tokExp, k.keyEv, k.docEv, k.jwkEv, k.noPolicy = 45, 50, 3, 1, 0, 30
		k.faults, k.wall, k.targets = 2, 20, []string{"zts", "zms", "z*", "pol:*"}
	case "C10":
		k.crowd = 30
		k.twins = 55
		k.withdrawn = 30
		k.rt, k.at, k.rc, k.http, k.dump = 0, 12, 0, 3, 0
		k.atMut, k.tokExp, k.keyEv, k.docEv, k.jwkEv, k.noPolicy = 35, 50, 0, 1, 3, 30
		k.faults, k.wall, k.mtls, k.cid, k.targets = 2, 20, 65, 40, []string{"jwk:*", "pol:*"}
	case "C11":
		k.twins = 50
		k.cross, k.grant = 8, 35
		k.collide, k.cacheExp, k.docEv = 70, [2]time.Duration{2 * sd, 25 * sd}, 6
		k.rt, k.at, k.rc, k.http, k.dump, k.rules, k.noPolicy = 7, 7, 0, 3, 0, 35, 15
		k.rtMut, k.atMut, k.ops, k.tokExp, k.mtls, k.cid = 5, 5, 60, 25, 50, 30
		k.faults, k.keyEv, k.jwkEv = 1, 1, 1
		k.polPeriod = [2]time.Duration{5 * sd, 10 * sd}
	case "C12":
		k.init, k.faults, k.ops, k.trig = true, 4, 20, 20
		k.noPolicy = 15
		k.lateInit = 25
		k.quiet = [2]time.Duration{15 * sd, 40 * sd}
		k.restart = 30
		k.rtMut, k.atMut = 0, 0
	case "C13":
		k.early, k.restart, k.faults, k.init = 75, 50, 5, true
		k.quiet = [2]time.Duration{15 * sd, 90 * sd}
		k.ops, k.slow, k.slower = 12, 40, 60
		k.polLife = [2]time.Duration{8 * sd, 90 * sd}
	case "C14":
		k.long = 25
		k.faults, k.kinds = 6, cat(netKinds, netKinds, protoKinds, keyKinds, []string{"expired", "short", "forge"})
		k.quiet = [2]time.Duration{60 * sd, 160 * sd}
		k.ops, k.early, k.slow, k.manyRoles, k.expRT = 12, 0, 25, 25, 0
		k.polLife = [2]time.Duration{8 * sd, 120 * sd}
		k.startFirst = 10
	case "C15":
		k.long = 8
		k.faults, k.kinds = 7, cat(protoKinds, protoKinds, keyKinds, keyKinds, netKinds, []string{"nullpol", "nullpol", "halfobj", "emptyobj", "nosig", "noexp"})
		k.rtMut, k.atMut, k.init = 50, 50, true
		k.startFirst = 10
		k.crowd = 40
	case "C16":
		k.crowd = 40
		k.rules, k.tr, k.rt, k.at, k.http, k.rc, k.dump = 100, 12, 4, 2, 3, 0, 0
		k.ops, k.faults, k.docEv, k.rtMut, k.atMut = 60, 1, 2, 0, 0
		k.noPolicy = 0
		k.quiet = [2]time.Duration{12 * sd, 30 * sd}
		k.cacheExp = [2]time.Duration{sd, 3 * sd}
	case "C17":
		k.twins = 25
		k.cross, k.grant = 8, 30
		k.log, k.rtMut, k.atMut, k.ops = 100, 30, 30, 40
		k.faults, k.keyEv = 3, 2
		k.quiet = [2]time.Duration{15 * sd, 60 * sd}
	case "C19":
		k.quiet = [2]time.Duration{120 * sd, 300 * sd}
		k.faults, k.early, k.ops, k.grant = 7, 0, 25, 40
		k.kinds = cat(netKinds, protoKinds, keyKinds, forgeKinds, expKinds)
		k.polLife = [2]time.Duration{8 * sd, 120 * sd}
		k.manyRoles = 30
		k.expRT = 15
	case "C20":
		k.twins = 35
		k.cross, k.grant = 8, 40
		k.http, k.rt, k.at, k.rc, k.dump = 14, 2, 2, 0, 0
		k.rtMut, k.atMut, k.tokExp, k.mtls = 20, 20, 25, 50
		k.faults, k.noPolicy, k.hdr = 2, 12, 15
	case "C23":
		k.twin = 100
		k.grant, k.faults, k.restart = 30, 3, 20
		k.quiet = [2]time.Duration{15 * sd, 60 * sd}
		k.rtMut, k.atMut, k.tokExp = 3, 3, 5
		k.noPolicy, k.collide = 5, 30
	case "C24":
		k.cond = 100
		k.faults, k.docEv, k.keyEv, k.jwkEv = 3, 3, 2, 0
		k.ops, k.early, k.startFirst, k.wall, k.restart = 6, 0, 15, 15, 10
		k.quiet = [2]time.Duration{60 * sd, 240 * sd}
		k.polLife = [2]time.Duration{15 * sd, 120 * sd}
		k.polPeriod, k.keyPeriod = [2]time.Duration{2 * sd, 15 * sd}, [2]time.Duration{2 * sd, 15 * sd}
		k.noPolicy, k.expRT, k.twin = 5, 0, 0
	case "C26":
		k.ops, k.faults, k.early, k.long, k.startFirst = 45, 2, 0, 8, 5
		k.rtMut, k.atMut, k.grant, k.crowd, k.withdrawn = 35, 35, 30, 30, 10
		k.kinds = cat(netKinds, netKinds, expKinds, []string{"delay", "slowbody"})
		k.polLife = [2]time.Duration{15 * sd, 200 * sd}
		k.quiet = [2]time.Duration{60 * sd, 200 * sd}
		k.wall, k.restart, k.noPolicy, k.expRT, k.extraJwk = 2, 3, 8, 2, 60
	case "C21":
		k.rc, k.rt, k.at, k.http, k.dump = 14, 1, 0, 0, 0
		k.faults, k.docEv, k.ndomLo, k.ndomHi, k.jwkEv, k.dup = 2, 6, 1, 3, 0, 35
		k.polPeriod = [2]time.Duration{5 * sd, 12 * sd}
	}
	return k
}

type gen struct {
	*rng
	k      knobs
	p      *Plan
	nextEC int
	rsa    []int
	roles  map[string][]string
	ztsAll []PubKey
	zmsAll []PubKey
	jwkAll [][]PubKey
	marks  int
}

func (g *gen) key() int {
	if len(g.rsa) > 0 && g.p1(12) {
		k := g.rsa[0]
		g.rsa = g.rsa[1:]
		return k
	}
	g.nextEC++
	for isRSA(g.nextEC) {
		g.nextEC++
	}
	return g.nextEC
}

func (g *gen) p1(pct int) bool { return g.rng.p(pct) }

func (g *gen) rangeDur(d [2]time.Duration) time.Duration { return g.dur(d[0], d[1]) }

var (
	domSets  = [][]string{{"dom"}, {"a", "ab", "abc"}, {"c", "bc", "b"}, {"d1", "d2", "d3"}, {"sports", "sports.news", "x-y"}, {"Sports", "fin", "m"}}
	rolePool = []string{"c", "bc", "reader", "writer", "admin", "x.y", "r1", "r2", "ops", "b"}
	actPool  = []string{"read", "write", "read:x", "get", "Delete", "re", "a.b"}
	actPats  = []string{"read", "write", "*", "re*", "R?ad", "READ", "read:*", "get", "wri*e", "delete", "*e*", "a.b", "r*d", "????", "read:x"}
	resPool  = []string{"data", "data.x", "dataZ", "x:y", "y", "/path/a", "/path/b/c", "a+b", "x(1)", "db[0]", "p^q$", "m|n", "w\\z", "Data", "*lit", "q?", "日本", "x:y:z", "c:d", "data:x"}
	resPats  = []string{"data", "data.*", "data?", "*", "x:*", "y", "/path/*", "a+b", "x(1)", "db[0]", "p^q$", "m|n", "w\\z", "DATA", "da*a*", "**", "?ata", "*:y", "日*", "x:y", "/path/?", "q?", "data.x", "c:*"}
)

func (g *gen) doc(dom string) *DocSpec {
	d := &DocSpec{}
	roles := g.roles[dom]
	np := g.in(1, 4)
	var all []Assert
	for i := 0; i < np; i++ {
		var pol []Assert
		na := g.in(1, 5)
		for k := 0; k < na; k++ {
			var a Assert
			if len(all) > 0 && g.p1(g.k.dup) {
				a = all[g.n(len(all))]
				if g.p1(75) {
					if strings.EqualFold(a.Effect, "deny") {
						a.Effect = g.str("ALLOW", "allow", "")
					} else {
						a.Effect = g.str("DENY", "deny")
					}
				}
			} else {
				a = Assert{Role: dom + ":role." + roles[g.n(len(roles))], Action: actPats[g.n(len(actPats))], Effect: g.str("ALLOW", "ALLOW", "ALLOW", "allow", "DENY", "deny", "Deny")}
				rd := dom
				switch g.n(12) {
				case 0:
					rd = strings.ToUpper(dom)
				case 1:
					rd = g.str("other", dom+"x", "*", "")
				}
				if g.p1(5) { // a role of another domain: none of this document's business
					od := g.str("unknown", g.p.Cfg.Domains[g.n(len(g.p.Cfg.Domains))])
					if rs := g.roles[od]; od != dom && rs != nil {
						a.Role, rd = od+":role."+rs[g.n(len(rs))], od
					} else if rs == nil {
						a.Role, rd = od+":role."+g.str("c", "reader"), od
					}
				}
				a.Resource = rd + ":" + resPats[g.n(len(resPats))]
				if g.p1(4) { // the commas of a naive composite key
					a.Action, a.Resource = "re,"+a.Action, dom+":x"
				}
			}
			pol = append(pol, a)
			all = append(all, a)
		}
		d.Policies = append(d.Policies, pol)
	}
	// each version allows its own marker to everybody: a decision on a marker names the version
	g.marks++
	var pol []Assert
	for _, r := range roles {
		if g.p1(70) {
			pol = append(pol, Assert{dom + ":role." + r, "probe", dom + ":" + fmt.Sprintf("m%d", g.n(4)), "ALLOW"})
		}
		if g.p1(15) {
			pol = append(pol, Assert{dom + ":role." + r, "probe", dom + ":" + fmt.Sprintf("m%d", g.n(4)), "DENY"})
		}
	}
	if g.p1(g.k.manyRoles) {
		for i := 0; i < g.in(10, 40); i++ {
			e := "ALLOW"
			if g.p1(8) {
				e = "DENY"
			}
			pol = append(pol, Assert{fmt.Sprintf("%s:role.bulk%d", dom, i), "*", dom + ":*", e})
		}
	}
	if g.p1(g.k.manyRoles) { // one role with many assertions
		r := dom + ":role." + roles[g.n(len(roles))]
		var bulk []Assert
		for i, n := 0, g.in(10, 80); i < n; i++ {
			bulk = append(bulk, Assert{r, fmt.Sprintf("bulk%d", i), dom + ":data", g.str("ALLOW", "ALLOW", "DENY")})
		}
		d.Policies = append([][]Assert{bulk}, d.Policies...)
	}
	if g.p1(80) {
		d.Policies = append(d.Policies, pol)
	}
	if g.p1(3) {
		d.Policies = nil
	}
	return d
}

func (g *gen) subsetRoles(rs []string) []string {
	var o []string
	for _, i := range g.perm(len(rs)) {
		if g.p1(60) {
			o = append(o, rs[i])
		}
	}
	if len(o) == 0 {
		o = []string{rs[g.n(len(rs))]}
	}
	if g.p1(5) {
		o = append(o, o[0])
	}
	if g.p1(g.k.manyRoles / 2) {
		for i, n := 0, g.in(4, 30); i < n; i++ {
			o = append(o, fmt.Sprintf("bulk%d", i))
		}
		mixed := make([]string, len(o))
		for i, k := range g.perm(len(o)) {
			mixed[i] = o[k]
		}
		o = mixed
	}
	return o
}

func genPlan(prof string, seed uint64) *Plan {
	if prof == "C18" {
		return genRT(prof, seed)
	}
	if prof == "C25" { // a run of any other kind, watched by the race detector
		r := newRng(seed, "plan"+prof)
		p := genPlan([]string{"C01", "C02", "C03", "C05", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C15", "C16", "C16", "C17", "C18", "C20", "C20", "C21", "C23", "C23", "C24", "C26"}[r.n(24)], mix(seed))
		if r.p(15) {
			p.Cfg.Log = true
		}
		return p
	}
	r := newRng(seed, "plan"+prof)
	g := &gen{rng: r, k: knobsFor(prof), p: &Plan{Profile: prof, Seed: seed}, rsa: []int{4, 9, 14, 19}, roles: map[string][]string{}}
	k := &g.k
	p := g.p
	c := &p.Cfg

	// one run in eight is without any fault, so that nothing is excused
	if g.p1(12) {
		k.faults = 0
	}

	set := domSets[g.n(len(domSets))]
	nd := g.in(k.ndomLo, k.ndomHi)
	for len(set) < nd {
		set = domSets[g.n(len(domSets))]
	}
	for _, i := range g.perm(len(set))[:nd] {
		c.Domains = append(c.Domains, set[i])
	}
	for _, d := range c.Domains {
		n := g.in(2, 5)
		for _, i := range g.perm(len(rolePool))[:n] {
			g.roles[d] = append(g.roles[d], rolePool[i])
		}
	}
	c.SysAuth = g.str("sys.auth", "sys.auth", "my.auth")
	c.CacheExp = g.rangeDur(k.cacheExp)
	c.PolPeriod = g.rangeDur(k.polPeriod)
	c.PubPeriod = g.rangeDur(k.keyPeriod)
	c.JwkPeriod = g.rangeDur(k.keyPeriod)
	c.PolRetry, c.PubRetry, c.JwkRetry = g.dur(200*time.Millisecond, 5*sd), g.dur(200*time.Millisecond, 5*sd), g.dur(200*time.Millisecond, 5*sd)
	c.PolTries = g.n(4)
	c.Timeout = g.dur(sd, 5*sd)
	c.PolLife = g.rangeDur(k.polLife)
	c.PolMargin = g.durs(0, sd, 3*sd, 10*sd, 20*sd)
	c.PolPurge = g.dur(3*sd, 20*sd)
	c.PubETag = g.dur(5*sd, 120*sd)
	c.PubPurge = g.dur(5*sd, 40*sd)
	if k.cond > 0 && g.p1(k.cond) {
		c.PubETag = g.durs(g.dur(sd, 60*sd), g.dur(5*sd, 30*sd), 10*time.Minute)
		c.PolMargin = g.durs(0, sd, g.dur(sd, c.PolLife), c.PolLife/2, c.PolLife, 2*c.PolLife)
		c.PubPurge = g.durs(c.PubPurge, 10*time.Minute)
	}
	c.Reissue = g.durs(0, sd, c.PolLife/4, c.PolLife/2, c.PolLife)
	c.ETagMode = g.str("content", "content", "issue", "none")
	c.LatMin = g.dur(2*time.Millisecond, 30*time.Millisecond)
	c.LatMax = c.LatMin + g.durs(0, 5*time.Millisecond, 200*time.Millisecond, 700*time.Millisecond)
	c.Chunk = []int{0, 0, 0, 64, 511}[g.n(5)]
	c.Skew = g.durs(0, 0, 0, 0, c.PolLife/10, -c.PolLife/10, 3*sd, -3*sd).Truncate(time.Millisecond)
	c.InitTries = g.in(1, 4)
	if !k.init {
		c.InitTries = 6
	}
	c.RT = k.rt+k.http > 0
	c.AT = k.at+k.http > 0
	c.RC = g.p1(50)
	if c.RT && c.AT && g.p1(10) {
		if g.p1(50) {
			c.RT = false
		} else {
			c.AT = false
		}
	}
	c.NoPolicy = g.p1(k.noPolicy)
	if !c.AT && g.p1(50) {
		c.NoJwk = true
	}
	if k.rt == 0 && k.http == 0 && c.NoPolicy {
		c.NoPubkey, c.RT = g.p1(50), false
	}
	if prof == "C08" && g.p1(50) {
		c.RT = false
	}
	if c.NoPolicy && !c.RT && g.p1(60) {
		c.NoPubkey = true
	}
	if !c.RT && !c.AT {
		c.RC = true
	}
	c.RTHeader = g.str("", "", "X-Role", "x-app-role")
	c.RCPrefix = g.str("", "", "spiffe://role/", "athenz://role/")
	c.MTLS = g.p1(k.mtls)
	c.Backdate = g.durs(0, 0, time.Hour, 10*sd)
	c.Offset = g.durs(0, 60*sd, time.Hour, 10*sd)
	c.VerifyCID = g.p1(k.cid)
	c.Prefix = g.str("", "", "", "pre", "/path")
	if c.NoPolicy {
		c.Prefix = ""
	}
	c.Log = g.p1(k.log)
	c.ExpRT = g.p1(k.expRT)
	c.AltSpell = g.p1(20)
	if g.p1(k.slow) {
		c.SlowDrain = g.dur(5*time.Millisecond, 60*time.Millisecond)
		if g.p1(k.slower) {
			c.SlowDrain = g.dur(200*time.Millisecond, 2*sd)
		}
	}
	c.StartFirst = g.p1(k.startFirst)
	if k.init && g.p1(30) {
		c.InitCancel = int64(g.dur(time.Millisecond, 4*sd))
	}
	// key material
	ids := []string{"0", "1", "zts.0", "k-2"}
	for i, n := 0, g.in(1, 3); i < n; i++ {
		p.Init.Zts = append(p.Init.Zts, PubKey{ids[i], g.key()})
	}
	for i, n := 0, g.in(1, 3); i < n; i++ {
		p.Init.Zms = append(p.Init.Zms, PubKey{ids[i], g.key()})
	}
	p.Init.ZtsSig = p.Init.Zts[g.n(len(p.Init.Zts))]
	p.Init.ZmsSig = p.Init.Zms[g.n(len(p.Init.Zms))]
	nj := 1
	if g.p1(k.extraJwk) {
		nj += g.in(1, 2)
		c.JwkURLs = append(c.JwkURLs, []string{"https://idp1.sim/keys", "https://" + athenzHost + "/oauth2/keys"}[:nj-1]...)
		c.JwkOwnIn = g.p1(30)
	}
	jids := []string{"0", "j1", "zts.0"}
	for s := 0; s < nj; s++ {
		var ks []PubKey
		for i, n := 0, g.in(1, 3); i < n; i++ {
			ks = append(ks, PubKey{jids[i], g.key()})
		}
		p.Init.Jwks = append(p.Init.Jwks, ks)
		g.jwkAll = append(g.jwkAll, append([]PubKey(nil), ks...))
	}
	g.ztsAll = append(g.ztsAll, p.Init.Zts...)
	g.zmsAll = append(g.zmsAll, p.Init.Zms...)
	p.Init.Docs = map[string]*DocSpec{}
	for _, d := range c.Domains {
		p.Init.Docs[d] = g.doc(d)
	}
	if g.p1(k.rules) && !c.NoPolicy || prof == "C16" {
		g.rules()
	}
	p.Quiet = int64(g.rangeDur(k.quiet))
	if g.p1(k.long) {
		g.longPeriod()
	}
	if p.Quiet < int64(4*c.PolPeriod) && g.p1(50) {
		p.Quiet = int64(4 * c.PolPeriod)
	}
	g.events()
	g.faultsGen()
	if g.p1(k.scn) {
		g.unvalidated()
	}
	if g.p1(k.solo) {
		g.soloOutage()
	}
	g.creds()
	g.finish()
	g.ops()
	if g.p1(k.withdrawn) {
		g.keyProbes()
	}
	if g.p1(k.twin) {
		g.twin()
	}
	if p.End <= p.Quiet { // cut short: nothing happens to the world after the end
		var ev []Event
		for _, e := range p.Events {
			if e.At < p.Quiet {
				ev = append(ev, e)
			}
		}
		p.Events = ev
		for i := range p.Ops {
			if o := &p.Ops[i]; o.On == "" && o.At > p.End {
				o.At = int64(g.dur(time.Millisecond, time.Duration(p.End)))
			}
		}
	}
	return p
}

func (g *gen) evTime() int64 {
	return int64(g.dur(time.Millisecond, time.Duration(g.p.Quiet)-sd))
}

func (g *gen) when(e *Event, targets ...string) {
	if g.p1(25) && len(targets) > 0 {
		e.On, e.Nth = targets[g.n(len(targets))], g.in(2, 12)
		return
	}
	e.At = g.evTime()
}

func (g *gen) events() {
	p, k, c := g.p, &g.k, &g.p.Cfg
	for i, n := 0, g.n(k.docEv+1); i < n; i++ {
		d := c.Domains[g.n(len(c.Domains))]
		e := Event{Kind: "doc", Dom: d, Doc: g.doc(d)}
		if g.p1(30) { // back to an earlier version
			old := []*DocSpec{p.Init.Docs[d]}
			for _, x := range p.Events {
				if x.Kind == "doc" && x.Dom == d {
					old = append(old, x.Doc)
				}
			}
			e.Doc = old[g.n(len(old))]
		}
		g.when(&e, "pol:"+d)
		p.Events = append(p.Events, e)
	}
	// key rotations: publish, switch the signer, withdraw; in that order in
	// most runs so that the servers stay consistent
	rotate := func(svc string, cur []PubKey, all *[]PubKey, n int) {
		if n == 0 {
			return
		}
		var ts []int64
		for i := 0; i < 3*n; i++ {
			ts = append(ts, g.evTime())
		}
		sort.Slice(ts, func(a, b int) bool { return ts[a] < ts[b] })
		sig := p.Init.ZtsSig
		if svc == "zms" {
			sig = p.Init.ZmsSig
		}
		for i := 0; i < n; i++ {
			nk := PubKey{fmt.Sprintf("n%d", i+1), g.key()}
			if g.p1(30) {
				nk.ID = g.str("0", "1", "zts.0")
			}
			*all = append(*all, nk)
			var next []PubKey
			for _, x := range cur {
				if x.ID != nk.ID {
					next = append(next, x)
				}
			}
			at := g.n(len(next) + 1)
			next = append(append(append([]PubKey(nil), next[:at]...), nk), next[at:]...)
			p.Events = append(p.Events, Event{At: ts[3*i], Kind: svc, Keys: next})
			cur = next
			replaced := !hasKey(cur, sig.ID, sig.Key)
			if replaced || g.p1(60) {
				t := ts[3*i+1]
				if replaced {
					t = ts[3*i]
				}
				sig = nk
				p.Events = append(p.Events, Event{At: t, Kind: svc + "sig", Keys: []PubKey{nk}})
			}
			if g.p1(60) && len(cur) > 1 {
				var next []PubKey
				rm := g.n(len(cur))
				for x, y := range cur {
					if x != rm || y == sig {
						next = append(next, y)
					}
				}
				cur = next
				p.Events = append(p.Events, Event{At: ts[3*i+2], Kind: svc, Keys: next})
			}
		}
	}
	nz, nm := g.n(k.keyEv+1)/2, g.n(k.keyEv+1)/2
	if k.keyEv == 1 && g.p1(40) {
		nz = 1
	}
	rotate("zts", p.Init.Zts, &g.ztsAll, nz)
	rotate("zms", p.Init.Zms, &g.zmsAll, nm)
	for i, n := 0, g.n(k.jwkEv+1); i < n; i++ {
		s := g.n(len(p.Init.Jwks))
		var ks []PubKey
		seen := map[string]bool{}
		for _, x := range g.jwkAll[s] {
			if !seen[x.ID] && g.p1(55) {
				ks = append(ks, x)
				seen[x.ID] = true
			}
		}
		if g.p1(70) || len(ks) == 0 {
			nk := PubKey{g.str("0", "j1", "zts.0", "n1", "n2"), g.key()}
			if !seen[nk.ID] {
				ks = append(ks, nk)
				g.jwkAll[s] = append(g.jwkAll[s], nk)
			}
		}
		if g.p1(7) {
			ks = nil
		}
		e := Event{Kind: "jwks", Src: s, Keys: ks}
		g.when(&e, fmt.Sprintf("jwk:%d", s))
		p.Events = append(p.Events, e)
	}
	if g.p1(k.wall) {
		for i, n := 0, g.in(1, 2); i < n; i++ {
			p.Events = append(p.Events, Event{At: g.evTime(), Kind: "wall", D: int64(g.durs(g.dur(time.Millisecond, sd), g.dur(sd, 30*sd), c.PolLife/5))})
		}
	}
	if g.p1(k.restart) {
		for i, n := 0, g.in(1, 2); i < n; i++ {
			p.Events = append(p.Events, Event{At: g.evTime(), Kind: "restart"})
		}
	}
	sort.SliceStable(p.Events, func(i, j int) bool { return p.Events[i].At < p.Events[j].At })
}

// longPeriod makes one refresh period long, with an outage around its end.
func (g *gen) longPeriod() {
	p, c := g.p, &g.p.Cfg
	per, t := &c.PolPeriod, "pol:*"
	switch g.n(5) {
	case 0, 1:
		per, t = &c.PubPeriod, g.str("zts", "zms", "z*")
	case 2:
		if c.AT {
			per, t = &c.JwkPeriod, "jwk:*"
		}
	}
	if t == "pol:*" {
		c.StartFirst = g.p1(60)
	}
	*per = g.dur(60*sd, 150*sd)
	if p.Quiet < int64(*per+60*sd) {
		p.Quiet = int64(*per + g.dur(60*sd, 120*sd))
	}
	from := int64(0)
	if !c.StartFirst {
		from = int64(*per) - int64(g.dur(0, 5*sd))
	}
	f := Fault{Target: t, Kind: g.str("status", "drop", "temp", "readerr", "garbage"), P: 100, Arg: 503, From: from, To: int64(*per + g.dur(5*sd, 45*sd))}
	p.Faults = append(p.Faults, f)
}

// soloOutage makes one endpoint fail for most of the run while another changes.
func (g *gen) soloOutage() {
	p, c := g.p, &g.p.Cfg
	var pols, jwks []string
	for _, d := range c.Domains {
		pols = append(pols, "pol:"+d)
	}
	for i := range p.Init.Jwks {
		jwks = append(jwks, fmt.Sprintf("jwk:%d", i))
	}
	eps := pols
	switch {
	case g.p1(20):
		eps = []string{"zts", "zms"}
	case len(jwks) > 1 && c.AT && g.p1(30) || len(pols) < 2:
		eps = jwks
	}
	if len(eps) < 2 {
		return
	}
	perm := g.perm(len(eps))
	bad, good := eps[perm[0]], eps[perm[1]]
	f := Fault{Target: bad, P: 100, Arg: int64([]int{503, 404, 500, 401, 599}[g.n(5)])}
	switch {
	case keyTarget(bad):
		f.Kind = g.str("status", "drop", "temp", "hang", "readerr", "garbage", "trunc", "badkey", "null")
	case g.p1(30):
		f.Kind = g.str("forge", "forgezms", "unkid", "tamper", "nosig", "expired", "noexp", "emptyobj", "malformed", "malformed")
	default:
		f.Kind = g.str("status", "status", "drop", "temp", "hang", "readerr", "garbage", "trunc", "junk", "empty")
	}
	period := map[byte]time.Duration{'p': c.PolPeriod, 'z': c.PubPeriod, 'j': c.JwkPeriod}[bad[0]]
	f.From = int64(g.dur(0, 2*period))
	if g.p1(80) && c.InitCancel == 0 {
		c.StartFirst, c.InitTries = false, 3
		f.From += int64(20 * sd)
	}
	var ev []Event
	for _, e := range p.Events {
		if e.Kind == "wall" || e.On == "" && e.Kind != "restart" {
			ev = append(ev, e)
		}
	}
	t := f.From + int64(g.dur(time.Millisecond, 3*period))
	e := Event{At: t}
	switch {
	case good[0] == 'p':
		e.Kind, e.Dom = "doc", good[4:]
		e.Doc = g.doc(e.Dom)
	case good[0] == 'j':
		s := int(good[4] - '0')
		nk := PubKey{"solo", g.key()}
		g.jwkAll[s] = append(g.jwkAll[s], nk)
		e.Kind, e.Src, e.Keys = "jwks", s, append(append([]PubKey(nil), p.Init.Jwks[s]...), nk)
	default:
		all, cur := &g.ztsAll, p.Init.Zts
		if good == "zms" {
			all, cur = &g.zmsAll, p.Init.Zms
		}
		nk := PubKey{"solo", g.key()}
		*all = append(*all, nk)
		e.Kind = good
		for _, x := range ev {
			if x.Kind == good && x.At < t {
				cur = x.Keys
			}
		}
		e.Keys = append(append([]PubKey(nil), cur...), nk)
	}
	p.Events = []Event{e}
	for _, x := range ev {
		if x.At < t || !strings.HasPrefix(x.Kind, e.Kind) || x.Dom != e.Dom || x.Src != e.Src { // nothing undoes it
			p.Events = append(p.Events, x)
		}
	}
	sort.SliceStable(p.Events, func(i, j int) bool { return p.Events[i].At < p.Events[j].At })
	u := time.Duration(c.tries()+1) * (c.PolRetry + c.Timeout)
	if q := t + int64(3*period+3*u+g.dur(20*sd, 60*sd)); p.Quiet < q {
		p.Quiet = q
	}
	f.To = p.Quiet
	p.Faults = []Fault{f}
}

// unvalidated: a version served without validator, then back to the one before.
func (g *gen) unvalidated() {
	p, c := g.p, &g.p.Cfg
	c.ETagMode = "content"
	t1 := g.evTime()
	per := c.PolPeriod
	f := Fault{Kind: "noetag", P: 100}
	if g.p1(60) || g.k.docEv == 1 && g.k.keyEv > 1 {
		per = c.PubPeriod
		svc, cur, all := "zts", p.Init.Zts, &g.ztsAll
		if g.p1(30) {
			svc, cur, all = "zms", p.Init.Zms, &g.zmsAll
		}
		if g.k.docEv > 1 && g.k.docEv >= g.k.keyEv {
			svc = ""
		}
		if svc != "" {
			c.PubETag += 60 * sd
			nk := PubKey{"nv", g.key()}
			*all = append(*all, nk)
			f.Target = svc
			var ev []Event
			for _, e := range p.Events {
				if !strings.HasPrefix(e.Kind, svc) {
					ev = append(ev, e)
				}
			}
			p.Events = append(ev, Event{At: t1, Kind: svc, Keys: append(append([]PubKey(nil), cur...), nk)})
			t2 := t1 + int64(g.dur(per, 2*per))
			f.From, f.To = t1, t2
			p.Events = append(p.Events, Event{At: t2, Kind: svc, Keys: cur})
			if p.Quiet <= t2 {
				p.Quiet = t2 + int64(g.dur(time.Millisecond, 5*sd))
			}
		}
	}
	if f.Target == "" {
		d := c.Domains[g.n(len(c.Domains))]
		per = c.PolPeriod
		f.Target = "pol:" + d
		c.PolLife += 200 * sd
		last := p.Init.Docs[d]
		for _, e := range p.Events {
			if e.Kind == "doc" && e.Dom == d && e.On == "" && e.At <= t1 {
				last = e.Doc
			}
		}
		var ev []Event
		for _, e := range p.Events {
			if e.Kind != "doc" || e.Dom != d || e.On == "" && e.At < t1 {
				ev = append(ev, e)
			}
		}
		t2 := t1 + int64(g.dur(per, 2*per))
		f.From, f.To = t1, t2
		p.Events = append(ev, Event{At: t1, Kind: "doc", Dom: d, Doc: g.doc(d)}, Event{At: t2, Kind: "doc", Dom: d, Doc: last})
		if p.Quiet <= t2 {
			p.Quiet = t2 + int64(g.dur(time.Millisecond, 5*sd))
		}
	}
	p.Faults = append(p.Faults, f)
	sort.SliceStable(p.Events, func(i, j int) bool { return p.Events[i].At < p.Events[j].At })
}

// twin puts a second authorizer into the process.
func (g *gen) twin() {
	p := g.p
	t := &TwinPlan{Period: g.dur(2*sd, 12*sd), Cache: g.dur(500*time.Millisecond, 4*sd)}
	c := &p.Cfg
	t.Retry, t.CID = g.dur(100*time.Millisecond, sd), g.p1(30)
	if g.p1(40) { // configured alike
		t.Period, t.Cache, t.Retry, t.CID = c.PolPeriod, c.CacheExp, c.PolRetry, c.VerifyCID
	}
	end := p.End
	if p.Quiet < end && g.p1(50) {
		end = p.Quiet
	}
	if end < int64(100*time.Millisecond) {
		return
	}
	t.At = int64(g.durs(0, g.dur(0, 200*time.Millisecond), g.dur(0, time.Duration(end/2))))
	t.Down = g.p1(12)
	if g.p1(35) {
		t.Stop = t.At + int64(g.dur(time.Millisecond, time.Duration(end-t.At)))
	}
	if g.p1(50) && !t.Down {
		t.Change = t.At + int64(g.dur(time.Millisecond, time.Duration(end-t.At)))
	}
	for i, n := 0, g.in(6, 18); i < n; i++ {
		o := TwinOp{At: t.At + int64(g.dur(time.Millisecond, time.Duration(end-t.At))), Kind: g.str("own", "own", "own", "foreign", "dump", "cert"), Tok: g.n(4), Res: g.str("data", "x:y", "m0"), Cross: g.p1(50)}
		if i > 0 && g.p1(30) {
			o.At = t.Ops[i-1].At + int64(g.durs(0, time.Millisecond, t.Cache/2, t.Cache))
		}
		t.Ops = append(t.Ops, o)
	}
	p.Twin = t
}

// keyProbes presents, again and again, a sound token of a key that is withdrawn
// in the course of the run.
func (g *gen) keyProbes() {
	p, c := g.p, &g.p.Cfg
	type gone struct {
		k   PubKey
		src int // -1: zts
		at  int64
	}
	var l []gone
	cur := map[int][]PubKey{-1: p.Init.Zts}
	for i, ks := range p.Init.Jwks {
		cur[i] = ks
	}
	for _, e := range p.Events {
		src := e.Src
		switch {
		case e.On != "":
			continue
		case e.Kind == "zts" && c.RT:
			src = -1
		case e.Kind == "jwks" && c.AT && src < len(p.Init.Jwks):
		default:
			continue
		}
		for _, x := range cur[src] {
			if !hasKey(e.Keys, x.ID, x.Key) {
				l = append(l, gone{x, src, e.At})
			}
		}
		cur[src] = e.Keys
	}
	if len(l) == 0 {
		return
	}
	x := l[g.n(len(l))]
	d := c.Domains[g.n(len(c.Domains))]
	var o Op
	per := c.JwkPeriod
	if x.src < 0 {
		per = c.PubPeriod
		o = Op{Kind: "rt", RT: len(p.RTs), AT: -1}
		p.RTs = append(p.RTs, RTSpec{Dom: d, Roles: g.roles[d], Name: "user.k", Exp: 100000 + int64(g.n(1000)), KeyID: x.k.ID, Key: x.k.Key})
	} else {
		o = Op{Kind: "at", RT: -1, AT: len(p.ATs)}
		t := ATSpec{Aud: d, Scp: g.roles[d], Sub: "user.k", Cid: "svc.a", Exp: 100000 + int64(g.n(1000)), Kid: x.k.ID, Key: x.k.Key, Thumb: g.n(len(p.Certs)), Iat: p.Certs[0].NotBefore}
		t.Cid, t.Iat = p.Certs[t.Thumb].CN, p.Certs[t.Thumb].NotBefore+1
		o.Certs = []int{t.Thumb}
		if x.src > 0 {
			t.Jku = c.JwkURLs[x.src-1]
		}
		p.ATs = append(p.ATs, t)
	}
	for i, n := 0, g.in(3, 8); i < n; i++ {
		q := o
		q.Verify = g.p1(60)
		q.Act, q.Res = actPool[g.n(len(actPool))], resPool[g.n(len(resPool))]
		if !q.Verify && g.p1(60) && c.Rules == nil {
			g.grantable(&q)
			q.Kind, q.RT, q.AT, q.Certs = o.Kind, o.RT, o.AT, o.Certs
		}
		q.At = x.at + int64(g.durs(g.dur(time.Millisecond, 2*per), g.dur(per, 6*per), g.dur(time.Millisecond, time.Duration(p.Quiet))))
		p.Ops = append(p.Ops, q)
	}
}

func (g *gen) target() string {
	t := g.k.targets[g.n(len(g.k.targets))]
	if t == "pol:" {
		t += g.p.Cfg.Domains[g.n(len(g.p.Cfg.Domains))]
	}
	return t
}

func keyTarget(t string) bool { return t[0] == 'z' || t[0] == 'j' }

func (g *gen) faultsGen() {
	p, k := g.p, &g.k
	n := 0
	if k.faults > 0 {
		n = g.in(1, k.faults)
	}
	// swarm: only some kinds in any one run
	var kinds []string
	for len(kinds) == 0 {
		for _, x := range k.kinds {
			if g.p1(45) {
				kinds = append(kinds, x)
			}
		}
	}
	if k.lateInit > 0 && g.p1(k.lateInit) { // nothing wrong but the order in which the answers arrive
		p.Cfg.InitCancel = 0
		for _, t := range []string{"z*", "zts", "zms", "jwk:*", "pol:*", "pol:" + p.Cfg.Domains[0]} {
			if g.p1(45) {
				p.Faults = append(p.Faults, Fault{Target: t, Kind: g.str("delay", "delay", "slowbody"), P: 100, To: int64(30 * sd), Arg: int64(g.durs(g.dur(10*time.Millisecond, sd), g.dur(sd, 2*sd), p.Cfg.Timeout-5*time.Millisecond-p.Cfg.LatMax))})
			}
		}
		return
	}
	for i := 0; i < n; i++ {
		f := Fault{Target: g.target(), Kind: kinds[g.n(len(kinds))], P: []int{15, 40, 70, 100, 100}[g.n(5)]}
		if keyTarget(f.Target) {
			for _, l := range [][]string{forgeKinds, expKinds, {"nullpol", "emptyobj", "halfobj"}} {
				for _, x := range l {
					if f.Kind == x {
						f.Kind = keyKinds[g.n(len(keyKinds))]
					}
				}
			}
		} else if f.Kind == "badkey" || f.Kind == "nullkey" {
			if strings.HasPrefix(f.Target, "pol") {
				f.Kind = "garbage"
			}
		}
		f.From = g.evTime()
		if k.init && g.p1(60) {
			f.From = 0
		}
		d := int64(g.durs(g.dur(time.Millisecond, 2*sd), g.dur(2*sd, 15*sd), g.dur(15*sd, 60*sd), g.dur(30*sd, 150*sd)))
		f.To = f.From + d
		if f.To > p.Quiet {
			f.To = p.Quiet
		}
		if g.p1(30) {
			f.Max = g.in(1, 3)
		}
		switch f.Kind {
		case "delay", "slowbody":
			f.Arg = int64(g.durs(g.dur(10*time.Millisecond, sd), g.dur(sd, 6*sd), p.Cfg.Timeout-5*time.Millisecond))
		case "status":
			f.Arg = int64([]int{400, 401, 403, 404, 429, 500, 502, 503, 504, 204, 206, 302, 201, 599}[g.n(14)])
		case "short":
			f.Arg = int64(g.durs(g.dur(time.Millisecond, 2*sd), g.dur(2*sd, 20*sd)))
		}
		p.Faults = append(p.Faults, f)
	}
}

var rtMuts = []string{"nosig", "emptysig", "flipsig", "flipbody", "role", "exp", "append", "prepend", "evilkey", "trunc", "badexp", "nokv", "sigtail", "empty", "garbage", "nullexp", "space", "semis", "semi0", "case", "sigspace"}
var proxies = []string{"spiffe://p/one", "spiffe://p/two", "spiffe://p/one2", "spiffe://p/one/two", "spiffe://p/On", "spiffe://p", "spiffe://p/one?x=1"}
var atMuts = []string{"evilkey", "none", "hs256", "nokid", "kidnum", "jkunum", "jkunull", "cnfnum", "cnfnull", "expstr", "algswap", "flipsig", "claims", "exp", "twoparts", "trunc", "empty", "garbage", "nullclaims", "nullheader"}

// nearly returns something easily taken for s.
func (g *gen) nearly(s string) string {
	switch g.n(9) {
	case 0:
		return s + "/"
	case 1:
		return s + "/../keys"
	case 2:
		return s + "#x"
	case 3:
		return strings.ToUpper(s)
	case 4:
		if i := strings.IndexAny(s, "?"); i > 0 {
			return s[:i]
		}
		return s + "?x=1"
	case 5:
		return strings.Replace(s, ".sim/", ".sim:443/", 1)
	case 6:
		return " " + s
	case 7:
		return s[:len(s)-1]
	}
	return s + g.str("0", "&x=1", " ", "2")
}

func (g *gen) creds() {
	p, k, c := g.p, &g.k, &g.p.Cfg
	horizon := p.Quiet/1e9 + 60
	exp := func() int64 {
		if g.p1(k.tokExp) {
			return int64(g.in(-5, int(horizon)))
		}
		return 100000 + int64(g.n(1000))
	}
	dom := func() string {
		if g.p1(4) {
			return g.str("unknown", strings.ToUpper(c.Domains[0]))
		}
		return c.Domains[g.n(len(c.Domains))]
	}
	rolesOf := func(d string) []string {
		rs := g.roles[d]
		if rs == nil {
			rs = []string{"c", "reader"}
		}
		o := g.subsetRoles(rs)
		if g.p1(8) {
			o = append(o, "nosuch")
		}
		if g.p1(4) {
			o[0] = g.nearly(o[0])
		}
		return o
	}
	cns := []string{"svc.a", "svc.b", "ca", "x:y", "y", ""}
	issuers := []string{"ca", "ca:x", "root"}
	nc := g.in(2, 5)
	for i := 0; i < nc; i++ {
		cs := CertSpec{CN: cns[g.n(len(cns))], Issuer: issuers[g.n(len(issuers))], NotBefore: -int64(g.in(0, 4000)), Serial: i}
		if g.p1(20) {
			cs.NotBefore = int64(g.in(0, 100))
		}
		prefix := c.RCPrefix
		if prefix == "" {
			prefix = "athenz://role/"
		}
		if g.p1(60) || k.rc > 5 {
			if g.p1(50) {
				d := dom()
				cs.CN = d + ":role." + rolesOf(d)[0]
			}
			for _, d := range c.Domains {
				if !g.p1(65) {
					continue
				}
				for _, r := range rolesOf(d) {
					cs.URIs = append(cs.URIs, prefix+d+"/"+r)
				}
			}
			for _, a := range g.perm(len(cs.URIs)) {
				if g.p1(30) {
					cs.URIs[0], cs.URIs[a] = cs.URIs[a], cs.URIs[0]
				}
			}
			if g.p1(15) {
				cs.URIs = append(cs.URIs, prefix+"norole", "https://role/"+c.Domains[0]+"/admin")
			}
		}
		if g.p1(30) {
			for ok := true; ok; ok = g.p1(25) {
				cs.URIs = append(cs.URIs, proxies[g.n(len(proxies))])
			}
		}
		p.Certs = append(p.Certs, cs)
	}
	// a renewal: the same client, another certificate
	if g.p1(50) {
		cs := p.Certs[0]
		cs.Serial, cs.NotBefore = 50, cs.NotBefore+int64(g.in(-100, 4000))
		p.Certs = append(p.Certs, cs)
	}
	if c.VerifyCID {
		c.CIDs = map[string][]string{}
		for _, x := range p.Certs {
			if g.p1(75) {
				cn, id := x.CN, g.str("svc.a", "svc.b", "cid")
				if g.p1(12) {
					id = g.str(strings.ToUpper(id), id+".x", "x"+id, id+" ", id[1:], "*", "svc.*")
				}
				if g.p1(8) {
					cn = g.str(strings.ToUpper(cn), cn+".x", "*", "")
				}
				c.CIDs[cn] = []string{id, "zz"}
			}
		}
	}
	n := 0
	if k.rt+k.http > 0 {
		n = g.in(3, 6)
	}
	for i := 0; i < n; i++ {
		d := dom()
		t := RTSpec{Dom: d, Roles: rolesOf(d), Name: g.str("user.a", "user.b", d+".svc"), Iat: -int64(g.in(0, 3600)), Exp: exp()}
		ks := g.ztsAll
		ky := ks[g.n(len(ks))]
		if g.p1(50) {
			ky = p.Init.ZtsSig
		}
		if g.p1(6) && len(g.zmsAll) > 0 {
			ky = g.zmsAll[g.n(len(g.zmsAll))]
		}
		t.KeyID, t.Key = ky.ID, ky.Key
		if g.p1(4) {
			t.KeyID = "nokey"
		}
		if g.p1(2) {
			t.KeyID = g.nearly(t.KeyID)
		}
		if g.p1(k.rtMut) {
			t.Mut, t.Arg = rtMuts[g.n(len(rtMuts))], g.n(1000)
		}
		p.RTs = append(p.RTs, t)
	}
	for len(p.RTs) > 0 && len(p.RTs) < 9 && g.p1(k.twins) { // an altered copy of an unaltered token
		if t := p.RTs[g.n(len(p.RTs))]; t.Mut == "" {
			t.Mut, t.Arg = rtMuts[g.n(len(rtMuts))], g.n(1000)
			p.RTs = append(p.RTs, t)
		}
	}
	if c.AT && k.at+k.http > 0 {
		for i, n := 0, g.in(3, 6); i < n; i++ {
			d := dom()
			t := ATSpec{Aud: d, Scp: rolesOf(d), Sub: g.str("user.a", "user.b", d+".svc"), Cid: g.str("svc.a", "svc.b", "cid", "ca"), Iat: -int64(g.in(0, 3000)), Exp: exp(), Thumb: -1}
			if c.NoPolicy && g.p1(30) {
				t.Scp = []string{}
			}
			if g.p1(3) {
				t.Sub = ""
			}
			src := 0
			if len(g.jwkAll) > 1 && g.p1(55) {
				src = g.n(len(g.jwkAll))
			}
			ky := g.jwkAll[src][g.n(len(g.jwkAll[src]))]
			t.Kid, t.Key = ky.ID, ky.Key
			srcs := append([]string{"https://" + athenzHost + "/oauth2/keys?rfc=true"}, c.JwkURLs...)
			if src > 0 || g.p1(20) {
				t.Jku = srcs[src]
			}
			if g.p1(5) { // a key of one source presented under another
				t.Jku = append(srcs, "https://evil.sim/keys", "")[g.n(len(srcs)+2)]
			}
			if g.p1(7) { // nearly the address of a source
				t.Jku = g.nearly(srcs[src])
			}
			if g.p1(2) {
				t.Kid = g.nearly(t.Kid)
			}
			if g.p1(3) && len(g.ztsAll) > 0 {
				t.Kid, t.Key = g.ztsAll[0].ID, g.ztsAll[0].Key
			}
			if g.p1(k.tokExp / 3) {
				t.Iat = int64(g.in(0, 60))
			}
			if g.p1(k.tokExp / 3) {
				t.Nbf = int64(g.in(-10, 60))
			}
			if g.p1(2) {
				t.Exp = 0
			}
			if g.p1(65) {
				t.Thumb = g.n(len(p.Certs))
				if g.p1(50) {
					t.Cid = p.Certs[t.Thumb].CN
				}
			}
			if g.p1(25) {
				t.Proxy = []string{proxies[g.n(len(proxies))]}
				for g.p1(25) {
					t.Proxy = append(t.Proxy, append(proxies, "!7", "!null", "!{}", "![\"spiffe://p/one\"]", "!true", "")[g.n(len(proxies)+6)])
				}
				if g.p1(20) {
					for _, i := range g.perm(len(t.Proxy)) {
						t.Proxy[0], t.Proxy[i] = t.Proxy[i], t.Proxy[0]
					}
				}
			}
			if g.p1(k.atMut) {
				t.Mut, t.Arg = atMuts[g.n(len(atMuts))], g.n(1000)
			}
			p.ATs = append(p.ATs, t)
		}
		for len(p.ATs) > 0 && len(p.ATs) < 9 && g.p1(k.twins) {
			if t := p.ATs[g.n(len(p.ATs))]; t.Mut == "" {
				t.Mut, t.Arg = atMuts[g.n(len(atMuts))], g.n(1000)
				p.ATs = append(p.ATs, t)
			}
		}
	}
}

func (g *gen) rules() {
	p, c := g.p, &g.p.Cfg
	c.Rules = map[string][]RuleSpec{}
	names := []string{"{a}", "{b}", "{p1}", "{long name}", "{x}"}
	for _, d := range c.Domains {
		if g.p1(15) {
			continue
		}
		var l []RuleSpec
		for i, n := 0, g.in(1, 4); i < n; i++ {
			r := RuleSpec{Method: g.str("get", "GET", "post", "read"), Action: g.str("read", "write", "probe")}
			used := map[string]bool{}
			ph := func() string {
				for t := 0; t < 10; t++ {
					x := names[g.n(len(names))]
					if !used[x] {
						used[x] = true
						return x
					}
				}
				return "fix"
			}
			path := ""
			for s, ns := 0, g.in(1, 3); s < ns; s++ {
				path += "/"
				if g.p1(60) {
					path += ph()
				} else {
					path += g.str("path", "a", "v1")
				}
			}
			q := ""
			for s, ns := 0, g.n(3); s < ns; s++ {
				if s > 0 {
					q += "&"
				}
				key := []string{"k", "id"}[s]
				if g.p1(70) {
					q += key + "=" + ph()
				} else {
					q += key + "=" + g.str("1", "x")
				}
			}
			if q != "" {
				path += "?" + q
			}
			r.Path = path
			var us []string
			for _, x := range names {
				if used[x] {
					us = append(us, x)
				}
			}
			r.Resource = g.str("data", "x:", "/path/", "", "m")
			for t, nt := 0, g.n(4); t < nt && len(us) > 0; t++ {
				r.Resource += us[g.n(len(us))] + g.str("", ".", ":", "/")
			}
			if r.Resource == "" {
				r.Resource = "data"
			}
			if g.p1(10) {
				r.Resource += "{zzz}"
			}
			l = append(l, r)
		}
		c.Rules[d] = l
	}
	_ = p
}

var segPool = []string{"path", "a", "v1", "{a}", "{b}", "{p1}", "x", "y", "{x}", "data", "$1", "{a}{b}", "%7Ba%7D"}

func (g *gen) urlish() (string, string) {
	if g.p1(45) {
		if path, q, ok := g.likeRule(); ok {
			return path, q
		}
	}
	path := ""
	for i, n := 0, g.in(1, 3); i < n; i++ {
		path += "/" + segPool[g.n(len(segPool))]
	}
	q := ""
	for i, n := 0, g.n(3); i < n; i++ {
		if i > 0 {
			q += "&"
		}
		q += []string{"k", "id"}[i%2] + "=" + g.str("1", "x", "{a}", "{b}", "%7Bp1%7D", "")
	}
	if g.p1(5) {
		q += "&k=2"
	}
	if g.p1(3) {
		q = "a;b"
	}
	return path, q
}

// likeRule is a request that a mapping rule matches, or nearly so.
func (g *gen) likeRule() (string, string, bool) {
	var doms []string
	for _, d := range g.p.Cfg.Domains {
		if len(g.p.Cfg.Rules[d]) > 0 {
			doms = append(doms, d)
		}
	}
	if len(doms) == 0 {
		return "", "", false
	}
	rs := g.p.Cfg.Rules[doms[g.n(len(doms))]]
	path, q, _ := strings.Cut(rs[g.n(len(rs))].Path, "?")
	inst := func(s string) string {
		if len(s) > 2 && s[0] == '{' {
			return segPool[g.n(len(segPool))]
		}
		return s
	}
	segs := strings.Split(path, "/")
	for i := range segs {
		segs[i] = inst(segs[i])
	}
	var kvs []string
	if q != "" {
		for _, kv := range strings.Split(q, "&") {
			k, v, _ := strings.Cut(kv, "=")
			kvs = append(kvs, k+"="+inst(v))
		}
	}
	if g.p1(35) { // nearly
		i := g.in(1, len(segs)-1)
		switch g.n(8) {
		case 0, 1:
			segs[i] = flipCase(segs[i])
		case 2:
			segs = append(segs, "")
		case 3:
			segs = append(segs[:i:i], append([]string{""}, segs[i:]...)...)
		case 4:
			segs[i] += "x"
		case 5:
			kvs = append(kvs, "z=1")
		case 6:
			if len(kvs) > 0 {
				kvs[0] = flipCase(kvs[0])
			}
		case 7:
			if len(kvs) > 0 {
				kvs = append(kvs, kvs[0])
			}
		}
	} else if len(kvs) > 1 && g.p1(50) {
		kvs[0], kvs[1] = kvs[1], kvs[0]
	}
	return strings.Join(segs, "/"), strings.Join(kvs, "&"), true
}

func flipCase(s string) string {
	if u := strings.ToUpper(s); u != s {
		return u
	}
	return strings.ToLower(s)
}

func (g *gen) ops() {
	p, k, c := g.p, &g.k, &g.p.Cfg
	type wk struct {
		k string
		w int
	}
	ws := []wk{{"rt", k.rt}, {"at", k.at}, {"rc", k.rc}, {"http", k.http}, {"dump", k.dump}, {"tr", k.tr}}
	if !c.RT || len(p.RTs) == 0 {
		ws[0].w = 0
	}
	if !c.AT || len(p.ATs) == 0 {
		ws[1].w = 0
	}
	if c.Rules == nil {
		ws[5].w = 0
	}
	tot := 0
	for _, w := range ws {
		tot += w.w
	}
	if tot == 0 {
		ws[2].w, tot = 1, 1
	}
	var trigs []string
	for _, d := range c.Domains {
		trigs = append(trigs, "pol:"+d)
	}
	trigs = append(trigs, "zts", "zms", "jwk:0")
	if len(p.Init.Jwks) > 1 {
		trigs = append(trigs, "jwk:1")
	}
	mk := func() Op {
		o := Op{RT: -1, AT: -1}
		x := g.n(tot)
		for _, w := range ws {
			if x < w.w {
				o.Kind = w.k
				break
			}
			x -= w.w
		}
		o.Act, o.Res = actPool[g.n(len(actPool))], resPool[g.n(len(resPool))]
		switch g.n(4) {
		case 0:
			o.Act, o.Res = "probe", fmt.Sprintf("m%d", g.n(4))
		case 1: // something a policy mentions literally
			d := c.Domains[g.n(len(c.Domains))]
			if s := p.Init.Docs[d]; s != nil && len(s.Policies) > 0 {
				pol := s.Policies[g.n(len(s.Policies))]
				if len(pol) > 0 {
					a := pol[g.n(len(pol))]
					o.Act = strings.NewReplacer("*", "x", "?", "q").Replace(a.Action)
					if i := strings.IndexByte(a.Resource, ':'); i >= 0 {
						o.Res = strings.NewReplacer("*", "x", "?", "q").Replace(a.Resource[i+1:])
					}
				}
			}
		}
		if g.p1(10) {
			o.Act, o.Res = strings.ToUpper(o.Act), strings.ToUpper(o.Res)
		}
		if g.p1(2) {
			o.Act = ""
		} else if g.p1(2) {
			o.Res = ""
		}
		if c.Rules != nil && g.p1(60) || o.Kind == "tr" {
			o.Act = g.str("get", "GET", "post", "read")
			o.Res, o.Query = g.urlish()
		}
		switch o.Kind {
		case "rt":
			o.RT = g.n(len(p.RTs))
			o.Verify = g.p1(25)
			o.Query = ""
		case "at":
			o.AT = g.n(len(p.ATs))
			o.Verify = g.p1(25)
			o.Query = ""
			t := p.ATs[o.AT]
			if t.Thumb >= 0 && g.p1(60) {
				o.Certs = []int{t.Thumb}
			} else if g.p1(75) {
				o.Certs = []int{g.n(len(p.Certs))}
			}
		case "rc":
			for _, i := range g.perm(len(p.Certs)) {
				if g.p1(45) {
					o.Certs = append(o.Certs, i)
				}
			}
			o.Query = ""
		case "http":
			if len(p.RTs) > 0 && g.p1(65) {
				o.RT = g.n(len(p.RTs))
			}
			if len(p.ATs) > 0 && g.p1(65) {
				o.AT = g.n(len(p.ATs))
			}
			if g.p1(60) {
				o.Certs = []int{g.n(len(p.Certs))}
				if o.AT >= 0 && p.ATs[o.AT].Thumb >= 0 && g.p1(70) {
					o.Certs[0] = p.ATs[o.AT].Thumb
				}
				for g.p1(30) && len(o.Certs) < 3 { // a chain; only the leaf counts
					o.Certs = append(o.Certs, g.n(len(p.Certs)))
				}
				if g.p1(15) {
					o.Certs[0], o.Certs[len(o.Certs)-1] = o.Certs[len(o.Certs)-1], o.Certs[0]
				}
			}
			o.Verify = g.p1(25)
		case "tr":
			o.Dom = c.Domains[g.n(len(c.Domains))]
			if g.p1(5) {
				o.Dom = "unknown"
			}
		}
		if g.p1(k.grant) && (c.Rules == nil || g.p1(30)) {
			g.grantable(&o)
		}
		if o.Kind == "http" && g.p1(k.hdr) {
			o.Hdr = g.str("lower", "basic", "other", "other", "form")
		}
		if g.p1(3) {
			o.Ctx = g.str("cancelled", "cancel")
		}
		if g.p1(25) {
			o.Rep = g.in(2, 4)
			o.Gap = int64(g.durs(0, time.Millisecond, g.dur(time.Millisecond, 2*sd), c.CacheExp-time.Millisecond, c.CacheExp+2*time.Millisecond, c.CacheExp/2))
		}
		return o
	}
	place := func(o *Op, hot []int64) {
		switch {
		case g.p1(k.trig):
			o.On, o.Nth = trigs[g.n(len(trigs))], g.in(1, 10)
			if g.p1(35) {
				o.Nth = g.in(1, 3)
			}
			if g.p1(25) {
				o.At = int64(g.dur(time.Millisecond, 300*time.Millisecond))
			}
		case len(hot) > 0 && g.p1(40):
			o.At = hot[g.n(len(hot))] + int64(g.dur(0, 20*time.Millisecond)) - int64(8*time.Millisecond)
			if o.At < 0 {
				o.At = 0
			}
		default:
			o.At = int64(g.dur(0, time.Duration(p.Quiet)))
		}
	}
	// moments worth probing: changes, ticks, expiries
	var hot []int64
	for _, e := range p.Events {
		if e.On == "" {
			hot = append(hot, e.At)
		}
	}
	for _, f := range p.Faults {
		hot = append(hot, f.From, f.To)
	}
	for i := int64(1); i < 6; i++ {
		hot = append(hot, i*int64(c.PolLife)-int64(c.Skew))
	}
	for _, t := range p.RTs {
		if t.Exp > 0 && t.Exp < 1000 {
			hot = append(hot, t.Exp*1e9-int64(c.Skew))
		}
	}
	for _, t := range p.ATs {
		if t.Exp > 0 && t.Exp < 1000 {
			hot = append(hot, t.Exp*1e9-int64(c.Skew))
		}
	}
	n := g.in(k.ops/3, k.ops)
	var prev []Op
	for i := 0; i < n; i++ {
		var o Op
		switch {
		case len(prev) > 0 && g.p1(k.collide):
			o = g.shift(prev[g.n(len(prev))])
		case len(prev) > 0 && g.p1(k.cross):
			q := prev[g.n(len(prev))]
			if x := q; g.cross(&x) {
				x.At += int64(g.durs(0, time.Millisecond, c.CacheExp/3, g.dur(0, c.CacheExp)))
				prev = append(prev, x)
				continue
			}
			o = mk()
		case len(prev) > 0 && g.p1(30):
			o = prev[g.n(len(prev))]
			o.Rep = 0
		default:
			o = mk()
		}
		if len(prev) > 0 && g.p1(40) && o.On == "" { // close to an earlier one
			q := prev[g.n(len(prev))]
			o.On, o.Nth, o.At = q.On, q.Nth, q.At+int64(g.durs(0, 0, time.Millisecond, c.CacheExp/2, c.CacheExp-time.Millisecond, c.CacheExp+3*time.Millisecond, g.dur(0, c.CacheExp*2)))
		} else {
			o.On, o.Nth, o.At = "", 0, 0
			place(&o, hot)
		}
		prev = append(prev, o)
	}
	if g.p1(k.crowd) && len(prev) > 3 { // a crowd: several requests at once
		for c := g.in(1, 3); c > 0; c-- {
			q := prev[g.n(len(prev))]
			for i := g.in(3, 10); i > 0; i-- {
				o := &prev[g.n(len(prev))]
				o.On, o.Nth, o.At, o.Ctx = q.On, q.Nth, q.At, ""
			}
		}
	}
	p.Ops = prev
	if p.End > p.Quiet {
		for i := 0; i < k.tail; i++ {
			o := mk()
			if len(prev) > 0 && g.p1(50) {
				o = prev[g.n(len(prev))]
			}
			o.On, o.Nth = "", 0
			o.At = int64(g.dur(time.Duration(p.End)-20*sd, time.Duration(p.End)-time.Millisecond))
			p.Ops = append(p.Ops, o)
		}
	}
}

// cross turns o into the same request with its token presented as if it were
// of the other kind, if it has one.
func (g *gen) cross(o *Op) bool {
	c := &g.p.Cfg
	if o.Cross || (o.Kind != "rt" && o.Kind != "at" && o.Kind != "http") {
		return false
	}
	o.Cross, o.Ctx, o.Rep = true, "", 0
	if o.RT >= 0 && (o.AT < 0 || g.p1(50)) {
		o.AT = -1
		if o.Kind = g.str("at", "http"); !c.AT {
			return false
		}
	} else if o.AT >= 0 {
		o.RT = -1
		if o.Kind = g.str("rt", "http"); !c.RT {
			return false
		}
	} else {
		return false
	}
	if g.p1(80) {
		o.Certs = nil
	}
	if o.Kind != "http" {
		o.Query = ""
	}
	return true
}

// grantable makes o ask for what some version of the policy allows a role of
// its credential.
func (g *gen) grantable(o *Op) {
	p, c := g.p, &g.p.Cfg
	var dom string
	var roles []string
	switch {
	case o.RT >= 0 && (o.AT < 0 || g.p1(50)):
		dom, roles = p.RTs[o.RT].Dom, p.RTs[o.RT].Roles
	case o.AT >= 0:
		dom, roles = p.ATs[o.AT].Aud, p.ATs[o.AT].Scp
	default:
		return
	}
	docs := []*DocSpec{p.Init.Docs[dom]}
	for _, e := range p.Events {
		if e.Kind == "doc" && e.Dom == dom && e.Doc != nil {
			docs = append(docs, e.Doc)
		}
	}
	var as []Assert
	for _, d := range docs {
		if d == nil {
			continue
		}
		for _, pol := range d.Policies {
			for _, a := range pol {
				if !strings.EqualFold(a.Effect, "deny") && strings.HasPrefix(a.Resource, dom+":") {
					for _, r := range roles {
						if a.Role == dom+":role."+r {
							as = append(as, a)
						}
					}
				}
			}
		}
	}
	if len(as) == 0 {
		return
	}
	a := as[g.n(len(as))]
	fill := strings.NewReplacer("*", g.str("", "x", "yy"), "?", "q")
	act, res := fill.Replace(a.Action), fill.Replace(a.Resource[len(dom)+1:])
	if !strings.HasPrefix(res, c.Prefix) || act == "" || res == c.Prefix {
		return
	}
	o.Act, o.Res, o.Query = act, res[len(c.Prefix):], ""
}

// shift returns a request that a sloppy composite key could confuse with o.
// otherRT picks another role token, by preference the same one altered or unaltered.
func (g *gen) otherRT(i int) int {
	l := g.p.RTs
	var tw []int
	for k, t := range l {
		u := l[i]
		t.Mut, t.Arg, u.Mut, u.Arg = "", 0, "", 0
		if k != i && string(mustJSON(t)) == string(mustJSON(u)) {
			tw = append(tw, k)
		}
	}
	if len(tw) > 0 && g.p1(75) {
		return tw[g.n(len(tw))]
	}
	return g.n(len(l))
}

// otherAT is otherRT for access tokens.
func (g *gen) otherAT(i int) int {
	l := g.p.ATs
	var tw []int
	for k, t := range l {
		u := l[i]
		t.Mut, t.Arg, u.Mut, u.Arg = "", 0, "", 0
		if k != i && string(mustJSON(t)) == string(mustJSON(u)) {
			tw = append(tw, k)
		}
	}
	if len(tw) > 0 && g.p1(75) {
		return tw[g.n(len(tw))]
	}
	return g.n(len(l))
}

func (g *gen) shift(o Op) Op {
	p := g.p
	o.Rep = 0
	switch g.n(6) {
	case 0, 1: // move the boundary between the joined components
		parts := strings.Split(o.Act+":"+o.Res, ":")
		if len(parts) > 2 {
			i := g.in(1, len(parts)-1)
			o.Act, o.Res = strings.Join(parts[:i], ":"), strings.Join(parts[i:], ":")
		} else {
			o.Res = "x:" + o.Res
		}
	case 2:
		if len(p.Certs) > 0 && (o.Kind == "at" || o.Kind == "http") {
			o.Certs = []int{g.n(len(p.Certs))}
		}
	case 3:
		if (o.Kind == "at") && len(o.Certs) > 0 { // the certificate's names as action
			c := p.Certs[o.Certs[0]]
			o.Res = c.CN + ":" + o.Act + ":" + o.Res
			o.Act = c.Issuer
			o.Certs = nil
		}
	case 4:
		if o.Kind == "http" {
			if o.Query != "" {
				o.Res, o.Query = o.Res+":"+o.Query, ""
			} else if i := strings.LastIndexByte(o.Res, ':'); i > 0 {
				o.Res, o.Query = o.Res[:i], o.Res[i+1:]
			}
		} else {
			o.Act, o.Res = o.Res, o.Act
		}
	case 5:
		switch {
		case o.Kind == "rt" && o.RT >= 0:
			o.RT = g.otherRT(o.RT)
		case o.Kind == "at" && o.AT >= 0:
			o.AT = g.otherAT(o.AT)
		case o.Kind == "http" && o.RT >= 0 && (o.AT < 0 || g.p1(50)):
			o.RT = g.otherRT(o.RT)
		case o.Kind == "http" && o.AT >= 0:
			o.AT = g.otherAT(o.AT)
		}
	}
	return o
}

func (g *gen) finish() {
	p, c, k := g.p, &g.p.Cfg, &g.k
	if g.p1(k.early) {
		p.End = int64(g.dur(time.Millisecond, time.Duration(p.Quiet)))
		p.Quiet = p.End
		for i := range p.Faults {
			if p.Faults[i].To > p.Quiet {
				p.Faults[i].To = p.Quiet
			}
		}
		return
	}
	n := &node{startAt: 0}
	h := &run{p: p, w: &world{zts: []PubKey{{}}, zms: []PubKey{{}}}}
	j := &jd{h: h, p: p, c: c}
	last := int64(0)
	for _, e := range p.Events {
		if e.Kind == "restart" {
			last = e.At
		}
	}
	if last > 0 {
		last += h.shutBound() / 4
	}
	base := p.Quiet
	if last > base {
		base = last
	}
	p.End = base + (j.conv(n) - p.Quiet) + int64(25*sd)
}

func genRT(prof string, seed uint64) *Plan {
	r := newRng(seed, "rt")
	pl := &RTPlan{Factor: []float64{1, 2, 5, 10, 0.5}[r.n(5)], Count: r.in(1, 6), MaxTime: r.durs(r.dur(10*time.Millisecond, sd), r.dur(sd, 10*sd), r.dur(10*sd, 120*sd))}
	bad := r.in(20, 95)
	for i, n := 0, r.in(1, 5); i < n; i++ {
		c := RTCall{At: int64(r.dur(0, 5*sd))}
		for k := 0; k < pl.Count+1; k++ {
			a := RTAnswer{Delay: r.durs(0, r.dur(0, 50*time.Millisecond), r.dur(0, 3*sd)), Body: fmt.Sprintf("body-%d-%d-%s", i, k, strings.Repeat("z", r.n(300)))}
			if r.p(bad) {
				switch r.n(4) {
				case 0, 1:
					a.Err = "temp"
				default:
					a.Status = []int{429, 500, 503, 504}[r.n(4)]
				}
				if r.p(6) {
					a.Err = r.str("perm", "plain")
				}
			} else {
				a.Status = []int{200, 200, 200, 304, 404, 400, 502, 501, 201, 401, 403, 408, 409, 425, 505, 508, 511, 599, 302}[r.n(19)]
			}
			if r.p(8) {
				a.ReadErr = true
			}
			if r.p(10) {
				a.Body = ""
			}
			c.Answers = append(c.Answers, a)
		}
		if r.p(10) {
			c.Cancel = int64(r.dur(time.Millisecond, 5*sd))
		}
		pl.Calls = append(pl.Calls, c)
	}
	return &Plan{Profile: prof, Seed: seed, RT: pl}
}
