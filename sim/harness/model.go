package main

import (
	"net/url"
	"strings"
)

// The reference model: what a policy, a token and a rule set mean. It is
// written from the documented semantics and shares no code with the library.

// globMatch reports whether s matches pat, case-insensitively, with * (any
// text) and ? (one character).
func globMatch(pat, s string) bool {
	p, t := []rune(strings.ToLower(pat)), []rune(strings.ToLower(s))
	pi, ti, star, mark := 0, 0, -1, 0
	for ti < len(t) {
		switch {
		case pi < len(p) && p[pi] == '*':
			star, mark = pi, ti
			pi++
		case pi < len(p) && (p[pi] == '?' || p[pi] == t[ti]):
			pi++
			ti++
		case star >= 0:
			mark++
			pi, ti = star+1, mark
		default:
			return false
		}
	}
	for pi < len(p) && p[pi] == '*' {
		pi++
	}
	return pi == len(p)
}

type verdict struct {
	deny  bool
	allow []string // roles with a matching allow
}

func (v verdict) granted() bool { return !v.deny && len(v.allow) > 0 }

// evalDoc decides (act, res) for roles of dom under one policy document.
func evalDoc(d *DocSpec, dom string, roles []string, act, res string) verdict {
	var v verdict
	seen := map[string]bool{}
	for _, r := range roles {
		if seen[r] {
			continue
		}
		seen[r] = true
		allow := false
		for _, pol := range d.Policies {
			for _, a := range pol {
				if a.Role != dom+":role."+r {
					continue
				}
				i := strings.IndexByte(a.Resource, ':')
				if i < 0 || !strings.EqualFold(a.Resource[:i], dom) {
					continue
				}
				if !globMatch(a.Action, act) || !globMatch(a.Resource[i+1:], res) {
					continue
				}
				if strings.EqualFold(a.Effect, "deny") {
					v.deny = true
				} else {
					allow = true
				}
			}
		}
		if allow {
			v.allow = append(v.allow, r)
		}
	}
	return v
}

// docDump is the cache content a document stands for: per role the set of
// assertions, deny overriding allow for the same role, action and resource.
func docDump(d *DocSpec, dom string) map[string][]dumpEnt {
	type k struct{ r, a, s string }
	m := map[k]string{}
	for _, pol := range d.Policies {
		for _, a := range pol {
			key := k{a.Role, a.Action, a.Resource}
			e := "allow"
			if strings.EqualFold(a.Effect, "deny") {
				e = "deny"
			}
			if m[key] != "deny" {
				m[key] = e
			}
		}
	}
	out := map[string][]dumpEnt{}
	for key, e := range m {
		if !strings.HasPrefix(key.r, dom+":role.") {
			continue
		}
		i := strings.IndexByte(key.s, ':')
		out[key.r] = append(out[key.r], dumpEnt{e, key.a, key.s[i+1:], key.s[:i]})
	}
	return out
}

// translate maps a request by the first matching rule.
func translate(rules map[string][]RuleSpec, dom, method, path, query string) (string, string, bool) {
	ph := func(s string) bool { return len(s) > 2 && s[0] == '{' && s[len(s)-1] == '}' }
next:
	for _, r := range rules[dom] {
		if !strings.EqualFold(r.Method, method) {
			continue
		}
		rp, rq := r.Path, ""
		if i := strings.IndexByte(rp, '?'); i >= 0 {
			rp, rq = rp[:i], rp[i+1:]
		}
		rs, ps := strings.Split(rp, "/"), strings.Split(path, "/")
		if len(rs) != len(ps) {
			continue
		}
		q, err := url.ParseQuery(query)
		if err != nil {
			return method, path, false
		}
		sub := map[string]string{}
		for i := range rs {
			if ph(rs[i]) {
				sub[rs[i]] = ps[i]
			} else if rs[i] != ps[i] {
				continue next
			}
		}
		rqv, _ := url.ParseQuery(rq)
		if len(rqv) != len(q) {
			continue
		}
		for k, v := range q {
			w, ok := rqv[k]
			if !ok || len(v) != 1 {
				continue next
			}
			if ph(w[0]) {
				sub[w[0]] = v[0]
			} else if w[0] != v[0] {
				continue next
			}
		}
		var out strings.Builder
		res := r.Resource
	scan:
		for len(res) > 0 {
			if res[0] == '{' {
				for p, v := range sub {
					if strings.HasPrefix(res, p) {
						out.WriteString(v)
						res = res[len(p):]
						continue scan
					}
				}
			}
			out.WriteByte(res[0])
			res = res[1:]
		}
		return r.Action, out.String(), true
	}
	return method, path, true
}

// certRoles lists the roles a client certificate chain names, by domain.
func certRoles(certs []CertSpec, prefix string) map[string][]string {
	if prefix == "" {
		prefix = "athenz://role/"
	}
	m := map[string][]string{}
	add := func(d, r string) {
		for _, x := range m[d] {
			if x == r {
				return
			}
		}
		m[d] = append(m[d], r)
	}
	for _, c := range certs {
		if i := strings.Index(c.CN, ":role."); i >= 0 {
			add(c.CN[:i], c.CN[i+len(":role."):])
		}
		for _, u := range c.URIs {
			if strings.HasPrefix(u, prefix) {
				x := u[len(prefix):]
				if i := strings.IndexByte(x, '/'); i >= 0 {
					add(x[:i], x[i+1:])
				}
			}
		}
	}
	return m
}

// bound reports whether the token is bound to the certificate as configured.
func (h *run) bound(t *ATSpec, cert *CertSpec) bool {
	c := &h.p.Cfg
	if c.VerifyCID {
		if cert == nil {
			return false
		}
		ok := false
		for _, id := range c.CIDs[cert.CN] {
			if id == t.Cid {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	if !c.MTLS {
		return true
	}
	if cert == nil || t.Mut == "cnfnum" || t.Mut == "cnfnull" {
		return false
	}
	if t.Thumb >= 0 && t.Thumb < len(h.p.Certs) {
		if string(mustJSON(&h.p.Certs[t.Thumb])) == string(mustJSON(cert)) {
			return true
		}
		// a renewed certificate of the same client, issued within the offset
		off, back := int64(c.Offset/1e9), int64(c.Backdate/1e9)
		issued := cert.NotBefore + back
		if off != 0 && cert.CN != "" && t.Cid == cert.CN && issued >= t.Iat && issued <= t.Iat+off {
			return true
		}
	}
	for _, p := range t.Proxy {
		for _, u := range cert.URIs {
			if p == u {
				return true
			}
		}
	}
	return false
}
