// Package main is the deterministic simulator's harness. It is built inside
// /repo's module by an overlay (see /verif/tools/mkoverlay); it drives the real
// authorizer through its exported API only.
package main

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// rng is splitmix64: every choice of a plan comes from one of these.
type rng struct{ s uint64 }

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func mixs(x uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		x = mix(x ^ uint64(s[i])<<1)
	}
	return mix(x)
}

func newRng(seed uint64, salt string) *rng { return &rng{mixs(seed, salt)} }

func (r *rng) u() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}
func (r *rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u() % uint64(n))
}
func (r *rng) in(a, b int) int        { return a + r.n(b-a+1) }
func (r *rng) p(pct int) bool         { return r.n(100) < pct }
func (r *rng) str(s ...string) string { return s[r.n(len(s))] }
func (r *rng) dur(a, b time.Duration) time.Duration {
	if b <= a {
		return a
	}
	ms := int64((b - a) / time.Millisecond)
	return a + time.Duration(int64(r.u()%uint64(ms+1)))*time.Millisecond
}
func (r *rng) durs(d ...time.Duration) time.Duration { return d[r.n(len(d))] }
func (r *rng) subset(n, pct int) []int {
	var o []int
	for i := 0; i < n; i++ {
		if r.p(pct) {
			o = append(o, i)
		}
	}
	return o
}
func (r *rng) perm(n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.n(i + 1)
		o[i], o[j] = o[j], o[i]
	}
	return o
}

func sortedCopy(s []string) []string {
	o := append([]string(nil), s...)
	sort.Strings(o)
	return o
}

func setKey(s []string) string {
	o := sortedCopy(s)
	var u []string
	for i, x := range o {
		if i == 0 || o[i-1] != x {
			u = append(u, x)
		}
	}
	return strings.Join(u, "\x00")
}

func sec(t int64) string { return fmt.Sprintf("%.6fs", float64(t)/1e9) }

const baseUnix = 946684800 // the simulated epoch: 2000-01-01T00:00:00Z

func sortedKeys[V any](m map[string]V) []string {
	o := make([]string, 0, len(m))
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}
