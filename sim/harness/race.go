package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"syscall"
)

// In a race build (check.sh builds one for C25) Go's race detector watches the
// simulated run. Its verdict rests on the order that synchronisation imposes,
// not on which access came first, and the run it watches is the seed's.

var raceLog struct {
	path string
	off  int
}

// raceInit has the race detector write to a file of this process's own.
func raceInit() {
	if !runtime.SimRaceBuild {
		return
	}
	dir := envOr("VERIF_RACEDIR", os.TempDir())
	base := filepath.Join(dir, "verifrace")
	if !strings.Contains(os.Getenv("GORACE"), "log_path="+base) {
		// every race is reported each time, so that a run's verdict does not
		// depend on the runs before it
		os.Setenv("GORACE", "log_path="+base+" exitcode=0 halt_on_error=0 history_size=5 suppress_equal_stacks=0 suppress_equal_addresses=0 atexit_sleep_ms=0")
		if err := syscall.Exec(self(), os.Args, os.Environ()); err != nil {
			fmt.Fprintln(os.Stderr, "exec:", err)
			os.Exit(3)
		}
	}
	raceLog.path = fmt.Sprintf("%s.%d", base, os.Getpid())
	os.Remove(raceLog.path)
	runtime.SimRaceSkipMain()
}

// races returns the reports made since the last call.
func races() []string {
	if raceLog.path == "" {
		return nil
	}
	b, err := os.ReadFile(raceLog.path)
	if err != nil {
		return nil
	}
	s := string(b[raceLog.off:])
	raceLog.off = len(b)
	var out []string
	for _, r := range strings.Split(s, "==================\n") {
		if strings.Contains(r, "WARNING: DATA RACE") {
			out = append(out, r)
		}
	}
	return out
}

var (
	raceStack = regexp.MustCompile(`(?m)^(?:Previous |Read|Write|Atomic|atomic|read|write)[^\n]* at 0x[^\n]*\n((?:  [^\n]*\n)+)`)
	raceFrame = regexp.MustCompile(`(?m)^  (\S[^\n]*)\n      (\S+):(\d+)`)
)

const modPath = "github.com/yahoojapan/athenz-authorizer/v5"

var goroot = envOr("GOROOT", runtime.GOROOT()) + "/src/"

// accessOf names the code an access belongs to, "" if it is the simulator's or unknown.
func accessOf(stack string) string {
	first, lib := "", false
	for _, m := range raceFrame.FindAllStringSubmatch(stack, -1) {
		f := strings.TrimSuffix(m[1], "()")
		if strings.HasPrefix(m[2], goroot) || strings.HasPrefix(f, "runtime.") {
			continue
		}
		if strings.HasPrefix(f, "main.") {
			if lib {
				break
			}
			return "" // the simulator's own, or code it calls for itself
		}
		if first == "" {
			first = f
		}
		lib = lib || strings.HasPrefix(f, modPath)
	}
	return strings.TrimPrefix(first, modPath)
}

// judgeRaces: no two goroutines use the same memory unordered (C25).
func (h *run) judgeRaces() {
	for _, r := range races() {
		var a []string
		for _, m := range raceStack.FindAllStringSubmatch(r, -1) {
			a = append(a, accessOf(m[1]))
		}
		h.stats["race.reports"]++
		if len(a) != 2 || a[0] == "" || a[1] == "" {
			h.stats["race.harness"]++
			continue
		}
		sort.Strings(a)
		sig := "data race " + a[0] + " / " + a[1]
		dup := false
		for _, v := range h.viol {
			dup = dup || v.Sig == sig
		}
		if !dup && len(h.viol) < 200 {
			h.viol = append(h.viol, Violation{Tags: []string{"C25"}, Sig: sig, Msg: fmt.Sprintf("data race: %s and %s\n%s", a[0], a[1], r), T: h.endAt})
		}
	}
}
