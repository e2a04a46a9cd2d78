//go:build race

package main

import (
	"os"
	"runtime"
	"strconv"
	"strings"
	"unsafe"
)

// In this build the race detector sees which accesses of the library are ordered by the
// library's own synchronisation.  What the simulator does to run tasks one at a time must
// not look like synchronisation: it happens between raceOff and raceOn.
const raceBuild = true

func raceOff()                     { runtime.RaceDisable() }
func raceOn()                      { runtime.RaceEnable() }
func raceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer) { runtime.RaceRelease(p) }

var raceSeen int64

// raceReports returns what the detector has reported since the last call.
func raceReports() []raceReport {
	path := os.Getenv(raceLogEnv)
	if path == "" {
		die("the race build is run by the other one")
	}
	path += "." + strconv.Itoa(os.Getpid())
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	s := string(b[raceSeen:])
	raceSeen = int64(len(b))
	return parseRaces(s)
}

func dropRaceLog() {
	if p := os.Getenv(raceLogEnv); p != "" {
		os.Remove(p + "." + strconv.Itoa(os.Getpid()))
	}
}

// parseRaces picks out the races between two places in the library.
func parseRaces(s string) []raceReport {
	var out []raceReport
	for _, rep := range strings.Split(s, "==================\n") {
		if !strings.Contains(rep, "WARNING: DATA RACE") {
			continue
		}
		var r raceReport
		for _, part := range strings.Split(rep, "\n\n") {
			lines := strings.Split(strings.TrimPrefix(part, "WARNING: DATA RACE\n"), "\n")
			what := ""
			for _, k := range []string{"Read", "Write", "Previous read", "Previous write", "Atomic", "Previous atomic"} {
				if strings.HasPrefix(lines[0], k+" ") {
					what = strings.ToLower(strings.TrimPrefix(k, "Previous "))
				}
			}
			if what != "" {
				r.sides = append(r.sides, what+" in "+raceSite(lines[1:]))
			}
		}
		if len(r.sides) == 2 && !strings.HasSuffix(r.sides[0], "?") && !strings.HasSuffix(r.sides[1], "?") {
			out = append(out, r)
		}
	}
	return out
}

// raceSite is the library function on top of the stack, or "?" if it is the simulator.
func raceSite(lines []string) string {
	for i := 0; i+1 < len(lines); i += 2 {
		f := strings.TrimSpace(lines[i])
		const mod = "github.com/batchatco/go-native-netcdf/"
		if strings.HasPrefix(f, "main.") || strings.HasPrefix(f, mod+"internal/seam") || strings.HasPrefix(f, mod+"verifsim") {
			return "?"
		}
		if !strings.HasPrefix(f, mod) {
			continue // the standard library, on behalf of what comes next
		}
		f = f[len(mod):]
		if j := strings.LastIndex(f, "("); j > 0 {
			f = f[:j]
		}
		return f
	}
	return "?"
}
