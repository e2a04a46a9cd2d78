package main

// The driver: spreads simulated runs over worker processes, confirms and
// minimises violations, writes replay files and evidence.

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// harnessExit tells a mistake of the simulator from a death of the library's making.
const harnessExit = 97

func checkHarness(err error) {
	if x, ok := err.(*exec.ExitError); ok && x.ExitCode() == harnessExit {
		die("a worker ended because of a mistake of the simulator")
	}
}

func main() {
	if len(os.Args) < 2 {
		die("usage: sim check|worker|exec|replay|determinism|list ...")
	}
	quietLibrary()
	defer func() {
		if r := recover(); r != nil {
			h, ok := r.(harnessError)
			if !ok {
				panic(r)
			}
			fmt.Fprintf(os.Stderr, "sim: mistake of the simulator: %s\n%s", string(h), debug.Stack())
			os.Exit(harnessExit)
		}
	}()
	switch os.Args[1] {
	case "check":
		cmdCheck(os.Args[2:])
	case "worker":
		cmdWorker(os.Args[2:])
	case "exec":
		cmdExec(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	case "determinism":
		cmdDeterminism(os.Args[2:])
	case "show":
		cmdShow(os.Args[2:])
	case "fixcheck":
		cmdFixcheck(os.Args[2:])
	case "refcdf":
		cmdRefCDF(os.Args[2:])
	case "export":
		cmdExport(os.Args[2:])
	case "list":
		for _, id := range propIDs() {
			fmt.Println(id)
		}
	default:
		die("unknown command %q", os.Args[1])
	}
}

func envSeed() uint64 {
	s := os.Getenv("VERIF_SEED")
	if s == "" {
		return 1
	}
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		return NewRNG(uint64(len(s))).U64()
	}
	return n
}

func getProp(id string) *Prop {
	p := props[id]
	if p == nil {
		die("no property %q", id)
	}
	return p
}

// ---- worker ----------------------------------------------------------------

type workerReport struct {
	Runs     int            `json:"runs"`
	Trivial  int            `json:"trivial"`
	Steps    int64          `json:"steps"`
	SimNS    int64          `json:"sim_ns"`
	Fired    map[string]int `json:"fired"`
	Probes   map[string]int `json:"probes"`
	Hashes   []uint64       `json:"hashes"`
	Samples  []string       `json:"samples"`
	Found    []*Case        `json:"found"`
	Known    map[string]int `json:"known"`
	Combined uint64         `json:"combined"`
}

func cmdWorker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	step := fs.Int("step", 1, "")
	to := fs.Int("to", 0, "")
	skip := fs.String("skip", "", "")
	hashes := fs.Bool("hashes", false, "")
	deadline := fs.Int64("deadline", 0, "unix seconds")
	fs.Parse(args)
	p := getProp(*prop)
	known := loadKnown()
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	rep := &workerReport{Fired: map[string]int{}, Probes: map[string]int{}, Known: map[string]int{}}
	seen := map[uint64]bool{}
	skipped := map[string]bool{}
	for _, s := range strings.Split(*skip, ",") {
		skipped[s] = true
	}
	debug.SetGCPercent(200)
	for i := *from; i < *to; i += *step {
		if skipped[strconv.Itoa(i)] {
			continue
		}
		if *deadline > 0 && time.Now().Unix() > *deadline {
			break
		}
		fmt.Fprintf(out, "S %d\n", i)
		out.Flush()
		c := makeCase(p, *seed, i)
		mem := allocated()
		v, e := execute(p, c)
		if allocated()-mem > 256<<20 {
			debug.FreeOSMemory()
		}
		rep.Runs++
		rep.Steps += int64(e.W.steps)
		rep.SimNS += int64(e.W.now)
		for k, n := range e.W.fired {
			rep.Fired[k] += n
		}
		for k, n := range e.Probes {
			rep.Probes[k] += n
		}
		h := e.W.logHash
		rep.Combined = mix64(rep.Combined ^ h ^ uint64(i))
		if *hashes {
			vs := ""
			if v != nil {
				vs = v.Class
			}
			fmt.Fprintf(out, "H %d %016x %s\n", i, h, vs)
		}
		if e.Trivial {
			rep.Trivial++
		} else if !seen[h] {
			seen[h] = true
			rep.Hashes = append(rep.Hashes, h)
		}
		if len(rep.Samples) < 2 && !e.Trivial {
			rep.Samples = append(rep.Samples, describe(c))
		}
		if v != nil {
			if k := known.match(p.ID, c, v); k != nil {
				rep.Known[k.ID]++
				continue
			}
			c.Expect, c.Detail = v.Class, v.Detail
			rep.Found = append(rep.Found, c)
			if len(rep.Found) >= 3 {
				break
			}
		}
	}
	b, _ := json.Marshal(rep)
	dropRaceLog()
	fmt.Fprintf(out, "R %s\n", b)
	out.Flush()
}

func describe(c *Case) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "run %d seed %d", c.Index, c.Seed)
	if c.Mode != "" {
		fmt.Fprintf(&sb, " mode=%s", c.Mode)
	}
	if c.Kind != "" {
		fmt.Fprintf(&sb, " kind=%s", c.Kind)
	}
	if c.Fixture != "" {
		fmt.Fprintf(&sb, " file=%s", c.Fixture)
	}
	if c.CDF != nil {
		fmt.Fprintf(&sb, " cdf(v%d, %d dims, %d records, %d vars)", c.CDF.Version, len(c.CDF.Dims), c.CDF.NumRecs, len(c.CDF.Vars))
	}
	if len(c.WOps) > 0 {
		fmt.Fprintf(&sb, " writer=%v", c.WOps)
	}
	if len(c.ROps) > 0 {
		fmt.Fprintf(&sb, " reader=%v", c.ROps)
	}
	if len(c.Faults) > 0 {
		fmt.Fprintf(&sb, " faults=%v", c.Faults)
	}
	if c.Delivery.Mode != "" || c.Delivery.EOF || c.Delivery.Zero > 0 {
		fmt.Fprintf(&sb, " delivery=%+v", c.Delivery)
	}
	if len(c.Corrupt) > 0 {
		fmt.Fprintf(&sb, " corrupt=%d bytes", len(c.Corrupt))
	}
	if c.Cut != 0 {
		fmt.Fprintf(&sb, " cut=%d", c.Cut)
	}
	if len(c.Sched) > 0 {
		n := 0
		for _, k := range c.Sched {
			if k != 0 {
				n++
			}
		}
		fmt.Fprintf(&sb, " schedule of %d points with %d switches", len(c.Sched), n)
	}
	if len(c.P) > 0 {
		fmt.Fprintf(&sb, " %v", c.P)
	}
	if len(c.Before) > 0 {
		fmt.Fprintf(&sb, " after %d other runs in the same process", len(c.Before))
	}
	s := sb.String()
	if len(s) > 900 {
		s = s[:900] + "..."
	}
	return s
}

// ---- known findings ----------------------------------------------------------

type Known struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Status   string `json:"status"`   // "known" or "fixed"
	Class    string `json:"class"`    // exact violation class, when known
	Contains string `json:"contains"` // and what its detail contains
	What     string `json:"what"`
	Replay   string `json:"replay"` // committed case file that shows it
	Commit   string `json:"commit"`
}

type KnownSet []*Known

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	exe, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	return filepath.Dir(filepath.Dir(exe))
}

func loadKnown() KnownSet {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if os.IsNotExist(err) {
		return nil
	}
	var ks KnownSet
	if err == nil {
		err = json.Unmarshal(b, &ks)
	}
	if err != nil {
		die("known_findings.json: %v", err)
	}
	return ks
}

func (ks KnownSet) match(prop string, c *Case, v *Violation) *Known {
	for _, k := range ks {
		if k.Status == "known" && k.Property == prop && k.Class == v.Class && strings.Contains(v.Detail, k.Contains) {
			return k
		}
	}
	return nil
}

// ---- running a case in a process of its own -----------------------------------

type execResult struct {
	V    *Violation
	Hash uint64
	Log  []string
	Died string
}

// simCommand is a command that runs the simulator, in the build with the race detector
// if that is asked for.
func simCommand(race bool, args ...string) *exec.Cmd {
	exe, _ := os.Executable()
	limit := "ulimit -v 12000000; "
	env := os.Environ()
	if race {
		dir := filepath.Dir(exe)
		exe = filepath.Join(dir, "simrace")
		if _, err := os.Stat(exe); err != nil {
			die("%v: ./build.sh race makes it", err)
		}
		limit = "" // the detector reserves terabytes of addresses
		log := filepath.Join(dir, "racelog")
		env = append(env, raceLogEnv+"="+log, "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=7 "+
			"suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+log)
	}
	cmd := exec.Command("/bin/bash", append([]string{"-c", limit + "exec \"$0\" \"$@\"", exe}, args...)...)
	cmd.Env = env
	return cmd
}

// execCase runs one case in a fresh process; a run may take down the process.
func execCase(c *Case, timeout time.Duration) execResult {
	f, err := os.CreateTemp("", "simcase")
	if err != nil {
		die("%v", err)
	}
	defer os.Remove(f.Name())
	b, _ := json.Marshal(c)
	f.Write(b)
	f.Close()
	cmd := simCommand(c.Race, "exec", f.Name())
	var out strings.Builder
	cmd.Stdout = &out
	if err := cmd.Start(); err != nil {
		die("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var res execResult
	select {
	case err = <-done:
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		res.Died = "hang"
		return res
	}
	for _, l := range strings.Split(out.String(), "\n") {
		if strings.HasPrefix(l, "RESULT ") {
			if e := json.Unmarshal([]byte(l[7:]), &res); e != nil {
				die("bad result: %v", e)
			}
			return res
		}
	}
	checkHarness(err)
	res.Died = fmt.Sprint(err)
	if err == nil {
		res.Died = "exit status 0"
	}
	return res
}

func cmdExec(args []string) {
	c := loadCase(args[0])
	debug.SetGCPercent(200)
	for _, b := range c.Before {
		execute(getProp(b.Prop), b)
	}
	v, e := execute(getProp(c.Prop), c)
	dropRaceLog()
	b, _ := json.Marshal(execResult{V: v, Hash: e.W.logHash, Log: e.W.log})
	fmt.Printf("RESULT %s\n", b)
}

func loadCase(path string) *Case {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		die("%s: %v", path, err)
	}
	if c.P == nil {
		c.P = map[string]int64{}
	}
	return &c
}

func (p *Prop) hangAfter() time.Duration {
	if p.Slow {
		return 200 * time.Second
	}
	return 60 * time.Second
}

// judge runs a case, in this process if that is safe, and names what went wrong.
func judge(p *Prop, c *Case, isolated bool, timeout time.Duration) *Violation {
	if !isolated {
		v, _ := execute(p, c)
		return v
	}
	r := execCase(c, timeout)
	if r.Died == "hang" {
		return violf("hang", "no result within %v", timeout)
	}
	if r.Died != "" {
		return violf("process-death", "the process ended: %s", r.Died)
	}
	return r.V
}

// minimise shrinks a failing case while it fails in the same way.
func minimise(p *Prop, c *Case, isolated bool) (*Case, int) {
	best := c
	tries := 0
	maxTries := 1500
	limit := time.Now().Add(100 * time.Second)
	if isolated {
		maxTries = 300
		if c.Expect == "hang" {
			maxTries = 0
		}
	}
	same := func(n *Case) bool {
		if tries >= maxTries || time.Now().After(limit) {
			return false
		}
		tries++
		v := judge(p, n, isolated, p.hangAfter()/3)
		if v == nil || v.Class != c.Expect {
			return false
		}
		n.Expect, n.Detail = v.Class, v.Detail
		return true
	}
	for progress := true; progress; {
		progress = false
		for _, n := range shrinks(p, best) {
			if same(n) {
				best = n
				progress = true
				break
			}
			if tries >= maxTries {
				break
			}
		}
	}
	return best, tries
}

// shrinks lists simpler cases, the boldest first.
func shrinks(p *Prop, c *Case) []*Case {
	var out []*Case
	add := func(f func(n *Case) bool) {
		n := c.clone()
		if f(n) {
			out = append(out, n)
		}
	}
	// drop halves, then single elements, of every list
	dropList := func(n int, cut func(nc *Case, a, b int)) {
		for sz := n / 2; sz >= 1; sz /= 2 {
			for a := 0; a+sz <= n; a += sz {
				add(func(nc *Case) bool { cut(nc, a, a+sz); return true })
			}
			if sz == 1 {
				break
			}
		}
		if n == 1 {
			add(func(nc *Case) bool { cut(nc, 0, 1); return true })
		}
	}
	dropList(len(c.Faults), func(n *Case, a, b int) { n.Faults = append(n.Faults[:a:a], n.Faults[b:]...) })
	dropList(len(c.Corrupt), func(n *Case, a, b int) { n.Corrupt = append(n.Corrupt[:a:a], n.Corrupt[b:]...) })
	dropList(len(c.ROps), func(n *Case, a, b int) { n.ROps = append(n.ROps[:a:a], n.ROps[b:]...) })
	dropList(len(c.WOps), func(n *Case, a, b int) { n.WOps = append(n.WOps[:a:a], n.WOps[b:]...) })
	for i := range c.Others {
		// keep the numbers of the rest
		add(func(n *Case) bool {
			ok := n.Others[i].Kind != "none"
			n.Others[i] = &Case{Kind: "none"}
			return ok
		})
	}
	if len(c.Sched) > 0 {
		add(func(n *Case) bool { n.Sched = n.Sched[:len(n.Sched)/2]; return true })
		last := len(c.Sched)
		for last > 0 && c.Sched[last-1] == 0 {
			last--
		}
		if last < len(c.Sched) {
			add(func(n *Case) bool { n.Sched = n.Sched[:last]; return true })
		}
		// fewer switches of the running task
		for sz := last; sz >= 1; sz /= 2 {
			for a := 0; a < last; a += sz {
				b := min(a+sz, last)
				any := false
				for i := a; i < b; i++ {
					any = any || c.Sched[i] != 0
				}
				if any {
					add(func(n *Case) bool {
						for i := a; i < b; i++ {
							n.Sched[i] = 0
						}
						return true
					})
				}
			}
		}
	}
	add(func(n *Case) bool {
		if n.Delivery.Mode == "" && !n.Delivery.EOF && n.Delivery.Zero == 0 {
			return false
		}
		n.Delivery = Delivery{}
		return true
	})
	add(func(n *Case) bool { ok := n.Delivery.Zero > 0; n.Delivery.Zero = 0; return ok })
	add(func(n *Case) bool { ok := n.Delivery.EOF; n.Delivery.EOF = false; return ok })
	if c.CDF != nil {
		s := c.CDF
		dropList(len(s.Vars), func(n *Case, a, b int) { n.CDF.Vars = append(n.CDF.Vars[:a:a], n.CDF.Vars[b:]...) })
		dropList(len(s.Attrs), func(n *Case, a, b int) { n.CDF.Attrs = append(n.CDF.Attrs[:a:a], n.CDF.Attrs[b:]...) })
		for i := range s.Vars {
			add(func(n *Case) bool { ok := len(n.CDF.Vars[i].Attrs) > 0; n.CDF.Vars[i].Attrs = nil; return ok })
			add(func(n *Case) bool {
				d := n.CDF.Vars[i].Dims
				if len(d) == 0 {
					return false
				}
				n.CDF.Vars[i].Dims = d[:len(d)-1]
				return true
			})
		}
		for i := range s.Dims {
			add(func(n *Case) bool {
				if n.CDF.Dims[i].Len <= 1 {
					return false
				}
				n.CDF.Dims[i].Len /= 2
				return true
			})
		}
		add(func(n *Case) bool { ok := n.CDF.NumRecs > 0; n.CDF.NumRecs--; return ok })
		add(func(n *Case) bool { ok := n.CDF.Gap > 0; n.CDF.Gap = 0; return ok })
		add(func(n *Case) bool { ok := n.CDF.Perm > 0; n.CDF.Perm = 0; return ok })
		add(func(n *Case) bool { ok := n.CDF.Holes > 0; n.CDF.Holes = 0; return ok })
		add(func(n *Case) bool { ok := n.CDF.Tags; n.CDF.Tags = false; return ok })
		add(func(n *Case) bool { ok := n.CDF.Tail > 0; n.CDF.Tail = 0; return ok })
	}
	for i := range c.WOps {
		o := &c.WOps[i]
		for k := range o.Attrs {
			add(func(n *Case) bool {
				n.WOps[i].Attrs = append(n.WOps[i].Attrs[:k:k], n.WOps[i].Attrs[k+1:]...)
				return true
			})
			if o.Attrs[k].Len > 1 {
				add(func(n *Case) bool { n.WOps[i].Attrs[k].Len = 1; return true })
			}
		}
		if o.Bad == "" {
			for k := range o.Shape {
				shared := false
				if k < len(o.Dims) {
					for j := range c.WOps {
						for _, d := range c.WOps[j].Dims {
							shared = shared || (j != i && d == o.Dims[k])
						}
					}
				}
				if o.Shape[k] > 1 && !shared {
					add(func(n *Case) bool { n.WOps[i].Shape[k] /= 2; return true })
				}
			}
			if len(o.Shape) > 0 {
				add(func(n *Case) bool {
					w := &n.WOps[i]
					w.Shape = w.Shape[:len(w.Shape)-1]
					if len(w.Dims) > len(w.Shape) {
						w.Dims = w.Dims[:len(w.Shape)]
					}
					return true
				})
			}
			add(func(n *Case) bool { ok := n.WOps[i].List > 1; n.WOps[i].List /= 2; return ok })
			add(func(n *Case) bool { ok := n.WOps[i].Str > 1; n.WOps[i].Str /= 2; return ok })
			if len(o.Name) > 3 {
				add(func(n *Case) bool {
					old := n.WOps[i].Name
					nn := fmt.Sprintf("n%d", i)
					n.WOps[i].Name = nn
					if n.WOps[i].Kind == "group" {
						pre := strings.TrimSuffix(n.WOps[i].Group, "/") + "/" + old
						for j := range n.WOps {
							g := n.WOps[j].Group
							if g == pre || strings.HasPrefix(g, pre+"/") {
								n.WOps[j].Group = strings.TrimSuffix(n.WOps[i].Group, "/") + "/" + nn + g[len(pre):]
							}
						}
					}
					return true
				})
			}
		}
	}
	for i := range c.Faults {
		add(func(n *Case) bool { ok := n.Faults[i].Arg > 0; n.Faults[i].Arg = 0; return ok })
		add(func(n *Case) bool { ok := n.Faults[i].N < 0; n.Faults[i].N = 1; return ok })
	}
	if p.Shrink != nil {
		out = append(out, p.Shrink(c)...)
	}
	return out
}

// ---- check ---------------------------------------------------------------------

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "")
	runs := fs.Int("runs", 0, "override the number of runs")
	workers := fs.Int("workers", 0, "")
	race := fs.Int("race", -1, "override the number of runs with the race detector")
	wall := fs.Int("wall", 0, "stop starting runs after this many seconds")
	keep := fs.Bool("keep-going", false, "")
	fs.Parse(args)
	p := getProp(*prop)
	seed := envSeed()
	start := time.Now()
	n, nr := p.Quick, p.QuickRace
	maxWall := 420
	if *tier == "thorough" {
		n, nr = p.Thorough, p.ThoroughRace
		maxWall = 780
	}
	if *race >= 0 {
		nr = *race
	}
	if nr > 0 {
		maxWall = maxWall * 3 / 4 // a third as long again is for those
	}
	if *runs > 0 {
		n = *runs
	}
	if *wall > 0 {
		maxWall = *wall
	}
	nw := *workers
	if nw == 0 {
		nw = min(8, max(2, runtime.NumCPU()))
	}
	fmt.Printf("property %s tier %s VERIF_SEED %d: %d simulated runs on %d workers\n", p.ID, *tier, seed, n, nw)
	known := loadKnown()
	reportKnown(p, known)

	total, deaths := runWorkers(p, seed, 0, n, nw, start.Add(time.Duration(maxWall)*time.Second))
	if nr > 0 && len(total.Found) == 0 && len(deaths) == 0 {
		more, d := runWorkers(p, seed, raceBase, raceBase+nr, nw, time.Now().Add(time.Duration(maxWall/3)*time.Second))
		seen := map[uint64]bool{}
		for _, h := range total.Hashes {
			seen[h] = true
		}
		total.Probes["runs with the race detector"] = more.Runs
		merge(total, more, seen)
		deaths = append(deaths, d...)
	}
	elapsed := time.Since(start)

	// Violations, the earliest run first so that the report does not depend on timing.
	var found []*Case
	found = append(found, total.Found...)
	for _, i := range deaths {
		c := makeCase(p, seed, i.idx)
		v := judge(p, c, true, p.hangAfter())
		if v == nil { // not by itself
			v = violf("process-death", "the process ended: %s", i.how)
			if i.how == "hang" {
				v = violf("hang", "no result within %v", p.hangAfter())
			}
		}
		if k := known.match(p.ID, c, v); k != nil {
			total.Known[k.ID]++
			continue
		}
		c.Expect, c.Detail = v.Class, v.Detail
		found = append(found, c)
	}
	sort.Slice(found, func(i, j int) bool { return found[i].Index < found[j].Index })
	writeEvidence(p, *tier, seed, total, elapsed, len(found))
	for k, v := range total.Known {
		fmt.Printf("known finding %s came up in %d runs\n", k, v)
	}
	if len(found) == 0 {
		fmt.Printf("OK property %s: %d runs, %d distinct, %.1fs simulated, faults %v\n", p.ID, total.Runs, len(total.Hashes),
			float64(total.SimNS)/1e9, sortedCounts(total.Fired))
		return
	}
	seen := map[string]bool{}
	for _, c := range found {
		if seen[c.Expect] {
			continue
		}
		min, tries := reproduce(p, c, seed, nw)
		if min == nil && c.Expect == "data-race" {
			// The detector keeps a bounded record of accesses.  What it does not
			// report again is not reported.
			fmt.Fprintf(os.Stderr, "run %d of %s: the race does not replay: %s\n", c.Index, p.ID, c.Detail)
			continue
		}
		seen[c.Expect] = true
		if min == nil {
			die("run %d of %s: the violation %q does not replay", c.Index, p.ID, c.Expect)
		}
		dir := filepath.Join(verifDir(), "replays")
		os.MkdirAll(dir, 0o755)
		b, _ := json.MarshalIndent(min, "", " ")
		sum := sha256.Sum256(b)
		path := filepath.Join(dir, fmt.Sprintf("%s-%x.json", p.ID, sum[:5]))
		if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
			die("%v", err)
		}
		fmt.Printf("seed %d run %d: %s\n  %s\n  minimised in %d steps to: %s\n", seed, c.Index, min.Expect, min.Detail, tries, describe(min))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		if !*keep {
			break
		}
	}
	if len(seen) > 0 {
		os.Exit(1)
	}
	writeEvidence(p, *tier, seed, total, elapsed, 0)
	fmt.Printf("OK property %s: %d runs\n", p.ID, total.Runs)
}

// replays says if a case fails in a fresh process as it should, twice.
func replays(p *Prop, c *Case) bool {
	for k := 0; k < 2; k++ {
		if v := judge(p, c, true, p.hangAfter()); v == nil || v.Class != c.Expect {
			return false
		}
	}
	return true
}

// reproduce minimises a failing case so that it fails in a fresh process.  If the
// library keeps state that outlives a run, the runs that matter come with it.
func reproduce(p *Prop, c *Case, seed uint64, nw int) (*Case, int) {
	tries := 0
	if c.Expect != "process-death" && c.Expect != "hang" && !c.Race {
		min, n := minimise(p, c, false)
		tries += n
		if replays(p, min) {
			return min, tries
		}
	}
	if replays(p, c) {
		min, n := minimise(p, c, true)
		return min, tries + n
	}
	// What came before in the same process?
	limit := time.Now().Add(150 * time.Second)
	with := func(before []*Case) *Case {
		tries++
		n := c.clone()
		n.Before = before
		if v := judge(p, n, true, p.hangAfter()); v != nil && v.Class == c.Expect {
			n.Detail = v.Detail
			return n
		}
		return nil
	}
	first := 0
	if c.Race {
		first = raceBase
	}
	var before []*Case
	var best *Case
	for i, want := c.Index-nw, 1; best == nil && time.Now().Before(limit); i -= nw {
		if i >= first {
			before = append([]*Case{makeCase(p, seed, i)}, before...)
		}
		if len(before) == want || i < first {
			want *= 2
			best = with(before)
		}
		if i < first {
			break
		}
	}
	if best == nil {
		return nil, tries
	}
	for sz := len(best.Before) / 2; sz >= 1; sz /= 2 {
		for a := 0; a < len(best.Before) && time.Now().Before(limit); {
			b := min(a+sz, len(best.Before))
			less := append(append([]*Case{}, best.Before[:a]...), best.Before[b:]...)
			if n := with(less); n != nil {
				best = n
			} else {
				a = b
			}
		}
	}
	if !replays(p, best) {
		return nil, tries
	}
	m, n := minimise(p, best, true)
	return m, tries + n
}

// reportKnown replays the listed findings of a property and says which still hold.
func reportKnown(p *Prop, known KnownSet) {
	for _, k := range known {
		if k.Property != p.ID || k.Status != "known" {
			continue
		}
		c := loadCase(filepath.Join(verifDir(), k.Replay))
		v := judge(p, c, true, p.hangAfter())
		if v != nil && v.Class == k.Class && strings.Contains(v.Detail, k.Contains) {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
		} else {
			fmt.Printf("note: listed finding %s no longer shows (%v)\n", k.ID, v)
		}
	}
}

type death struct {
	idx int
	how string
}

// runWorkers makes the runs from begin up to n.
func runWorkers(p *Prop, seed uint64, begin, n, nw int, deadline time.Time) (*workerReport, []death) {
	total := &workerReport{Fired: map[string]int{}, Probes: map[string]int{}, Known: map[string]int{}}
	var deaths []death
	var mu sync.Mutex
	seen := map[uint64]bool{}
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			from := begin + w
			for from < n {
				last, rep, how := runWorker(p.ID, seed, from, nw, n, deadline)
				mu.Lock()
				if rep != nil {
					merge(total, rep, seen)
				}
				if how != "" {
					deaths = append(deaths, death{last, how})
					total.Runs++
				}
				stop := how == "" || len(deaths) >= 3
				mu.Unlock()
				if stop {
					return
				}
				from = last + nw
			}
		}(w)
	}
	wg.Wait()
	sort.Slice(total.Hashes, func(i, j int) bool { return total.Hashes[i] < total.Hashes[j] })
	sort.Slice(deaths, func(i, j int) bool { return deaths[i].idx < deaths[j].idx })
	return total, deaths
}

func runWorker(prop string, seed uint64, from, step, to int, deadline time.Time) (last int, rep *workerReport, how string) {
	cmd := simCommand(from >= raceBase, "worker", "-prop", prop,
		"-seed", fmt.Sprint(seed), "-from", fmt.Sprint(from), "-step", fmt.Sprint(step), "-to", fmt.Sprint(to),
		"-deadline", fmt.Sprint(deadline.Unix()))
	procs := "2"
	if from >= raceBase {
		procs = "1" // the detector may depend on what runs where
	}
	cmd.Env = append(cmd.Env, "GOMAXPROCS="+procs, "GOTRACEBACK=none")
	stdout, err := cmd.StdoutPipe()
	if err != nil {
		die("%v", err)
	}
	if err := cmd.Start(); err != nil {
		die("%v", err)
	}
	lines := make(chan string)
	go func() {
		rd := bufio.NewReaderSize(stdout, 1<<20)
		for {
			s, err := rd.ReadString('\n')
			if s != "" {
				lines <- s
			}
			if err != nil {
				close(lines)
				return
			}
		}
	}()
	last = from
	hung := false
	for {
		var s string
		ok := true
		select {
		case s, ok = <-lines:
		case <-time.After(getProp(prop).hangAfter()):
			hung = true
			cmd.Process.Kill()
			for range lines {
			}
			ok = false
		}
		if !ok {
			break
		}
		switch {
		case strings.HasPrefix(s, "S "):
			last, _ = strconv.Atoi(strings.TrimSpace(s[2:]))
		case strings.HasPrefix(s, "R "):
			rep = &workerReport{}
			if err := json.Unmarshal([]byte(s[2:]), rep); err != nil {
				die("bad worker report: %v", err)
			}
		}
	}
	err = cmd.Wait()
	checkHarness(err)
	if hung {
		return last, nil, "hang"
	}
	if rep == nil {
		return last, nil, fmt.Sprint(err)
	}
	return last, rep, ""
}

func merge(t, r *workerReport, seen map[uint64]bool) {
	t.Runs += r.Runs
	t.Trivial += r.Trivial
	t.Steps += r.Steps
	t.SimNS += r.SimNS
	for k, v := range r.Fired {
		t.Fired[k] += v
	}
	for k, v := range r.Probes {
		t.Probes[k] += v
	}
	for k, v := range r.Known {
		t.Known[k] += v
	}
	for _, h := range r.Hashes {
		if !seen[h] {
			seen[h] = true
			t.Hashes = append(t.Hashes, h)
		}
	}
	if len(t.Samples) < 6 {
		t.Samples = append(t.Samples, r.Samples...)
	}
	t.Found = append(t.Found, r.Found...)
	t.Combined ^= r.Combined
}

func sortedCounts(m map[string]int) []string {
	var out []string
	for k, v := range m {
		out = append(out, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(out)
	return out
}

func writeEvidence(p *Prop, tier string, seed uint64, t *workerReport, elapsed time.Duration, nviol int) {
	hours := elapsed.Hours()
	samples := []any{}
	sort.Strings(t.Samples)
	for _, s := range t.Samples {
		samples = append(samples, s)
	}
	cov := map[string]any{
		"evaluations":             t.Runs,
		"distinct_nontrivial":     len(t.Hashes),
		"rule":                    p.Rule + "  Every run has its own seed.  Distinct: by the hash of the run's full event log (every storage operation with offset, length and outcome, and every API call made).  Trivial runs are not counted.",
		"samples":                 samples,
		"simulated_runs_per_hour": int(float64(t.Runs) / hours),
		"seeds_per_hour":          int(float64(t.Runs) / hours),
		"simulated_seconds":       float64(t.SimNS) / 1e9,
		"storage_operations":      t.Steps,
		"faults_fired":            t.Fired,
		"probes":                  t.Probes,
		"real_code":               p.Real,
		"stubbed":                 p.Stub,
		"trivial_runs":            t.Trivial,
	}
	if len(t.Known) > 0 {
		cov["known_findings_hit"] = t.Known
	}
	level := p.Level
	if level == "" {
		level = "exploration"
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"wall_s": elapsed.Seconds(), "violations": nviol,
		"assumptions": []string{
			"the simulated storage (sim/simfs.go) behaves as an os.File or an api.ReadSeekerCloser may, including when it fails",
			"sampling, not enumeration: a clean batch is evidence, not proof",
		},
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}

// ---- replay, determinism, show ---------------------------------------------------

func cmdReplay(args []string) {
	if len(args) != 1 {
		die("usage: sim replay FILE")
	}
	c := loadCase(args[0])
	v := judge(getProp(c.Prop), c, true, getProp(c.Prop).hangAfter())
	if v == nil {
		fmt.Printf("no violation of %s\n", c.Prop)
		return
	}
	fmt.Printf("%s\n", v)
	if c.Expect != "" && v.Class != c.Expect {
		fmt.Printf("(the file records %q)\n", c.Expect)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, args[0])
	os.Exit(1)
}

// cmdDeterminism runs the same seeds in several processes and compares event logs.
func cmdDeterminism(args []string) {
	fs := flag.NewFlagSet("determinism", flag.ExitOnError)
	prop := fs.String("prop", "", "property (default: all)")
	n := fs.Int("runs", 200, "")
	seed := fs.Uint64("seed", 1, "")
	fs.Parse(args)
	exe, _ := os.Executable()
	ids := propIDs()
	if *prop != "" {
		ids = []string{*prop}
	}
	bad := 0
	for _, id := range ids {
		collect := func(step int, maxprocs string) map[string]string {
			res := map[string]string{}
			var mu sync.Mutex
			var wg sync.WaitGroup
			for w := 0; w < step; w++ {
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					cmd := exec.Command(exe, "worker", "-hashes", "-prop", id, "-seed", fmt.Sprint(*seed), "-from", fmt.Sprint(w), "-step", fmt.Sprint(step), "-to", fmt.Sprint(*n))
					cmd.Env = append(os.Environ(), "GOMAXPROCS="+maxprocs)
					b, _ := cmd.Output()
					mu.Lock()
					defer mu.Unlock()
					for _, l := range strings.Split(string(b), "\n") {
						if strings.HasPrefix(l, "H ") {
							f := strings.SplitN(l, " ", 3)
							res[f[1]] = f[2]
						}
					}
				}(w)
			}
			wg.Wait()
			return res
		}
		a, b, c := collect(4, "2"), collect(7, "1"), collect(11, "8")
		diffs := 0
		for k, v := range a {
			if b[k] != v || c[k] != v {
				if diffs < 5 {
					fmt.Printf("%s run %s: %q %q %q\n", id, k, v, b[k], c[k])
				}
				diffs++
			}
		}
		fmt.Printf("%s: %d runs x 3, %d differ\n", id, len(a), diffs)
		bad += diffs
	}
	if bad > 0 {
		os.Exit(1)
	}
}

func cmdShow(args []string) {
	p := getProp(args[0])
	i, _ := strconv.Atoi(args[1])
	c := makeCase(p, envSeed(), i)
	b, _ := json.MarshalIndent(c, "", " ")
	fmt.Println(string(b))
	v, e := execute(p, c)
	for _, l := range e.W.log {
		fmt.Println(l)
	}
	fmt.Println("verdict:", v, sortedCounts(e.Probes))
}

// cmdFixcheck reads files made by the reference tools plainly: the fixtures, or
// FILE.bin with FILE.json of a directory (a tool for making fixtures).
func cmdFixcheck(args []string) {
	names := fixtureNames
	if len(args) > 0 {
		fixtureFS = os.DirFS(args[0])
		loadFixtureNames()
		names = fixtureNames
	}
	if len(args) > 1 {
		names = args[1:]
	}
	bad := 0
	for _, n := range names {
		id := os.Getenv("FIXCHECK")
		if id == "" {
			id = "C07"
		}
		p := getProp(id)
		c := &Case{Prop: id, Kind: "fix", Fixture: n, Mode: os.Getenv("FIXCHECK_MODE"), P: map[string]int64{}}
		t0 := time.Now()
		v, _ := execute(p, c)
		if v != nil {
			bad++
			fmt.Printf("%-28s %v\n", n, v)
		}
		if d := time.Since(t0); d > 100*time.Millisecond {
			fmt.Printf("%-28s takes %v\n", n, d)
		}
	}
	fmt.Println(len(names), "fixtures,", bad, "differ")
}

// cmdExport puts the files that runs have written, without faults, into a directory:
// export PROP FROM TO DIR (a tool for looking at them with the reference tools).
func cmdExport(args []string) {
	p := getProp(args[0])
	from, _ := strconv.Atoi(args[1])
	to, _ := strconv.Atoi(args[2])
	for i := from; i < to; i++ {
		c := makeCase(p, envSeed(), i)
		c.Faults = nil
		_, e := execute(p, c)
		if data := e.W.Get(outName); data != nil && bytes.HasPrefix(data, []byte("\x89HDF")) {
			if err := os.WriteFile(fmt.Sprintf("%s/%s-%05d.nc", args[3], p.ID, i), data, 0o644); err != nil {
				die("%v", err)
			}
		}
	}
}

// refcdf N OUT: makes the fixture of CDF files that the reference library wrote: specs
// are encoded, copied by nccopy, and kept together with the copy (run once).
func cmdRefCDF(args []string) {
	n, _ := strconv.Atoi(args[0])
	dir, err := os.MkdirTemp("", "refcdf")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(dir)
	var refs []cdfRef
	for i := 0; len(refs) < n; i++ {
		spec := newGen(NewRNG(mix64(uint64(i) + 4711))).cdfSpec()
		if len(spec.Vars) == 0 || spec.Perm != 0 { // the library wants the data in order
			continue
		}
		in, out := filepath.Join(dir, "in.nc"), filepath.Join(dir, "out.nc")
		os.WriteFile(in, spec.Build(), 0o644)
		if b, err := exec.Command("nccopy", in, out).CombinedOutput(); err != nil {
			fmt.Printf("%d: nccopy: %s v%d rec %d tags %v holes %v tail %d size %d dims %v vars %v\n", i, strings.ReplaceAll(string(b), "\n", " "), spec.Version, spec.NumRecs, spec.Tags, spec.Holes != 0, spec.Tail, len(spec.Build()), spec.Dims, spec.Vars)
			continue
		}
		b, err := os.ReadFile(out)
		if err != nil {
			die("%v", err)
		}
		same := true // names may have been normalised
		for _, d := range spec.Dims {
			same = same && bytes.Contains(b, []byte(d.Name))
		}
		for _, a := range spec.Attrs {
			same = same && bytes.Contains(b, []byte(a.Name))
		}
		for _, v := range spec.Vars {
			same = same && bytes.Contains(b, []byte(v.Name))
			for _, a := range v.Attrs {
				same = same && bytes.Contains(b, []byte(a.Name))
			}
		}
		if same {
			refs = append(refs, cdfRef{spec, b})
		}
	}
	b, _ := json.Marshal(refs)
	f, err := os.Create(args[1])
	if err != nil {
		die("%v", err)
	}
	z, _ := gzip.NewWriterLevel(f, 9)
	z.Write(b)
	z.Close()
	f.Close()
}
