package main

// A Case is one run, completely: replaying it repeats the run exactly.

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/batchatco/go-native-netcdf/internal/seam"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
)

// ROp is one call on a reader.
type ROp struct {
	Kind  string  `json:"k"`
	H     int     `json:"h,omitempty"`  // which open handle
	To    int     `json:"to,omitempty"` // the handle it makes
	G     string  `json:"g,omitempty"`
	Name  string  `json:"n,omitempty"`
	Begin []int64 `json:"b,omitempty"`
	End   []int64 `json:"e,omitempty"`
	Task  int     `json:"t,omitempty"`
}

func (o ROp) String() string {
	s := fmt.Sprintf("h%d.%s", o.H, o.Kind)
	switch o.Kind {
	case "open", "new":
		s = fmt.Sprintf("h%d=%s", o.To, o.Kind)
	case "group":
		s = fmt.Sprintf("h%d=%s", o.To, s)
	}
	if o.G != "" {
		s += " " + o.G
	}
	if o.Name != "" {
		s += fmt.Sprintf(" %q", cut(o.Name))
	}
	if o.Begin != nil || o.End != nil {
		s += fmt.Sprintf(" %v:%v", o.Begin, o.End)
	}
	return s
}

// Corrupt is damage done to stored bytes.
type Corrupt struct {
	Off int64 `json:"o"`
	Xor byte  `json:"x,omitempty"`
	Set *byte `json:"v,omitempty"`
}

type Case struct {
	Prop     string           `json:"property"`
	Mode     string           `json:"mode,omitempty"`
	Seed     uint64           `json:"seed"`
	Index    int              `json:"index"`
	Race     bool             `json:"race,omitempty"` // runs in the build with the race detector
	MapSeed  uint64           `json:"map_seed"`
	Kind     string           `json:"kind,omitempty"`
	WOps     []WOp            `json:"writer_ops,omitempty"`
	CDF      *CDFSpec         `json:"cdf,omitempty"`
	Fixture  string           `json:"fixture,omitempty"`
	Others   []*Case          `json:"others,omitempty"` // sources of other files
	ROps     []ROp            `json:"reader_ops,omitempty"`
	Faults   []Fault          `json:"faults,omitempty"`
	Delivery Delivery         `json:"delivery"`
	Corrupt  []Corrupt        `json:"corrupt,omitempty"`
	Cut      int64            `json:"cut,omitempty"` // length the file is cut to (0: not cut, -1: to nothing)
	Sched    []int            `json:"sched,omitempty"`
	SchedRNG uint64           `json:"sched_seed,omitempty"`
	P        map[string]int64 `json:"params,omitempty"`
	Before   []*Case          `json:"before,omitempty"` // runs of the same process that come first
	Expect   string           `json:"expect,omitempty"` // class of the violation, in a replay file
	Detail   string           `json:"detail,omitempty"`
}

func (c *Case) clone() *Case {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	var n Case
	if err := json.Unmarshal(b, &n); err != nil {
		panic(err)
	}
	return &n
}

// Violation is a broken property.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

func (v *Violation) String() string { return v.Class + ": " + v.Detail }

func violf(class, format string, a ...any) *Violation {
	return &Violation{class, fmt.Sprintf(format, a...)}
}

func violDiff(prefix string, d *diff) *Violation {
	if d == nil {
		return nil
	}
	return &Violation{prefix + d.Class, d.Detail}
}

// Env is what one execution reports besides its verdict.
type Env struct {
	W       *World
	Probes  map[string]int
	Trivial bool // nothing of interest happened
	State   []string
}

func (e *Env) probe(name string) { e.Probes[name]++ }

// Prop is one property and the machinery that decides it.
// Runs from this number on use the build with the race detector.
const raceBase = 1 << 30

// raceLogEnv names the file, without the process number, that the detector writes to.
const raceLogEnv = "VERIF_RACE_LOG"

// raceReport is a race between two places of the library.
type raceReport struct{ sides []string }

type Prop struct {
	ID               string
	Gen              func(r *RNG, c *Case)
	Run              func(c *Case, e *Env) *Violation
	Shrink           func(c *Case) []*Case
	Quick            int  // simulated runs in the quick tier
	Slow             bool // a run takes seconds
	Thorough         int
	QuickRace        int // further runs with the race detector
	ThoroughRace     int
	Level            string
	Rule             string
	Real             string
	Stub             string
	DeathIsViolation bool
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func propIDs() []string {
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

func makeCase(p *Prop, base uint64, idx int) *Case {
	seed := seedFor(base, p.ID, idx)
	c := &Case{Prop: p.ID, Seed: seed, Index: idx, P: map[string]int64{}}
	seedMaps(seed | 1)
	r := NewRNG(seed)
	c.MapSeed = r.U64()
	p.Gen(r, c)
	if idx >= raceBase {
		c.Race = true
		c.Delivery = Delivery{} // fewer operations; the other runs are about that
	}
	return c
}

// install points the library at this world.
func (w *World) install() {
	seam.OpenHook = func(name string) (seam.File, error) {
		h, err := w.Open(name)
		if err != nil {
			return nil, err
		}
		return h, nil
	}
	seam.CreateHook = func(name string) (seam.File, error) {
		h, err := w.Create(name)
		if err != nil {
			return nil, err
		}
		return h, nil
	}
	seam.LockHook = nil
	seam.UnlockHook = nil
}

func quietLibrary() {
	log.SetOutput(io.Discard)
	cdf.SetLogLevel(0)
	hdf5.SetLogLevel(0)
}

// execute runs a case once.  It is a pure function of the case and the code.
func execute(p *Prop, c *Case) (v *Violation, e *Env) {
	e = &Env{W: NewWorld(), Probes: map[string]int{}}
	seedMaps(c.MapSeed | 1)
	e.W.faults = c.Faults
	e.W.setDelivery(c.Delivery)
	e.W.install()
	defer func() {
		if r := recover(); r != nil {
			v = panicViolation(r)
		}
	}()
	v = p.Run(c, e)
	if c.Race {
		if r := raceReports(); v == nil && len(r) > 0 {
			v = violf("data-race", "%s; %s, and nothing orders them", r[0].sides[0], r[0].sides[1])
		}
	}
	return v, e
}

func panicViolation(r any) *Violation {
	switch x := r.(type) {
	case stepLimit:
		return violf("no-progress", "more than the allowed number of storage operations")
	case harnessError:
		panic(r)
	case *Violation:
		return x
	}
	st := string(debug.Stack())
	return violf("panic:"+panicSite(st), "%v at %s", r, panicSite(st))
}

// harnessError is a mistake of the simulator, never a verdict.
type harnessError string

// panicSite is the library function in which the (first) panic arose.
func panicSite(st string) string {
	lines := strings.Split(st, "\n")
	last := -1
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.gopanic") || strings.HasPrefix(l, "runtime.panic") {
			last = i
		}
	}
	for _, l := range lines[last+1:] {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if i := strings.Index(l, "go-native-netcdf/"); i >= 0 && !strings.Contains(l, "verifsim") {
			f := l[i+len("go-native-netcdf/"):]
			if j := strings.LastIndex(f, "("); j > 0 {
				f = f[:j]
			}
			return f
		}
	}
	return "?"
}

// isThrown tells an error the library throws on purpose from a runtime panic.
func isThrown(r any) bool { return fmt.Sprintf("%T", r) == "thrower.thrown" }

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "sim: "+format+"\n", a...)
	os.Exit(2)
}
