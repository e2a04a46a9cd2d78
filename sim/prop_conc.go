package main

// C11: several tasks use one open file.  A seeded scheduler decides at every
// storage operation and every lock operation which task goes on.

import (
	"fmt"
	"sort"
	"unsafe"

	"github.com/batchatco/go-native-netcdf/internal/seam"
)

type task struct {
	id     int
	resume chan bool // false: give up
	done   bool
	wait   *seam.Mutex
	stuck  bool // waits for a lock of the standard library
	won    bool // got one
	asOf   int  // the progress when it last tried
	panicV any
	viol   *Violation
}

type killTask struct{}

// sched runs tasks one at a time.
type sched struct {
	tasks   []*task
	cur     *task
	back    chan func() // nil: another task may run
	owner   map[*seam.Mutex]*task
	writers map[unsafe.Pointer]int // tasks that wait to lock an RWMutex
	moves   int                    // how often a task got on
	killing bool
	list    []int
	rng     *RNG
	stick   int // percent of points at which the running task goes on
	trace   []int
	points  int
	swaps   int
}

func (s *sched) yield(string) {
	t := s.cur
	if t == nil || s.killing {
		return
	}
	raceOff()
	defer raceOn()
	s.back <- nil
	if !<-t.resume {
		panic(killTask{})
	}
}

// call has f done by the scheduler's goroutine.  It sees what the tasks do, but they must
// not see each other's doings through it.
func (s *sched) call(f func()) {
	t := s.cur
	if t == nil || s.killing {
		f()
		return
	}
	var p any
	raceOff()
	s.back <- func() {
		defer func() { p = recover() }()
		f()
	}
	<-t.resume
	raceOn()
	raceAcquire(unsafe.Pointer(s))
	if p != nil {
		panic(p)
	}
}

// await waits until the running task comes to a point where another may run.
func (s *sched) await(t *task) {
	raceOff()
	for f := range s.back {
		if f == nil {
			break
		}
		cur := s.cur
		s.cur = nil // what f calls it calls directly
		f()
		s.cur = cur
		raceOn()
		raceRelease(unsafe.Pointer(s))
		raceOff()
		t.resume <- true
	}
	raceOn()
}

func (s *sched) lock(m *seam.Mutex) {
	if s.killing {
		return
	}
	t := s.cur
	if t == nil {
		s.owner[m] = &task{}
		raceAcquire(unsafe.Pointer(m))
		return
	}
	s.yield("lock")
	for got := false; !got; {
		s.call(func() {
			if got = s.owner[m] == nil; got {
				s.owner[m] = t
			}
		})
		if !got {
			t.wait = m
			s.yield("blocked")
		}
	}
	t.wait = nil
	raceAcquire(unsafe.Pointer(m))
}

func (s *sched) unlock(m *seam.Mutex) {
	if s.killing {
		return
	}
	raceRelease(unsafe.Pointer(m))
	s.call(func() {
		if s.owner[m] == nil {
			panic(violf("unlock", "a lock that is not held was unlocked"))
		}
		delete(s.owner, m)
	})
	s.yield("unlock")
}

// verifBlock belongs to the simulator's copy of package sync (see build.sh): a mutex of
// the standard library calls it when it is taken (mode 0), an RWMutex always (1 to read,
// 2 to write).
//
//go:linkname verifBlock internal/sync.verifBlock
var verifBlock func(p unsafe.Pointer, mode int, try func() bool) bool

// block has the running task wait for a lock that the simulator does not keep itself.
func (s *sched) block(p unsafe.Pointer, mode int, try func() bool) bool {
	if s.killing {
		panic(killTask{})
	}
	t := s.cur
	if t == nil {
		return false
	}
	if mode != 0 {
		s.yield("lock")
	}
	announced := false
	for {
		may := true
		if mode == 1 { // who waits to write goes first
			s.call(func() { may = s.writers[p] == 0 })
		}
		if may && try() {
			break
		}
		if mode == 2 && !announced {
			announced = true
			s.call(func() { s.writers[p]++ })
		}
		t.stuck = true
		s.yield("blocked")
	}
	if announced {
		s.call(func() { s.writers[p]-- })
	}
	t.stuck, t.won = false, true
	return true
}

// choose picks the next task: 0 is to go on with the same, k the k-th other.
func (s *sched) choose(runnable []*task) *task {
	var order []*task
	for _, t := range runnable {
		if t == s.cur {
			order = append(order, t)
		}
	}
	for _, t := range runnable {
		if t != s.cur {
			order = append(order, t)
		}
	}
	k := 0
	if s.points < len(s.list) {
		k = s.list[s.points]
	} else if s.rng != nil && !(order[0] == s.cur && s.rng.P(s.stick)) {
		k = s.rng.Intn(len(order))
	}
	s.points++
	k %= len(order)
	s.trace = append(s.trace, k)
	if order[k] != s.cur {
		s.swaps++
	}
	return order[k]
}

// run runs the tasks to their ends.
func (s *sched) run(bodies map[int]func(t *task)) *Violation {
	s.back = make(chan func())
	var ids []int
	for id := range bodies {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		t := &task{id: id, resume: make(chan bool)}
		s.tasks = append(s.tasks, t)
		body := bodies[id]
		go func() {
			raceOff()
			ok := <-t.resume
			raceOn()
			if !ok {
				t.done = true
				s.back <- nil
				return
			}
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(killTask); !ok {
						t.panicV = r
						func() {
							defer func() {
								if r := recover(); r != nil {
									t.panicV = r // a harness error
								}
							}()
							t.viol = panicViolation(r)
						}()
					}
				}
				t.done = true
				raceRelease(unsafe.Pointer(t))
				raceOff()
				s.back <- nil
				raceOn()
			}()
			body(t)
		}()
	}
	var bad *Violation
	for bad == nil {
		var runnable []*task
		left := 0
		for _, t := range s.tasks {
			if t.done {
				continue
			}
			left++
			if (t.wait == nil || s.owner[t.wait] == nil) && (!t.stuck || t.asOf != s.moves) {
				runnable = append(runnable, t)
			}
		}
		if left == 0 {
			break
		}
		if len(runnable) == 0 {
			bad = violf("deadlock", "%d tasks wait for locks that nobody will release", left)
			break
		}
		t := s.choose(runnable)
		s.cur = t
		stuck := t.stuck
		t.won = false
		raceOff()
		t.resume <- true
		raceOn()
		s.await(t)
		if !stuck || !t.stuck || t.won {
			s.moves++
		}
		t.asOf = s.moves
		if t.viol != nil {
			bad = t.viol
		} else if h, ok := t.panicV.(harnessError); ok {
			panic(h)
		}
	}
	s.cur = nil
	// end whatever still runs
	s.killing = true
	for _, t := range s.tasks {
		if !t.done {
			t.resume <- false
			s.await(t)
		}
		raceAcquire(unsafe.Pointer(t))
	}
	s.killing = false
	return bad
}

func runConcurrent(c *Case, e *Env) *Violation {
	w := e.W
	data := sourceBytes(c, w)
	if data == nil {
		e.Trivial = true
		return nil
	}
	w.Put(inName, data)
	oracles := map[string]*Oracle{inName: newOracle(data)}
	made := make([][]byte, len(c.Others))
	for i, other := range c.Others {
		if made[i] = sourceBytes(other, w); made[i] != nil {
			w.Put(otherName(i), made[i])
			oracles[otherName(i)] = newOracle(made[i])
		}
	}
	rr := newRRun(w)
	// In the setup, one after the other, every task gets its own handle.
	byTask := map[int][]*ROp{}
	for i := range c.ROps {
		o := &c.ROps[i]
		if o.Task != 0 {
			byTask[o.Task] = append(byTask[o.Task], o)
			continue
		}
		if o.G != "" && oracles[o.G] == nil {
			continue
		}
		if res := rr.do(o, inName); res.Err != nil {
			return violf("setup", "%s: %v", o, res.Err)
		}
	}
	s := &sched{owner: map[*seam.Mutex]*task{}, writers: map[unsafe.Pointer]int{}, list: c.Sched, stick: int(c.P["stick"])}
	if c.SchedRNG != 0 {
		s.rng = NewRNG(c.SchedRNG)
	}
	// The answers come first: the reference must not run in between.
	want := map[*ROp]*Res{}
	for i := range c.ROps {
		if o := &c.ROps[i]; o.Task != 0 && o.Kind != "open" && o.Kind != "new" && o.Kind != "write" {
			if p, file := c.pathOf(o); p != "" && o.Kind != "close" && oracles[file] != nil {
				want[o] = oracles[file].ask(w, p, o)
			}
		}
	}
	bodies := map[int]func(*task){}
	// Each task has its own table of handles; they are put together afterwards.
	tables := map[int]*RRun{}
	var wrong *Violation
	for id, ops := range byTask {
		rr := rr.split(id)
		tables[id] = rr
		bodies[id] = func(t *task) {
			for _, o := range ops {
				switch o.Kind {
				case "write":
					if d := writeWithin(c, w, id, o, made); d != "" && wrong == nil {
						wrong = violf("differs:write", "task %d: %s: %s", t.id, o, d)
					}
					continue
				case "open", "new":
					file := o.G
					if file == "" {
						file = inName
					}
					if oracles[file] == nil {
						continue
					}
					if res := rr.do(o, inName); res.Err != nil && wrong == nil {
						wrong = violf("differs:open", "task %d: %s: %v", t.id, o, res.Err)
					}
					continue
				}
				sl := rr.slots[o.H]
				open := sl != nil && sl.open
				res := rr.do(o, inName)
				if res.Skip || !open || want[o] == nil || wrong != nil {
					continue
				}
				raceOff()
				d := sameRes(res, want[o])
				raceOn()
				if d != "" {
					wrong = violf("differs:"+o.Kind, "task %d: %s: %s", t.id, o, d)
				}
			}
		}
	}
	seam.LockHook, seam.UnlockHook = s.lock, s.unlock
	verifBlock = s.block
	w.yield = s.yield
	w.kernel, w.quiet = s.call, raceBuild
	v := s.run(bodies)
	w.yield = nil
	w.kernel, w.quiet = nil, false
	for _, t := range tables {
		rr.join(t)
	}
	seam.LockHook, seam.UnlockHook = nil, nil
	verifBlock = nil
	for i := 0; i < s.swaps; i++ {
		e.Probes["switched task"]++
	}
	e.Probes["scheduling points"] += s.points
	w.event("schedule %x", s.traceHash())
	e.Trivial = s.swaps < 2
	if v == nil {
		v = wrong
	}
	if v == nil && w.lifecycle() != "" {
		v = violf("lifecycle", "%s", w.lifecycle())
	}
	if v == nil && w.OpenFiles() != rr.live() {
		v = violf("files", "%d files open, %d in use", w.OpenFiles(), rr.live())
	}
	if v != nil && c.SchedRNG != 0 {
		c.Sched, c.SchedRNG = s.trace, 0
	}
	if v != nil {
		return v
	}
	for id := 0; id < 2000; id++ {
		if sl := rr.slots[id]; sl != nil && sl.open {
			rr.do(&ROp{Kind: "close", H: id}, inName)
		}
	}
	if n := w.OpenFiles(); n != 0 {
		return violf("files", "%d files still open after all handles were closed", n)
	}
	if l := w.lifecycle(); l != "" {
		return violf("lifecycle", "%s", l)
	}
	return nil
}

func (s *sched) traceHash() uint64 {
	h := uint64(1)
	for _, k := range s.trace {
		h = mix64(h + uint64(k))
	}
	return h
}

func otherName(i int) string { return fmt.Sprintf("other%d.nc", i) }

// writeWithin writes a file while other tasks run.  It must be as if it were written alone.
func writeWithin(c *Case, w *World, id int, o *ROp, made [][]byte) string {
	if len(o.Begin) != 1 || int(o.Begin[0]) >= len(c.Others) {
		return ""
	}
	k := int(o.Begin[0])
	src := c.Others[k]
	if src.Kind != "cdf" && src.Kind != "hdf5" || made[k] == nil {
		return ""
	}
	name := fmt.Sprintf("written%d.nc", id)
	wr := startWriter(w, src.Kind, name)
	if wr.openErr != nil {
		return wr.openErr.Error()
	}
	for i := range src.WOps {
		wr.do(&src.WOps[i])
	}
	if err := wr.do(&WOp{Kind: "close", Group: "/"}); err != nil {
		return err.Error()
	}
	if d := w.Get(name); string(d) != string(made[k]) {
		return bytesDiffer(d, made[k])
	}
	return ""
}

// pathOf is the group of the handle a call is made on, and the file, if that is known.
func (c *Case) pathOf(o *ROp) (string, string) {
	type where struct{ path, file string }
	at := map[int]where{}
	for i := range c.ROps {
		x := &c.ROps[i]
		if x == o {
			return at[x.H].path, at[x.H].file
		}
		switch x.Kind {
		case "open", "new":
			at[x.To] = where{"/", inName}
			if x.G != "" {
				at[x.To] = where{"/", x.G}
			}
		case "group":
			if p := at[x.H]; p.path != "" {
				at[x.To] = where{joinPath(p.path, x.Name), p.file}
			}
		}
	}
	return "", ""
}

// concTask generates the calls of one task that begins with the given handle.
func concTask(r *RNG, c *Case, m *MGroup, t int, slot rgslot, pre []ROp) {
	tg := newRgen(r.Fork(), m)
	tg.ops = pre
	tg.slots = []rgslot{slot}
	tg.next = t * 100
	n := r.Range(2, 10)
	if r.P(2) {
		n = r.Range(10, 80)
	}
	for k := n; k > 0; k-- {
		switch {
		case r.P(15):
			tg.openGroup()
		case r.P(8):
			// close, but keep one handle
			open := 0
			for _, s := range tg.slots {
				if s.open {
					open++
				}
			}
			if i := r.Intn(len(tg.slots)); open > 1 && tg.slots[i].open {
				tg.add(ROp{Kind: "close", H: tg.slots[i].id})
				tg.slots[i].open = false
			}
		default:
			tg.call(tg.slotFor(false))
		}
	}
	if r.P(40) {
		for _, s := range tg.slots {
			if s.open {
				tg.add(ROp{Kind: "close", H: s.id})
			}
		}
	}
	for _, o := range tg.ops {
		o.Task = t
		c.ROps = append(c.ROps, o)
	}
}

func init() {
	register(&Prop{ID: "C11", Quick: 10000, Thorough: 200000, QuickRace: 1000, ThoroughRace: 20000, Run: runConcurrent,
		Gen: func(r *RNG, c *Case) {
			genSource(r, c, true)
			m := sourceModel(c)
			rg := newRgen(r.Fork(), m)
			rg.openRoot(pick(r, "open", "new"))
			tasks := r.Range(2, 4)
			if r.P(3) {
				tasks = r.Range(5, 12)
			}
			for len(rg.slots) < tasks+1 {
				id := rg.next
				rg.next++
				var paths []string
				var mods []*MGroup
				groupPaths(m, "/", func(p string, g *MGroup) {
					paths, mods = append(paths, p), append(mods, g)
					if len(g.Vars) > 0 {
						paths, mods = append(paths, p), append(mods, g)
					}
				})
				k := r.Intn(len(paths))
				rg.add(ROp{Kind: "group", H: 0, Name: paths[k], To: id})
				rg.slots = append(rg.slots, rgslot{id, mods[k], paths[k], true})
			}
			c.ROps = rg.ops
			if r.P(30) {
				c.ROps = append(c.ROps, ROp{Kind: "close", H: 0})
			}
			for t := 1; t <= tasks; t++ {
				concTask(r, c, m, t, rg.slots[t], nil)
			}
			// and tasks that have to do with other files, or open this one on their own
			for t := tasks + 1; r.P(40) && t < tasks+3; t++ {
				slot := rgslot{t*100 + 99, m, "/", true}
				op := ROp{Kind: pick(r, "open", "new"), To: slot.id}
				tm := m
				if r.P(70) {
					k := len(c.Others)
					o := &Case{P: map[string]int64{}}
					genSource(r, o, false)
					c.Others = append(c.Others, o)
					if (o.Kind == "cdf" || o.Kind == "hdf5") && r.P(60) {
						c.ROps = append(c.ROps, ROp{Kind: "write", Begin: []int64{int64(k)}, Task: t})
						continue
					}
					tm = sourceModel(o)
					slot.g = tm
					op.G = otherName(k)
				}
				concTask(r, c, tm, t, slot, []ROp{op})
			}
			c.SchedRNG = r.U64() | 1
			c.P["stick"] = int64(pick(r, 0, 50, 80, 95, 99))
			if r.P(25) || len(c.Others) > 0 && r.P(40) {
				genReadDelivery(r, c)
			}
		}})
}

var _ = fmt.Sprint
