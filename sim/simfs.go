package main

// The simulated storage.  Everything the library reads or writes goes through
// a simFile: the simulator decides how many bytes each call moves, which calls
// fail and how, and what survives a crash.

import (
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"io/fs"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"
)

// A Fault makes one storage operation misbehave.
type Fault struct {
	Op   string `json:"op"`          // open, create, read, seek, write, close, alloc
	File string `json:"f,omitempty"` // restrict to this file ("" = any)
	Nth  int    `json:"n"`           // which such operation, counted from 0, since the world began
	Kind string `json:"k"`           // eio, enospc, short, eof, zero, crash, ...
	Arg  int    `json:"a,omitempty"` // bytes moved before the fault takes effect
	N    int    `json:"c,omitempty"` // how many operations in a row (0 means 1, -1 means for ever)
}

func (f Fault) String() string {
	return fmt.Sprintf("%s#%d:%s/%d x%d", f.Op, f.Nth, f.Kind, f.Arg, f.N)
}

// Delivery says how a healthy storage splits up what it was asked for.
type Delivery struct {
	Mode string `json:"mode,omitempty"` // "" full, "one", "rand", "chunk", "mix"
	Size int    `json:"size,omitempty"`
	EOF  bool   `json:"eof,omitempty"`  // return io.EOF together with the last bytes
	Zero int    `json:"zero,omitempty"` // percent of reads that return 0, nil first
	Seed uint64 `json:"seed,omitempty"`
}

var errEIO = fmt.Errorf("simulated: %w", syscall.EIO)
var errENOSPC = fmt.Errorf("simulated: %w", syscall.ENOSPC)

// errCrash is thrown through the library when the simulated process dies.
type crashPanic struct{}

// World is one simulated machine: storage, clock, fault plan and event log.
type World struct {
	files        map[string]*simNode
	faults       []Fault
	delivery     Delivery
	drng         *RNG
	counts       map[string]int // operations so far, by kind
	fired        map[string]int // faults that took effect, by op:kind
	handles      []*simFile
	now          time.Duration // simulated clock
	steps        int
	maxSteps     int
	log          []string
	logHash      uint64
	keepLog      bool
	yield        func(what string) // called at every point where another task may run
	stall        bool
	windowFaults int // faults that fired since the counter was last reset
	crashed      bool
	lastOff      int64
	bytesRead    int64
	kernel       func(f func()) // with the race detector: does what touches this world
	quiet        bool           // no events
	largeFiles   bool           // new files are kept as the pieces that were written
}

// inKernel says if a call must be handed to the kernel: tasks may not touch what they
// share without synchronisation that the detector would see.
func (w *World) inKernel() bool { return raceBuild && w.kernel != nil }

type simNode struct {
	name string
	data []byte
	virt virtual // instead of data: contents that are computed
}

// virtual is the contents of a file too large to hold in memory.
type virtual interface {
	size() int64
	fill(p []byte, pos int64)
}

func (n *simNode) size() int64 {
	if n.virt != nil {
		return n.virt.size()
	}
	return int64(len(n.data))
}

// copyTo copies what is at pos and returns how much that was.
func (n *simNode) copyTo(p []byte, pos int64) int {
	if n.virt == nil {
		return copy(p, n.data[min(pos, int64(len(n.data))):])
	}
	k := max(0, min(int64(len(p)), n.virt.size()-pos))
	if k > 0 {
		n.virt.fill(p[:k], pos)
	}
	return int(k)
}

func (w *World) PutVirtual(name string, v virtual) { w.files[name] = &simNode{name: name, virt: v} }

func NewWorld() *World {
	return &World{files: map[string]*simNode{}, counts: map[string]int{}, fired: map[string]int{},
		maxSteps: 2_000_000, keepLog: true, logHash: 14695981039346656037}
}

type stepLimit struct{}

// After this many storage operations reads are delivered whole, so that the
// step limit tells loops without progress from large files read byte by byte.
const patience = 150_000

// event records one storage event; the log never draws random numbers.
func (w *World) event(format string, a ...any) {
	if w.quiet {
		return
	}
	s := fmt.Sprintf(format, a...)
	h := fnv.New64a()
	var b [8]byte
	for i := range b {
		b[i] = byte(w.logHash >> (8 * i))
	}
	h.Write(b[:])
	h.Write([]byte(s))
	w.logHash = h.Sum64()
	if w.keepLog && len(w.log) < 4000 {
		w.log = append(w.log, s)
	}
}

func (w *World) step(cost time.Duration) {
	w.steps++
	w.now += cost
	if w.steps > w.maxSteps {
		panic(stepLimit{})
	}
}

// match finds the fault, if any, for the next operation of this kind.
func (w *World) match(op string) *Fault {
	n := w.counts[op]
	w.counts[op] = n + 1
	for i := range w.faults {
		f := &w.faults[i]
		if f.Op != op || f.Kind == "off" {
			continue
		}
		c := f.N
		if c == 0 {
			c = 1
		}
		if n == f.Nth || (n > f.Nth && (c < 0 || n < f.Nth+c)) {
			return f
		}
	}
	return nil
}

func (w *World) fire(f *Fault) {
	w.fired[f.Op+":"+f.Kind]++
	w.windowFaults++
}

func (w *World) setDelivery(d Delivery) {
	w.delivery = d
	w.drng = NewRNG(d.Seed)
}

func (w *World) Put(name string, data []byte) {
	w.files[name] = &simNode{name: name, data: append([]byte(nil), data...)}
}

func (w *World) Get(name string) (data []byte) {
	if w.inKernel() {
		w.kernel(func() { data = w.get(name) })
		return data
	}
	return w.get(name)
}

func (w *World) get(name string) []byte {
	if n := w.files[name]; n != nil {
		return n.data
	}
	return nil
}

// OpenFiles is how many handles have been opened and not closed.
func (w *World) OpenFiles() int {
	n := 0
	for _, h := range w.handles {
		if h.closes == 0 {
			n++
		}
	}
	return n
}

// lifecycle reports any handle that was closed twice or used after close.
func (w *World) lifecycle() string {
	for i, h := range w.handles {
		if h.closes > 1 {
			return fmt.Sprintf("handle %d (%s) closed %d times", i, h.node.name, h.closes)
		}
		if h.usedAfterClose > 0 {
			return fmt.Sprintf("handle %d (%s) used %d times after it was closed", i, h.node.name, h.usedAfterClose)
		}
	}
	return ""
}

func (w *World) Open(name string) (f *simFile, err error) {
	if w.inKernel() {
		w.kernel(func() { f, err = w.open(name) })
		return f, err
	}
	return w.open(name)
}

func (w *World) open(name string) (*simFile, error) {
	w.step(20 * time.Microsecond)
	if f := w.match("open"); f != nil {
		w.fire(f)
		w.event("open %s: %s", name, f.Kind)
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.EMFILE}
	}
	n := w.files[name]
	if n == nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
	}
	h := &simFile{w: w, node: n}
	w.handles = append(w.handles, h)
	w.event("open %s", name)
	return h, nil
}

func (w *World) Create(name string) (f *simFile, err error) {
	if w.inKernel() {
		w.kernel(func() { f, err = w.create(name) })
		return f, err
	}
	return w.create(name)
}

func (w *World) create(name string) (*simFile, error) {
	w.step(20 * time.Microsecond)
	if f := w.match("create"); f != nil {
		w.fire(f)
		w.event("create %s: %s", name, f.Kind)
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.EACCES}
	}
	n := &simNode{name: name}
	if w.largeFiles {
		n.virt = &pieces{}
	}
	w.files[name] = n
	h := &simFile{w: w, node: n, writable: true}
	w.handles = append(w.handles, h)
	w.event("create %s", name)
	return h, nil
}

// simFile is an open handle.
type simFile struct {
	w              *World
	node           *simNode
	pos            int64
	writable       bool
	closes         int
	usedAfterClose int
}

func (h *simFile) Name() string { return h.node.name }

func (h *simFile) pause(what string) {
	if h.w.yield != nil {
		h.w.yield(what)
	}
}

func (h *simFile) Seek(off int64, whence int) (at int64, err error) {
	h.pause("seek")
	if h.w.inKernel() {
		h.w.kernel(func() { at, err = h.seek(off, whence) })
		return at, err
	}
	return h.seek(off, whence)
}

func (h *simFile) seek(off int64, whence int) (int64, error) {
	w := h.w
	w.step(time.Microsecond)
	if h.closes > 0 {
		h.usedAfterClose++
		return 0, os.ErrClosed
	}
	if f := w.match("seek"); f != nil {
		w.fire(f)
		w.event("seek %d: %s", off, f.Kind)
		return 0, errEIO
	}
	var np int64
	switch whence {
	case io.SeekStart:
		np = off
	case io.SeekCurrent:
		np = h.pos + off
	case io.SeekEnd:
		np = h.node.size() + off
	}
	if np < 0 {
		return 0, &fs.PathError{Op: "seek", Path: h.node.name, Err: syscall.EINVAL}
	}
	h.pos = np
	if whence != io.SeekStart || w.keepLog {
		w.event("seek %d/%d", off, whence)
	}
	return np, nil
}

func (h *simFile) Read(p []byte) (int, error) {
	h.pause("read")
	n, err := h.readAt(p, h.pos)
	h.pos += int64(n)
	return n, err
}

func (h *simFile) ReadAt(p []byte, off int64) (int, error) {
	h.pause("read")
	tot := 0
	for tot < len(p) {
		n, err := h.readAt(p[tot:], off+int64(tot))
		tot += n
		if err != nil {
			return tot, err
		}
	}
	return tot, nil
}

func (h *simFile) readAt(p []byte, pos int64) (got int, err error) {
	if h.w.inKernel() {
		h.w.kernel(func() { got, err = h.readAt1(p, pos) })
		return got, err
	}
	return h.readAt1(p, pos)
}

func (h *simFile) readAt1(p []byte, pos int64) (got int, _ error) {
	w := h.w
	defer func() { w.bytesRead += int64(got) }()
	w.step(50*time.Microsecond + time.Duration(len(p))*10*time.Nanosecond)
	if h.closes > 0 {
		h.usedAfterClose++
		return 0, os.ErrClosed
	}
	w.lastOff = pos
	f := w.match("read")
	if len(p) == 0 {
		return 0, nil
	}
	avail := h.node.size() - pos
	if avail < 0 {
		avail = 0
	}
	want := int64(len(p))
	if want > avail {
		want = avail
	}
	if f != nil {
		w.fire(f)
		k := int64(f.Arg)
		if k > want {
			k = want
		}
		n := h.node.copyTo(p[:k], pos)
		w.event("read @%d len %d: %s after %d", pos, len(p), f.Kind, n)
		switch f.Kind {
		case "eof": // the file appears to end here
			if n == 0 {
				return 0, io.EOF
			}
			return n, nil
		case "stall":
			w.now += 30 * time.Second
			return n, nil
		}
		return n, errEIO
	}
	if avail == 0 {
		w.event("read @%d len %d: EOF", pos, len(p))
		return 0, io.EOF
	}
	d := &w.delivery
	if d.Zero > 0 && w.steps <= patience && w.drng.P(d.Zero) {
		w.fired["read:zero"]++
		w.event("read @%d len %d: 0,nil", pos, len(p))
		return 0, nil
	}
	mode := d.Mode
	if w.steps > patience {
		mode = "" // enough: let the run come to an end
	}
	if mode == "mix" {
		mode = pick(w.drng, "", "one", "rand", "chunk")
	}
	n := want
	switch mode {
	case "one":
		n = 1
	case "rand":
		n = 1 + w.drng.I64n(want)
	case "chunk":
		// a device that never crosses a block boundary in one call
		sz := int64(max(d.Size, 1))
		if left := sz - pos%sz; n > left {
			n = left
		}
	}
	if n < want {
		w.fired["read:short"]++
	}
	h.node.copyTo(p[:n], pos)
	w.event("read @%d len %d: %d", pos, len(p), n)
	if d.EOF && pos+n == h.node.size() && n < int64(len(p)) {
		w.fired["read:eof-with-data"]++
		return int(n), io.EOF
	}
	return int(n), nil
}

func (h *simFile) Write(p []byte) (int, error) {
	n, err := h.writeAt(p, h.pos)
	h.pos += int64(n)
	return n, err
}

func (h *simFile) WriteAt(p []byte, off int64) (int, error) { return h.writeAt(p, off) }

func (h *simFile) WriteString(s string) (int, error) { return h.Write([]byte(s)) }

func (h *simFile) writeAt(p []byte, pos int64) (n int, err error) {
	h.pause("write")
	if h.w.inKernel() {
		h.w.kernel(func() { n, err = h.writeAt1(p, pos) })
		return n, err
	}
	return h.writeAt1(p, pos)
}

func (h *simFile) writeAt1(p []byte, pos int64) (int, error) {
	w := h.w
	w.step(80*time.Microsecond + time.Duration(len(p))*10*time.Nanosecond)
	if h.closes > 0 {
		h.usedAfterClose++
		return 0, os.ErrClosed
	}
	if !h.writable {
		return 0, &fs.PathError{Op: "write", Path: h.node.name, Err: syscall.EBADF}
	}
	f := w.match("write")
	n := len(p)
	if f != nil && f.Arg < n {
		n = max(f.Arg, 0)
	}
	// A "bytes" plan counts bytes rather than calls: a disk that fills up, or
	// a machine that dies, when that much has been written.
	var bf *Fault
	for i := range w.faults {
		x := &w.faults[i]
		if x.Op == "wbytes" && w.counts["wbytes"]+len(p) > x.Nth {
			bf = x
			n = max(0, x.Nth-w.counts["wbytes"])
		}
	}
	w.counts["wbytes"] += n
	if s, ok := h.node.virt.(*pieces); ok {
		s.write(p[:n], pos)
	} else {
		if need := pos + int64(n); int64(len(h.node.data)) < need {
			h.node.data = append(h.node.data, make([]byte, need-int64(len(h.node.data)))...)
		}
		copy(h.node.data[pos:], p[:n])
	}
	if f == nil {
		f = bf
	}
	if f != nil {
		w.fire(f)
		w.event("write @%d len %d: %s after %d", pos, len(p), f.Kind, n)
		switch f.Kind {
		case "crash":
			w.crashed = true
			panic(crashPanic{})
		case "enospc":
			return n, &fs.PathError{Op: "write", Path: h.node.name, Err: errENOSPC}
		}
		return n, &fs.PathError{Op: "write", Path: h.node.name, Err: errEIO}
	}
	w.event("write @%d len %d", pos, len(p))
	return n, nil
}

func (h *simFile) Sync() error {
	h.w.step(2 * time.Millisecond)
	if f := h.w.match("sync"); f != nil {
		h.w.fire(f)
		return errEIO
	}
	return nil
}

func (h *simFile) Truncate(size int64) error {
	h.w.step(time.Microsecond)
	if size <= int64(len(h.node.data)) {
		h.node.data = h.node.data[:size]
	} else {
		h.node.data = append(h.node.data, make([]byte, size-int64(len(h.node.data)))...)
	}
	return nil
}

func (h *simFile) Close() (err error) {
	h.pause("close")
	if h.w.inKernel() {
		h.w.kernel(func() { err = h.close() })
		return err
	}
	return h.close()
}

func (h *simFile) close() error {
	w := h.w
	w.step(20 * time.Microsecond)
	h.closes++
	if h.closes > 1 {
		w.event("close %s again", h.node.name)
		return os.ErrClosed
	}
	if f := w.match("close"); f != nil {
		w.fire(f)
		w.event("close %s: %s", h.node.name, f.Kind)
		if f.Kind == "crash" {
			w.crashed = true
			panic(crashPanic{})
		}
		return &fs.PathError{Op: "close", Path: h.node.name, Err: errEIO}
	}
	w.event("close %s", h.node.name)
	return nil
}

type simInfo struct {
	name string
	size int64
}

func (s simInfo) Name() string       { return s.name }
func (s simInfo) Size() int64        { return s.size }
func (s simInfo) Mode() fs.FileMode  { return 0o644 }
func (s simInfo) ModTime() time.Time { return time.Unix(0, 0) }
func (s simInfo) IsDir() bool        { return false }
func (s simInfo) Sys() any           { return nil }

func (h *simFile) Stat() (os.FileInfo, error) {
	return simInfo{h.node.name, h.node.size()}, nil
}

func (w *World) firedList() string {
	var ks []string
	for k, v := range w.fired {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

var errNotSim = errors.New("not a simulated file")
