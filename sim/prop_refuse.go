package main

// C03 and C05: failures of the storage and refusals of the writer.

import (
	"bytes"
	"fmt"
	"os"
)

// runWriteFaults drives a writer through a history with faults in the storage.
func runWriteFaults(c *Case, e *Env) *Violation {
	w := e.W
	wr := startWriter(w, c.Kind, outName)
	if wr.openErr != nil {
		if w.windowFaults == 0 {
			return violf("create-failed", "OpenWriter: %v, though nothing went wrong in the storage", wr.openErr)
		}
		if n := w.OpenFiles(); n != 0 {
			return violf("leak", "OpenWriter failed and left %d files open", n)
		}
		e.probe("create refused")
		return nil
	}
	if w.windowFaults > 0 {
		return violf("silent", "creating the file failed and OpenWriter did not say so")
	}
	var errs []error
	closes := 0
	for i := range c.WOps {
		o := &c.WOps[i]
		var before []byte
		isClose := o.Kind == "close"
		if isClose && closes > 0 {
			before = append([]byte(nil), w.Get(outName)...)
		}
		had := w.windowFaults
		err := wr.do(o)
		if err == errNoGroup {
			continue
		}
		if err != nil && o.Bad == "" {
			errs = append(errs, err)
		}
		if isClose {
			closes++
			if closes > 1 {
				e.probe("closed again")
				if !bytes.Equal(before, w.Get(outName)) {
					return violf("rewritten", "closing again changed the file from %d to %d bytes", len(before), len(w.Get(outName)))
				}
				if w.windowFaults > had {
					return violf("reclosed", "closing again went to the storage")
				}
			} else if err != nil && w.windowFaults == 0 {
				return violf("close-failed", "Close: %v, though nothing went wrong in the storage", err)
			}
			if n := w.OpenFiles(); n != 0 {
				return violf("leak", "%d files still open after Close", n)
			}
		}
		if s := w.lifecycle(); s != "" {
			return violf("lifecycle", "%s", s)
		}
		if closes > 0 && w.windowFaults > 0 && len(errs) == 0 {
			return violf("silent", "the storage failed (%s) and no call reported it", w.firedList())
		}
		if closes > 0 && !isClose {
			e.probe("used after Close")
		}
	}
	if w.windowFaults > 0 {
		e.probe("fault reported")
	}
	e.Trivial = len(c.WOps) < 2
	return nil
}

// runRefuse: a history with calls that must be refused.
func runRefuse(c *Case, e *Env) *Violation {
	w := e.W
	wr := startWriter(w, c.Kind, outName)
	if wr.openErr != nil {
		return violf("create-failed", "OpenWriter: %v", wr.openErr)
	}
	var good []WOp
	refused := 0
	for i := range c.WOps {
		o := &c.WOps[i]
		err := wr.do(o)
		if err == errNoGroup {
			continue
		}
		if o.Bad == "" && err != nil {
			return violf("refused:"+o.Kind, "%s was refused: %v", o, err)
		}
		if o.Bad != "" {
			if err == nil {
				return violf("accepted:"+o.Bad, "%s was accepted", o)
			}
			refused++
			e.probe("refused: " + o.Bad)
			continue
		}
		good = append(good, *o)
	}
	e.Trivial = refused == 0
	if err := wr.do(&WOp{Kind: "close", Group: "/"}); err != nil {
		return violf("close-failed", "Close: %v", err)
	}
	// After Close nothing is accepted any more, nor does it change the file.
	final := append([]byte(nil), w.Get(outName)...)
	for _, o := range []WOp{{Kind: "var", Group: "/", Name: "late", Type: "int32", Seed: 1}, {Kind: "attrs", Group: "/"},
		{Kind: "group", Group: "/", Name: "late"}} {
		if o.Kind == "group" && c.Kind == "cdf" {
			continue
		}
		if err := wr.do(&o); err == nil {
			return violf("accepted:closed", "%s was accepted after Close", o)
		}
	}
	wr.do(&WOp{Kind: "close", Group: "/"})
	if !bytes.Equal(final, w.Get(outName)) {
		return violf("rewritten", "calls after Close changed the file")
	}
	// The accepted calls alone give the same file.
	const refName = "ref.nc"
	ref := startWriter(w, c.Kind, refName)
	if ref.openErr != nil {
		return violf("create-failed", "OpenWriter: %v", ref.openErr)
	}
	for i := range good {
		if err := ref.do(&good[i]); err != nil {
			return violf("refused:"+good[i].Kind, "%s was refused: %v", good[i], err)
		}
	}
	if err := ref.do(&WOp{Kind: "close", Group: "/"}); err != nil {
		return violf("close-failed", "Close: %v", err)
	}
	if a, b := w.Get(outName), w.Get(refName); !bytes.Equal(a, b) {
		if p := os.Getenv("SIM_KEEP"); p != "" {
			os.WriteFile(p+"/out.nc", a, 0o644)
			os.WriteFile(p+"/ref.nc", b, 0o644)
		}
		return violf("trace-left", "the file differs from the one of the accepted calls alone: %s", firstDiff(a, b))
	}
	m := wr.state.Model()
	g, err := openSim(w, outName)
	if err != nil {
		return violf("reopen", "the file cannot be opened: %v", err)
	}
	d := compareGroup(g, m, "/")
	g.Close()
	return violDiff("", d)
}

func firstDiff(a, b []byte) string {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("%d and %d bytes, first difference at %d (%#x, %#x)", len(a), len(b), i, a[i], b[i])
		}
	}
	return fmt.Sprintf("%d and %d bytes", len(a), len(b))
}

func init() {
	register(&Prop{
		ID: "C03",
		Gen: func(r *RNG, c *Case) {
			c.Kind = pick(r, "cdf", "hdf5")
			g := newGen(r.Fork())
			c.WOps = g.wHist(c.Kind, r.P(30))
			c.WOps = append(c.WOps, WOp{Kind: "close", Group: "/"})
			for k := r.Intn(3); k > 0; k-- {
				c.WOps = append(c.WOps, pick(r, WOp{Kind: "close", Group: "/"},
					WOp{Kind: "var", Group: "/", Name: "late", Type: "int32", Seed: r.U64(), Bad: "closed"},
					WOp{Kind: "attrs", Group: "/", Bad: "closed"}, WOp{Kind: "close", Group: "/"}))
			}
			if r.P(90) {
				genWriteFaults(r, c)
			}
			if r.P(15) {
				genWriteFaults(r, c)
			}
			if r.P(6) {
				c.Faults = append(c.Faults, Fault{Op: "create", Kind: "eacces"})
			}
		},
		Run: runWriteFaults, Quick: 12000, Thorough: 400000,
	})
	register(&Prop{
		ID: "C05",
		Gen: func(r *RNG, c *Case) {
			c.Kind = pick(r, "cdf", "hdf5")
			g := newGen(r.Fork())
			c.WOps = g.wHist(c.Kind, true)
		},
		Run: runRefuse, Quick: 10000, Thorough: 300000,
	})
}
