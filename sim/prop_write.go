package main

// C01 and C02: what an acknowledged Close promises.

import (
	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

const outName = "out.nc"

// openSim opens a simulated file through the public API.
func openSim(w *World, name string) (api.Group, error) { return netcdf.Open(name) }

func genWriteFaults(r *RNG, c *Case) {
	switch r.Intn(5) {
	case 0:
		c.Faults = append(c.Faults, Fault{Op: "wbytes", Nth: r.Intn(6000), Kind: pick(r, "eio", "enospc"), N: -1})
	case 1:
		c.Faults = append(c.Faults, Fault{Op: "write", Nth: r.Intn(3), Kind: pick(r, "eio", "enospc"), Arg: pick(r, 0, 1, 100, 4095)})
	case 2:
		c.Faults = append(c.Faults, Fault{Op: "close", Nth: 0, Kind: "eio"})
	case 3:
		c.Faults = append(c.Faults, Fault{Op: "wbytes", Nth: r.Intn(200), Kind: "enospc", N: -1})
	case 4:
		c.Faults = append(c.Faults, Fault{Op: "write", Nth: 0, Kind: "eio", N: -1, Arg: r.Intn(5000)})
	}
}

// writeAll makes the calls of a history and closes the writer.  It returns nil if there
// is nothing more to check.
func writeAll(c *Case, e *Env) (*WRun, *Violation) {
	w := e.W
	wr := startWriter(w, c.Kind, outName)
	if wr.openErr != nil {
		return nil, violf("create-failed", "OpenWriter: %v", wr.openErr)
	}
	nvars := 0
	for i := range c.WOps {
		o := &c.WOps[i]
		err := wr.do(o)
		if err == errNoGroup {
			continue
		}
		if o.Bad == "" && err != nil {
			return nil, violf("refused:"+o.Kind, "%s was refused: %v", o, err)
		}
		if o.Bad != "" && err == nil {
			return nil, violf("accepted:"+o.Bad, "%s was accepted", o)
		}
		if o.Bad != "" {
			e.probe("call refused")
		}
		if o.Kind == "var" && err == nil {
			nvars++
		}
	}
	w.windowFaults = 0
	err := wr.do(&WOp{Kind: "close", Group: "/"})
	if err != nil {
		if w.windowFaults == 0 {
			return nil, violf("close-failed", "Close: %v, though nothing went wrong in the storage", err)
		}
		e.probe("close reported the fault")
		return nil, nil
	}
	e.probe("close acknowledged")
	if w.windowFaults > 0 {
		e.probe("close acknowledged despite a fault")
	}
	// From here on the storage is healthy.
	w.faults = nil
	e.Trivial = nvars == 0 && len(wr.state.Root.attrs) == 0
	return wr, nil
}

func runWriteRead(c *Case, e *Env) *Violation {
	w := e.W
	wr, v := writeAll(c, e)
	if wr == nil {
		return v
	}
	m := wr.state.Model()
	if c.Kind == "cdf" {
		dec, err := decodeCDF(w.Get(outName))
		if err != nil {
			return violf("malformed", "%v", err)
		}
		if d := compareDecoded(dec, m); d != nil {
			return violDiff("", d)
		}
	}
	g, err := openSim(w, outName)
	if err != nil {
		return violf("reopen", "the file cannot be opened: %v", err)
	}
	d := compareGroup(g, m, "/")
	g.Close()
	return violDiff("", d)
}

func init() {
	for _, k := range []struct{ id, kind string }{{"C01", "cdf"}, {"C02", "hdf5"}} {
		register(&Prop{
			ID: k.id,
			Gen: func(r *RNG, c *Case) {
				c.Kind = k.kind
				g := newGen(r.Fork())
				c.WOps = g.wHist(k.kind, false)
				if r.P(30) {
					genWriteFaults(r, c)
				}
				genDelivery(r, c)
			},
			Run: runWriteRead, Quick: 10000, Thorough: 200000,
			Rule: "A random writer history.",
		})
	}
}

func genDelivery(r *RNG, c *Case) {
	if r.P(50) {
		return
	}
	c.Delivery = Delivery{Mode: pick(r, "", "one", "rand", "chunk", "mix"), Size: pick(r, 1, 2, 3, 7, 16, 64, 512, 4096), EOF: r.P(30), Seed: r.U64()}
	if r.P(20) {
		c.Delivery.Zero = r.Range(1, 20)
	}
}
