// Command worker executes simulated runs of one check in one process.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"

	"verif/sim/h"
)

type info struct {
	ID      string
	Classes int
	Env     [][]string
	Rule    string
	Faults  []string
	Real    string
	Stub    string
	Seg     float64
}

type summary struct {
	Runs, NonTriv int
	Feat          map[string]int
	SimNS         int64
	Yields        uint64
	Switches      uint64
	Picks, Multi  uint64
	Slow, Timers  uint64
	Gor           uint64
	Sims          int
	Hashes        []uint64 // schedules
	Shapes        []uint64 // histories
	Sample        *h.Scenario
	WallMS        int64
	Last          uint64
	Known         map[string]int
	Probes        []probe
}

// probe is a run whose repetition in another process must be the same.
type probe struct{ Seed, Hash, Shape uint64 }

func fatal(err error) {
	fmt.Println("ERROR", err)
	os.Exit(3)
}

func emit(k string, v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		fatal(err)
	}
	os.Stdout.Write(append([]byte(k+" "), append(b, '\n')...))
}

func main() {
	check := flag.String("check", "", "")
	class := flag.Int("class", 0, "")
	start := flag.Uint64("start", 0, "")
	stride := flag.Uint64("stride", 1, "")
	secs := flag.Float64("secs", 5, "")
	max := flag.Int("max", 0, "")
	doInfo := flag.Bool("info", false, "")
	gen := flag.Bool("gen", false, "")
	exec := flag.String("exec", "", "")
	keep := flag.Bool("keep", false, "continue after violations (development)")
	shrink := flag.String("shrink", "", "list simpler variants of a scenario")
	known := flag.String("known", "", "file of known findings")
	verbose := flag.Bool("v", false, "")
	flag.Parse()
	if *doInfo {
		var l []info
		for _, c := range h.Checks {
			i := info{ID: c.ID, Classes: len(c.Classes), Rule: c.Rule, Faults: c.Faults, Real: c.Real, Stub: c.Stub, Seg: c.Seg}
			for _, cl := range c.Classes {
				i.Env = append(i.Env, cl.Env())
			}
			l = append(l, i)
		}
		emit("I", l)
		return
	}
	if *shrink != "" {
		b, err := os.ReadFile(*shrink)
		if err != nil {
			fatal(err)
		}
		sc, err := h.ParseScenario(b)
		if err != nil {
			fatal(err)
		}
		for _, c := range h.Shrink(sc) {
			emit("C", c)
		}
		return
	}
	if *known != "" {
		if err := h.LoadKnown(*known); err != nil {
			fatal(err)
		}
	}
	if runtime.GOMAXPROCS(0) != 1 {
		fatal(fmt.Errorf("GOMAXPROCS must be 1"))
	}
	debug.SetGCPercent(-1)
	if *exec != "" {
		b, err := os.ReadFile(*exec)
		if err != nil {
			fatal(err)
		}
		sc, err := h.ParseScenario(b)
		if err != nil {
			fatal(err)
		}
		c := h.Checks[sc.Check]
		if c == nil {
			fatal(fmt.Errorf("no check %q", sc.Check))
		}
		if sc.ClassIx >= len(c.Classes) {
			fatal(fmt.Errorf("no class %d", sc.ClassIx))
		}
		if err := h.InitProc(c.Classes[sc.ClassIx]); err != nil {
			fatal(err)
		}
		emit("R", h.Execute(c, sc))
		return
	}
	c := h.Checks[*check]
	if c == nil {
		fatal(fmt.Errorf("no check %q", *check))
	}
	mk := func(seed uint64) *h.Scenario {
		sc := c.Gen(seed, *class)
		sc.ClassIx = *class
		return sc
	}
	if *gen {
		emit("G", mk(*start))
		return
	}
	if err := h.InitProc(c.Classes[*class]); err != nil {
		fatal(err)
	}
	t0 := time.Now()
	s := &summary{Feat: map[string]int{}}
	hs, sh := map[uint64]bool{}, map[uint64]bool{}
	viols := 0
	for seed := *start; ; seed += *stride {
		if *max > 0 && s.Runs >= *max {
			break
		}
		if *secs > 0 && time.Since(t0).Seconds() > *secs {
			break
		}
		fmt.Fprintf(os.Stdout, "S %d\n", seed)
		s.Last = seed
		sc := mk(seed)
		r := h.Execute(c, sc)
		s.Runs++
		if c.NonTriv == nil || c.NonTriv(r) {
			s.NonTriv++
			if !hs[r.Hash] {
				hs[r.Hash] = true
				s.Hashes = append(s.Hashes, r.Hash)
			}
			if !sh[r.Shape] {
				sh[r.Shape] = true
				s.Shapes = append(s.Shapes, r.Shape)
			}
			if s.Sample == nil && len(sc.JSON()) < 3000 {
				s.Sample = sc
			}
		}
		for k, n := range r.Feat {
			s.Feat[k] += n
		}
		s.SimNS += r.SimNS
		s.Yields += r.Yields
		s.Switches += r.Switches
		s.Picks += r.Picks
		s.Multi += r.Multi
		s.Slow += r.Slow
		s.Timers += r.Timers
		s.Gor += r.Gor
		s.Sims += r.Sims
		for _, k := range r.Known {
			if s.Known == nil {
				s.Known = map[string]int{}
			}
			s.Known[k]++
		}
		if s.Runs%29 == 1 && len(s.Probes) < 40 {
			s.Probes = append(s.Probes, probe{seed, r.Hash, r.Shape})
		}
		if len(r.Viols) > 0 {
			viols++
			if *keep {
				fmt.Printf("V %d %s %s\n", seed, r.Viols[0].Rule, r.Viols[0].Msg)
				if r.Hung {
					break
				}
				continue
			}
			emit("V", map[string]interface{}{"seed": seed, "scenario": sc, "result": r})
			break
		}
		if *verbose {
			fmt.Println(seed, r.Feat)
		}
		if r.Hung {
			break
		}
	}
	s.WallMS = time.Since(t0).Milliseconds()
	emit("E", s)
}
