package h

import (
	"fmt"

	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/support"
)

// ObsExec executes the scenario with its observers attached; what they were
// told and what the run did are judged.
func ObsExec(judge func(x *X, w *World, m *Model, o *Watch)) func(x *X) {
	return func(x *X) {
		if !x.Deploy() {
			return
		}
		for _, r := range x.Sc.Runs {
			if r.OD != nil {
				if err := odInit(); err != nil {
					x.V(x.Sc.Check, "initialisation failed: %v", err)
					return
				}
			}
		}
		w := NewWorld(x.Sc)
		o := NewWatch(w, x.Sc.Obs)
		o.Attach()
		x.atEnd = o.unlisten
		ok := x.RunAll(w, x.coverOpts(), o.listen)
		o.Detach()
		if !ok {
			return
		}
		m := NewModel(x.Sc)
		x.Judge(w, m)
		for k, n := range o.n {
			x.Feat(k, n)
		}
		if len(m.V) == 0 && !m.Stopped() && judge != nil {
			judge(x, w, m, o)
			o.kept(x)
			if len(x.Res.Viols) > 0 && len(x.Res.Trace) == 0 {
				x.Res.Trace = append(x.Res.Trace, Pretty(w.Log)...)
				x.Res.Trace = append(x.Res.Trace, o.pretty()...)
			}
		}
	}
}

// coverOpts asks for coverage of every run, if so configured.
func (x *X) coverOpts() func(i int) func(*instance.RunOptions) {
	if !x.Sc.Cover {
		return nil
	}
	return func(i int) func(*instance.RunOptions) {
		return func(ro *instance.RunOptions) {
			ro.ExecOptions = &instance.ExecOptions{Interceptor: &support.Interceptor{Coverage: &support.Coverage{}, CollectIO: x.Sc.Seed%2 == 0}}
			hold()
			x.Feat("runs with coverage", 1)
			release()
		}
	}
}

// withObs sets the observers of generated scenarios.
func withObs(gen func(uint64, int) *Scenario, set func(o *Obs, class int, r *Rng)) func(uint64, int) *Scenario {
	return func(seed uint64, class int) *Scenario {
		sc := gen(seed, class)
		sc.ClassIx = class
		set(&sc.Obs, class, NewRng(seed^0x0b5e))
		return sc
	}
}

// limited generates for classes of which some have a step limit. In these
// every instance is one whose caller awaits its end.
func limited(id string, cl []Class, p Profile) func(uint64, int) *Scenario {
	q := p
	q.Det, q.Detach, q.Conc = 0, 0, 0
	gen, lim := prof(id, p), prof(id, q)
	return func(seed uint64, class int) *Scenario {
		c := cl[class]
		if c.MaxStep == 0 {
			return gen(seed, class)
		}
		sc := lim(seed, class)
		sc.MaxStep = c.MaxStep
		return sc
	}
}

// supplied has flows supplied with the request in some scenarios.
func supplied(gen func(uint64, int) *Scenario) func(uint64, int) *Scenario {
	return func(seed uint64, class int) *Scenario {
		sc := gen(seed, class)
		if seed%5 == 2 {
			supply(sc, 60)
		}
		return sc
	}
}

// Stopped tells whether the model gave up on the history.
func (m *Model) Stopped() bool { return len(m.V) > 0 }

var recModes = []string{"off", "step", "full", "snapshot", "debugger"}

func obsFaults() []string {
	return append([]string{"recorder call failed", "recorder stalled", "listener stalled", "listener panicked", "listener failed", "tracer failed"}, faultFeats...)
}

func init() {
	general := Profile{Detach: 5, Rerun: 15, Conc: 25, Prio: 20, Flows: 3, Tasks: 6, MinTasks: 1, Fail: 6, EH: 35, Sub: 20, Det: 5, Loop: 12, Retry: 8, Ret: 4, Reply: 2, BadMap: 2, BadLink: 3, BadLoop: 6, ErrLink: 12, Refs: 2, Any: 3, Runs: 2, Lat: 25, Dup: 3, Empty: 2, NoID: 20, Event: 20, Width: 15}
	cl := []Class{}
	for _, m := range recModes {
		cl = append(cl, Class{Recorder: true, Mode: m})
	}
	cl = append(cl, Class{Recorder: true, Mode: "full", MaxStep: 12})
	register(&Check{ID: "C22", Real: realAll, Stub: stubAll + ", state recorder service",
		Classes: cl,
		Gen: withObs(limited("C22", cl, general), func(o *Obs, class int, r *Rng) {
			o.Recorder, o.Mode = true, cl[class].Mode
			if r.P(30) {
				o.RecFail = uint32(50000 + r.N(300000))
			}
			if r.P(30) {
				o.RecLat = int64(1+r.N(50)) * 1000000
			}
		}),
		Exec:    ObsExec(func(x *X, w *World, m *Model, o *Watch) { x.judgeRecorder(w, m, o, x.Sc.Obs.Mode) }),
		Rule:    "generated flows executed with a recorder service in every recording mode; non-trivial: the recorder was called",
		NonTriv: feat("recorder call"),
		Faults:  obsFaults(),
	})
	c13 := []Class{{}, {MaxStep: 12}}
	register(&Check{ID: "C13", Real: realAll + ", core's event dispatcher", Stub: stubAll + ", event listener",
		Classes: c13,
		Gen: supplied(withObs(limited("C13", c13, general), func(o *Obs, class int, r *Rng) {
			o.Listeners = true
			if r.P(30) {
				o.LisLat = int64(1+r.N(50)) * 1000000
			}
			if r.P(20) {
				o.LisPanic = uint32(50000 + r.N(300000))
			}
		})),
		Exec:    ObsExec(func(x *X, w *World, m *Model, o *Watch) { x.judgeEvents(w, m, o) }),
		Rule:    "generated flows executed with an event listener; non-trivial: an event was delivered",
		NonTriv: feat("event delivered"),
		Faults:  obsFaults(),
	})
	c09 := []Class{{}, {Recorder: true, Mode: "full"}, {Recorder: true, Mode: "snapshot", Tracer: true}, {Recorder: true, Mode: "step", SM: true}}
	register(&Check{ID: "C09", Real: realAll + ", core's event dispatcher", Stub: stubAll + ", event listener, recorder, tracer",
		Classes: c09,
		Gen: func(seed uint64, class int) *Scenario {
			sc := withObs(prof("C09", general), func(o *Obs, class int, r *Rng) {
				c := c09[class]
				o.Recorder, o.Mode, o.Tracer, o.SM = c.Recorder, c.Mode, c.Tracer, c.SM
				o.Listeners = r.P(60) || class == 0
				if r.P(30) {
					o.LisLat = int64(1+r.N(50)) * 1000000
				}
				if r.P(30) {
					o.LisPanic = uint32(50000 + r.N(300000))
				}
				if c.Recorder && r.P(40) {
					o.RecFail = uint32(50000 + r.N(300000))
				}
				if c.Recorder && r.P(40) {
					o.RecLat = int64(1+r.N(50)) * 1000000
				}
				if c.Tracer && r.P(40) {
					o.TrcFail = uint32(50000 + r.N(300000))
				}
			})(seed, class)
			sc.Cover = NewRng(seed ^ 0xc0e).P(40)
			return sc
		},
		Exec:    ObsExec(nil),
		Rule:    "generated flows executed with observers that fail, stall or panic, compared with the model of unobserved execution; non-trivial: an observer was called",
		NonTriv: feat("event delivered", "recorder call", "span closed", "runs with coverage"),
		Faults:  obsFaults(),
	})
	c21 := []Class{{Tracer: true}, {Tracer: true, MaxStep: 12}}
	register(&Check{ID: "C21", Real: realAll, Stub: stubAll + ", tracer",
		Classes: c21,
		Gen: supplied(withObs(limited("C21", c21, general), func(o *Obs, class int, r *Rng) {
			o.Tracer = true
			if r.P(15) {
				o.TrcFail = uint32(20000 + r.N(200000))
			}
		})),
		Exec:    ObsExec(func(x *X, w *World, m *Model, o *Watch) { x.judgeSpans(w, m, o) }),
		Rule:    "generated flows executed with a tracer; non-trivial: a span was closed",
		NonTriv: feat("span closed"),
		Faults:  obsFaults(),
	})
}

// pretty is a readable form of what the observers were told.
func (o *Watch) pretty() []string {
	var t []string
	for _, e := range o.Evs {
		if e.Flow {
			t = append(t, fmt.Sprintf("event @%d flow %s (%s) %s", e.At, e.ID, e.Name, e.Status))
		} else {
			t = append(t, fmt.Sprintf("event @%d %s/%s %s", e.At, e.ID, e.Task, e.Status))
		}
	}
	for _, s := range o.Sp {
		p := "-"
		if s.Parent != nil {
			p = fmt.Sprint(s.Parent.N)
		}
		t = append(t, fmt.Sprintf("span %d of %s %s %s: opened @%d closed @%d (%d times) %q", s.N, p, s.Flow, s.Op, s.OpenAt, s.CloseAt, s.Closed, s.Err))
	}
	for _, e := range o.Rec {
		t = append(t, fmt.Sprintf("recorded @%d %s %s", e.At, e.Inst, e.K))
	}
	if len(t) > 400 {
		t = t[:400]
	}
	return t
}
