package h

func prof(id string, p Profile) func(uint64, int) *Scenario {
	return func(seed uint64, class int) *Scenario {
		q := p
		return Gen(id, seed, &q)
	}
}

func feat(keys ...string) func(r *Result) bool {
	return func(r *Result) bool {
		for _, k := range keys {
			if r.Feat[k] > 0 {
				return true
			}
		}
		return false
	}
}

const (
	realAll = "engine (action, instance, model, definition, support packages), flow core expressions and mappers, Go runtime with simulated scheduler and clock"
	stubAll = "activities' work (simulated activity), trigger/caller, engine bootstrap (init context)"
)

func init() {
	register(&Check{ID: "C01", Real: realAll, Stub: stubAll,
		Gen:     prof("C01", Profile{Conc: 20, Prio: 40, Flows: 1, Tasks: 10, MinTasks: 3, Fail: 6, ErrLink: 15, Refs: 1, Runs: 2, Lat: 30, Dup: 5, Width: 12, EH: 10, Loop: 4}),
		Rule:    "a generated flow graph, activity outcomes and branch values, run to the end; non-trivial: a join or an expression link was decided, or a task skipped",
		NonTriv: feat("join decided", "expression links decided", "task skipped"),
		Faults:  []string{"activity failed: err", "activity failed: aerr", "activity failed: rerr", "activity failed: panic"},
	})
	register(&Check{ID: "C02", Real: realAll, Stub: stubAll,
		Gen:     prof("C02", Profile{Conc: 20, Detach: 8, Prio: 20, Flows: 3, Tasks: 7, MinTasks: 1, Fail: 12, EH: 40, Sub: 15, Loop: 10, Retry: 8, Ret: 4, Reply: 3, BadMap: 4, BadLink: 8, BadLoop: 15, ErrLink: 12, Refs: 2, Any: 5, Runs: 3, Lat: 30, Dup: 3, Empty: 3, NoID: 10, Event: 20, Width: 15}),
		Rule:    "a generated set of flows with failures of every kind; non-trivial: something failed, returned or was skipped",
		NonTriv: feat("error handler started", "result: failure", "result: returned", "task skipped", "error link followed"),
		Faults:  faultFeats,
	})
	register(&Check{ID: "C03", Real: realAll, Stub: stubAll,
		Gen:     prof("C03", Profile{Conc: 20, Flows: 3, Tasks: 6, MinTasks: 1, Fail: 20, EH: 60, Sub: 15, Loop: 8, BadMap: 8, BadLink: 10, BadLoop: 25, ErrLink: 25, Refs: 2, Any: 5, Runs: 2, Lat: 25, Dup: 3, Width: 20}),
		Rule:    "a generated set of flows with failures of every kind placed in bodies, error handlers and invoked flows; non-trivial: a failure reached an error link, a handler or the caller",
		NonTriv: feat("error handler started", "result: failure", "error link followed"),
		Faults:  faultFeats,
	})
	register(&Check{ID: "C04", Real: realAll, Stub: stubAll,
		Gen:     prof("C04", Profile{Conc: 20, Flows: 4, Tasks: 5, MinTasks: 1, Fail: 8, EH: 30, Sub: 40, Loop: 5, Ret: 6, BadMap: 3, ErrLink: 15, Refs: 3, Runs: 2, Lat: 30, Empty: 4, Width: 25}),
		Rule:    "generated flows invoking each other to any depth; non-trivial: a flow was invoked",
		NonTriv: feat("subflow started"),
		Faults:  faultFeats,
	})
	register(&Check{ID: "C05", Real: realAll, Stub: stubAll,
		Gen:     prof("C05", Profile{Conc: 20, Flows: 2, Tasks: 5, MinTasks: 1, Fail: 4, EH: 25, Sub: 20, Loop: 60, Ret: 2, BadLoop: 12, ErrLink: 10, Refs: 3, Runs: 2, Lat: 30, Width: 20}),
		Rule:    "generated flows with iterating and do-while activities and subflows; non-trivial: a loop repeated",
		NonTriv: feat("loop repeated"),
		Faults:  faultFeats,
	})
	register(&Check{ID: "C06", Real: realAll, Stub: stubAll,
		Gen:     prof("C06", Profile{Conc: 20, Flows: 2, Tasks: 5, MinTasks: 1, Fail: 12, EH: 30, Sub: 12, Retry: 65, BadMap: 2, ErrLink: 20, Refs: 2, Runs: 2, Lat: 30, Width: 20}),
		Rule:    "generated flows with retried activities failing a varying number of times; non-trivial: an attempt was retried",
		NonTriv: feat("retried"),
		Faults:  append([]string{"retried", "retries used up"}, faultFeats...),
	})
	register(&Check{ID: "C24", Real: realAll, Stub: stubAll + ", schemas",
		Gen:     prof("C24", Profile{Conc: 25, Prio: 10, Flows: 3, Tasks: 6, MinTasks: 1, Fail: 6, EH: 40, Sub: 20, Det: 4, Loop: 20, Retry: 12, Ret: 4, Reply: 2, BadMap: 2, ErrLink: 20, Refs: 3, Any: 3, Runs: 2, Lat: 25, Width: 15, Schema: 30}),
		Rule:    "generated flows whose activities have schemas for inputs and outputs; non-trivial: a value was rejected",
		NonTriv: feat("schema: input rejected", "schema: output rejected"),
		Faults:  append([]string{"schema: input rejected", "schema: output rejected", "schema: validation panicked"}, faultFeats...),
	})
	register(&Check{ID: "C07", Real: realAll, Stub: stubAll,
		Gen:     prof("C07", Profile{Conc: 100, Prio: 20, Flows: 3, Tasks: 7, MinTasks: 2, Fail: 6, EH: 30, Sub: 15, Loop: 8, Retry: 6, Ret: 5, BadMap: 2, BadLink: 4, BadLoop: 6, ErrLink: 10, Refs: 2, Runs: 2, Lat: 40, Dup: 3, Empty: 2, Width: 30}),
		Rule:    "generated flows executed with concurrent tasks under a seeded scheduler; non-trivial: the scheduler had a choice between runnable goroutines",
		NonTriv: func(r *Result) bool { return r.Multi > 0 },
		Faults:  faultFeats,
	})
	register(&Check{ID: "C08", Real: realAll, Stub: stubAll,
		Gen:     prof("C08", Profile{Detach: 6, Conc: 40, Prio: 20, Flows: 3, Tasks: 5, MinTasks: 2, Fail: 5, EH: 20, Sub: 20, Det: 6, Loop: 10, Retry: 6, Ret: 4, ErrLink: 10, Refs: 3, Runs: 6, Lat: 40, NoID: 40, Event: 50, Width: 25}),
		Rule:    "several instances of the same flows at the same time; non-trivial: at least two instances and a scheduling choice",
		NonTriv: func(r *Result) bool { return r.Multi > 0 && r.Feat["runs"] > 1 },
		Faults:  faultFeats,
	})
	register(&Check{ID: "C15", Real: realAll, Stub: stubAll,
		Gen:     prof("C15", Profile{Conc: 20, Flows: 3, Tasks: 7, MinTasks: 3, Fail: 8, EH: 35, Sub: 20, Loop: 15, Retry: 10, ErrLink: 15, Refs: 5, Any: 25, Runs: 2, Lat: 25, Event: 50, Width: 15}),
		Rule:    "generated flows whose activities read outputs, variables, iteration, error and flow data; non-trivial: at least one reference was read",
		NonTriv: func(r *Result) bool { return r.Feat["references read"] > 0 },
		Faults:  faultFeats,
	})
	register(&Check{ID: "C16", Real: realAll, Stub: stubAll,
		Gen:     prof("C16", Profile{Detach: 10, Conc: 30, Flows: 3, Tasks: 6, MinTasks: 2, Fail: 3, EH: 15, Sub: 20, Loop: 5, Ret: 15, Reply: 12, BadLink: 5, ErrLink: 5, Refs: 1, Runs: 2, Lat: 30, Width: 30}),
		Rule:    "generated flows with return and reply activities; non-trivial: a return or reply happened",
		NonTriv: feat("return", "reply"),
		Faults:  faultFeats,
	})
	register(&Check{ID: "C17", Real: realAll, Stub: stubAll,
		Gen:     prof("C17", Profile{Detach: 6, Conc: 25, Flows: 3, Tasks: 5, MinTasks: 1, Fail: 8, EH: 20, Sub: 10, Det: 35, Loop: 6, Retry: 4, Ret: 4, ErrLink: 8, Refs: 2, Runs: 2, Lat: 40, NoID: 30, Event: 70, Width: 25}),
		Rule:    "generated flows starting others in detached mode; non-trivial: a detached flow was started",
		NonTriv: feat("detached started"),
		Faults:  faultFeats,
	})
	register(&Check{ID: "C12", Real: realAll, Stub: stubAll + ", recorder in some classes",
		Classes: stepLimits,
		Gen: func(seed uint64, class int) *Scenario {
			r := NewRng(seed ^ 0x12)
			p := Profile{Conc: 35, Prio: 20, Flows: 2, Tasks: 6, MinTasks: 1, Fail: 6, EH: 30, Sub: 12, Loop: 20, Retry: 12, Ret: 4, Reply: 2, BadMap: 2, BadLink: 2, BadLoop: 4, ErrLink: 10, Refs: 1, Runs: 2, Lat: 25, Empty: 2, Width: 15}
			lost := stepLimits[class].Mode == "full"
			if lost {
				p.Conc = 0
			}
			if lost || r.P(50) { // every step can be observed
				p.Flows, p.Sub, p.EH, p.Loop = 1, 0, 0, 10
			}
			sc := Gen("C12", seed, &p)
			sc.ClassIx = class
			c := stepLimits[class]
			sc.MaxStep = c.MaxStep
			sc.Obs.Recorder, sc.Obs.Mode = c.Recorder, c.Mode
			if !c.Recorder && seed%3 == 1 {
				supply(sc, 70)
			}
			for _, f := range sc.Flows { // runaway instances
				for _, g := range []*Graph{f.Body, f.EH} {
					if g == nil {
						continue
					}
					for _, t := range g.Tasks {
						if t.Loop != nil && t.Loop.Kind == "while" && r.P(30) {
							t.Loop.N = 1 << 30
						}
					}
				}
			}
			if lost { // and continued from the step: the budget is that of the whole execution
				n := 0
				for i := 1 + r.N(4); i > 0; i-- {
					n += 1 + r.N(8)
					sc.Crash = append(sc.Crash, &CrashPt{N: n, Op: "restart", Step: true, Data: r.P(20)})
				}
			}
			return sc
		},
		Exec: func(x *X) {
			if len(x.Sc.Crash) > 0 {
				restartExec(x)
				return
			}
			ObsExec(func(x *X, w *World, m *Model, o *Watch) {
				if x.Sc.Obs.Recorder && x.Sc.Obs.Mode == "step" {
					x.judgeStepCount(m, o)
				}
			})(x)
		},
		Shrink:  restartShrink,
		Rule:    "generated flows, some of them running forever, executed with a small step limit; non-trivial: an instance reached the limit, or ended with no more than three steps left",
		NonTriv: feat("step limit reached", "step limit: just enough"),
		Faults:  append([]string{"step limit reached", "step limit: exact", "step limit: just enough"}, faultFeats...),
	})
	register(&Check{ID: "C18", Real: realAll, Stub: stubAll,
		Gen:     genInterceptors,
		Exec:    IntExec,
		Rule:    "generated flows of which some instances have test interceptors and collect coverage; non-trivial: an activity was skipped, mocked or asserted on, or coverage was compared",
		NonTriv: feat("activity skipped", "activity mocked", "mocked failure", "assertion evaluated", "flow assertion evaluated", "coverage judged"),
		Faults:  append([]string{"activity skipped", "activity mocked", "mocked failure"}, faultFeats...),
	})
	register(&Check{ID: "C14", Seg: 1.2, Warm: 12, Real: realAll + ", file and HTTP flow provider with Go's HTTP client, files in a scratch directory", Stub: stubAll + ", HTTP transport and server",
		Gen:     genRemote,
		Exec:    RemoteExec,
		Rule:    "generated flows published as files and at web locations, read by simultaneous starts with faults; non-trivial: a load encountered a fault, or flows were loaded from several starts",
		NonTriv: func(r *Result) bool { return r.Feat["start refused"] > 0 || r.Feat["loads"] > 1 },
		Faults:  append(loadFeats, faultFeats...),
	})
	register(&Check{ID: "C20", Real: realAll, Stub: stubAll,
		Gen:     genOnDemand,
		Exec:    OnDemandExec,
		Rule:    "generated flows, most supplied with their request and part of those damaged; non-trivial: some flow was supplied with its request",
		NonTriv: feat("on-demand runs"),
		Faults:  append([]string{"request refused", "damaged definition executed"}, faultFeats...),
	})
}

var stepLimits = []Class{{MaxStep: 8}, {MaxStep: 3}, {MaxStep: 5}, {MaxStep: 13}, {MaxStep: 6, Recorder: true, Mode: "step"}, {MaxStep: 40}, {MaxStep: 9, Recorder: true, Mode: "full"}}

// judgeStepCount: the recorder saw every step.
func (x *X) judgeStepCount(m *Model, o *Watch) {
	if m.conc || len(x.Sc.Flows) > 1 { // the failure of a subflow is recorded in addition
		return
	}
	for _, in := range m.mains {
		n := 0
		for i := range o.Rec {
			if e := o.Rec[i]; e.K == "step" && e.Inst == in.hostID {
				n++
			}
		}
		n-- // the start
		switch {
		case in.hostID == "":
		case in.over && n != m.sc.MaxStep:
			x.V("C12", "run %d: stopped by the limit of %d steps after %d recorded steps", in.run, m.sc.MaxStep, n)
		case n > m.sc.MaxStep:
			x.V("C12", "run %d: %d recorded steps, the limit is %d", in.run, n, m.sc.MaxStep)
		}
	}
}

var faultFeats = []string{"activity failed: err", "activity failed: aerr", "activity failed: rerr", "activity failed: panic",
	"input mapping failed", "link expression failed", "loop condition failed", "loop iterand invalid"}

var loadFeats = []string{"invoked flow couldn't be loaded", "load fault: refused", "load fault: timeout", "load fault: reset", "load fault: cut", "load fault: short", "load fault: garbage",
	"load fault: empty", "load fault: null", "load fault: array", "load fault: html", "load fault: status", "load fault: flag", "load fault: badmeta", "load fault: badtask",
	"file fault: gone", "file fault: short", "file fault: garbage", "file fault: empty", "file fault: null", "file fault: array", "file fault: html", "file fault: badmeta", "file fault: badtask", "file fault: other"}
