package h

import (
	"context"
	"crypto/rand"
	"errors"
	"fmt"
	appresolve "github.com/project-flogo/core/app/resolve"
	"github.com/project-flogo/core/data/resolve"
	"os"
	"runtime"
	"strings"
	"time"

	"github.com/project-flogo/core/action"
	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/app/resource"
	_ "github.com/project-flogo/core/data/expression/script"
	"github.com/project-flogo/core/support/service"
	"github.com/project-flogo/core/support/trace"
	"github.com/project-flogo/core/trigger"
	_ "github.com/project-flogo/flow"
	_ "github.com/project-flogo/flow/activity/subflow"
	"github.com/project-flogo/flow/instance"
)

const FlowRef = "github.com/project-flogo/flow"

// ---- process-level set-up ----

type detReader struct{ r *Rng }

func (d *detReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(d.r.U64())
	}
	return len(p), nil
}

type initCtx struct {
	rm *resource.Manager
	sm *service.Manager
	rs map[string]interface{}
}

func (c *initCtx) ResourceManager() *resource.Manager      { return c.rm }
func (c *initCtx) ServiceManager() *service.Manager        { return c.sm }
func (c *initCtx) RuntimeSettings() map[string]interface{} { return c.rs }

var (
	proc      *initCtx
	procClass Class
	resMap    = map[string]*resource.Resource{}
)

const simApp, simVersion = "simapp", "1.7"

// InitProc configures the engine in this process; it can be done once.
func InitProc(c Class) error {
	procClass = c
	os.Setenv("FLOGO_APP_NAME", simApp)
	os.Setenv("FLOGO_APP_VERSION", simVersion)
	rand.Reader = &detReader{NewRng(42)}
	proc = &initCtx{rm: resource.NewManager(resMap), sm: service.NewServiceManager(), rs: map[string]interface{}{}}
	if c.Recorder {
		if err := proc.sm.RegisterService(&Recorder{}); err != nil {
			return err
		}
	}
	switch {
	case c.Mode == "full" && c.MaxStep == 0: // the deprecated settings
		proc.rs["stepRecordingMode"], proc.rs["snapshotRecordingMode"] = "full", "FULL"
	case c.Mode != "":
		proc.rs["stateRecordingMode"] = c.Mode
	}
	appresolve.SetAppResolver(resolve.NewCompositeResolver(map[string]resolve.Resolver{".": &resolve.ScopeResolver{}, "env": &resolve.EnvResolver{}}))
	for _, d := range loopDelays {
		os.Setenv(fmt.Sprintf("SIM_DELAY_%d", d), fmt.Sprint(d))
	}
	if c.Tracer {
		if err := trace.RegisterTracer(&Tracer{}); err != nil {
			return err
		}
	}
	return action.GetFactory(FlowRef).Initialize(proc)
}

// ---- one execution ----

// Result of executing one scenario.
type Result struct {
	Viols     []Viol         `json:"viols"`
	Feat      map[string]int `json:"feat"`
	Decisions []Decision     `json:"decisions,omitempty"`
	LogFull   bool           `json:"logFull,omitempty"`
	Hung      bool           `json:"hung,omitempty"`
	SimNS     int64          `json:"simNS"`
	Yields    uint64         `json:"yields"`
	Switches  uint64         `json:"switches"`
	Picks     uint64         `json:"picks"`
	Multi     uint64         `json:"multi"`
	Slow      uint64         `json:"slow"`
	Timers    uint64         `json:"timers"`
	Gor       uint64         `json:"gor"`
	Hash      uint64         `json:"hash"`
	Shape     uint64         `json:"shape"`
	Sims      int            `json:"sims"`
	Trace     []string       `json:"trace,omitempty"`
	Known     []string       `json:"known,omitempty"`
	Invalid   string         `json:"invalid,omitempty"` // the scenario makes no sense (minimiser)
}

// X is the context of executing one scenario.
type X struct {
	Sc   *Scenario
	Res  *Result
	base string
	ids  []string
	decs []runtime.SimDecision
	// atEnd, if set, is executed when nothing can happen any more in a simulation
	atEnd func()
	// handler, if set, replaces what receives the results
	handler func(w *World, run int) action.ResultHandler

	// remote flows
	exec     int
	dir      string
	pubs     [][]byte
	refusals map[int]bool
}

func (x *X) V(rule, f string, a ...interface{}) {
	hold()
	defer release()
	if len(x.Res.Viols) < 30 {
		x.Res.Viols = append(x.Res.Viols, Viol{Rule: rule, Msg: fmt.Sprintf(f, a...), At: -1})
	}
}

func (x *X) Feat(f string, n int) {
	if n != 0 {
		hold()
		x.Res.Feat[f] += n
		release()
	}
}

// Check decides one property.
type Check struct {
	ID      string
	Classes []Class
	Gen     func(seed uint64, class int) *Scenario
	Exec    func(x *X)
	Shrink  func(s *Scenario) []*Scenario // check-specific simplifications
	Warm    int                           // number of runs to be executed first, so that everything is initialised
	Rule    string                        // what makes a case non-trivial
	NonTriv func(r *Result) bool
	Faults  []string // names of features that are injected faults
	Real    string
	Stub    string
	Seg     float64 // seconds after which to start a new process, as this one keeps what it has loaded
}

var Checks = map[string]*Check{}

func register(c *Check) {
	if len(c.Classes) == 0 {
		c.Classes = []Class{{}}
	}
	if c.Exec == nil {
		c.Exec = StdExec
	}
	Checks[c.ID] = c
}

const simStart = 1700000000 * int64(time.Second)

var warmed bool

// warmUp executes a few plain scenarios, so that what the program initialises
// lazily is there whichever scenario comes first.
func warmUp(c *Check, class int) {
	for seed := uint64(1); seed <= 3; seed++ {
		sc := Gen(c.ID, 424200+seed, &Profile{Flows: 2, Tasks: 12, MinTasks: 8, Sub: 15, Loop: 20, Ret: 0, ErrLink: 5, Refs: 4, Any: 20, Runs: 2, Width: 30, Event: 50})
		sc.ClassIx = class
		sc.Sched = Sched{Policy: 2}
		Execute(&Check{ID: c.ID, Exec: StdExec}, sc)
	}
	for seed := uint64(1); seed <= uint64(max(c.Warm, 6)); seed++ {
		Execute(c, c.Gen(424200+seed, class))
	}
}

// Execute runs one scenario.
func Execute(c *Check, sc *Scenario) (res *Result) {
	if !warmed {
		warmed = true
		warmUp(c, sc.ClassIx)
	}
	x := &X{Sc: sc, Res: &Result{Feat: map[string]int{}}, base: fmt.Sprintf("x%x", hash(string(sc.JSON())))}
	if sc.Conc {
		os.Setenv("FLOGO_FLOW_CONCURRENT_TASK_EXECUTION", "true")
	} else {
		os.Setenv("FLOGO_FLOW_CONCURRENT_TASK_EXECUTION", "false")
	}
	if sc.PrioExpr {
		os.Setenv("FLOGO_TASK_PRIORITIZE_EXPR_LINK", "true")
	} else {
		os.Setenv("FLOGO_TASK_PRIORITIZE_EXPR_LINK", "false")
	}
	runtime.GC()
	runtime.GC() // twice: sync.Pools are empty then
	runtime.SimSeed(sc.Seed)
	defer func() {
		for _, id := range x.ids {
			delete(resMap, id)
		}
		x.ids = nil
	}()
	c.Exec(x)
	if x.Res.Hung && len(x.Res.Viols) == 0 {
		x.V(sc.Check, "the execution does not come to rest (livelock)")
	}
	x.filterKnown()
	return x.Res
}

// Fresh makes the flows of the scenario (again) available as deployed
// resources, under identifiers of their own.
func (x *X) Deploy() bool {
	ok := true
	for i, f := range x.Sc.Flows {
		if f.Remote != nil {
			continue
		}
		id := fmt.Sprintf("flow:%s_f%d", x.base, i)
		res, err := resource.GetLoader("flow").LoadResource(&resource.Config{ID: id, Data: x.Sc.Def(i, x.URI)})
		if err != nil {
			x.V(x.Sc.Check, "valid definition of flow %d refused: %v", i, err)
			ok = false
			continue
		}
		proc.rm.SetResource(id, res)
		x.ids = append(x.ids, id)
	}
	return ok
}

func (x *X) URI(i int) string {
	if x.Sc.Flows[i].Remote != nil {
		return x.remoteURI(i)
	}
	return FlowURI(x.base, i)
}

// Action creates the action for flow i.
func (x *X) Action(i int) (action.AsyncAction, error) {
	a, err := action.GetFactory(FlowRef).New(&action.Config{Settings: map[string]interface{}{"flowURI": x.URI(i)}})
	if err != nil {
		return nil, err
	}
	return a.(action.AsyncAction), nil
}

// Sim runs body (as one goroutine) and everything it starts on the
// deterministic runtime until nothing can happen any more.
func (x *X) Sim(body func()) {
	s := x.Sc.Sched
	phase := x.Res.Sims
	x.Res.Sims++
	cfg := &runtime.SimConfig{
		Seed: x.Sc.Seed*31 + uint64(phase), YieldPPM: s.YieldPPM, MapPPM: s.MapPPM, Policy: s.Policy,
		ChangePPM: s.ChangePPM, SlowPPM: s.SlowPPM, YieldCap: 8000000, SpinCap: 60, Start: simStart,
	}
	if x.decs == nil {
		x.decs = make([]runtime.SimDecision, 60000)
	}
	cfg.Log = x.decs
	for _, d := range s.Decisions {
		if d.P == phase {
			cfg.Replay = append(cfg.Replay, runtime.SimDecision{Kind: d.K[0], N: d.N, V: d.V})
		}
	}
	runtime.SimBegin(cfg)
	go body()
	limit := simStart + 40*24*3600*int64(time.Second)
	for {
		if !runtime.SimIdle() {
			x.Res.Hung = true
			break
		}
		t := runtime.SimNextTimer()
		if t == 0 {
			if f := x.atEnd; f != nil {
				x.atEnd = nil
				go f()
				continue
			}
			break
		}
		if t > limit {
			x.Res.Hung = true
			break
		}
		runtime.SimAdvance(t)
	}
	st := runtime.SimEnd()
	r := x.Res
	r.SimNS += st.Now - simStart
	r.Yields += st.Yields
	r.Switches += st.Switches
	r.Picks += st.Picks
	r.Multi += st.MultiPicks
	r.Slow += st.SlowAdvances
	r.Timers += st.TimerAdvances
	r.Gor += st.Goroutines
	r.Hash = r.Hash*1099511628211 ^ st.Hash
	r.LogFull = r.LogFull || st.LogFull
	for _, d := range x.decs[:st.LogLen] {
		r.Decisions = append(r.Decisions, Decision{P: phase, K: string(rune(d.Kind)), N: d.N, V: d.V})
	}
}

// resHandler records what the engine reports to the caller of a run.
type resHandler struct {
	w   *World
	run int
}

func (h *resHandler) HandleResult(r map[string]interface{}, err error) {
	ev := Ev{K: "result", Run: h.run, Data: canonMap(r), HasD: r != nil, Err: errStr(err), IsErr: err != nil}
	var ae *activity.Error
	if errors.As(err, &ae) {
		ev.Args = []string{Canon(ae.Code()), Canon(ae.Data()), fmt.Sprint(ae.Retriable())}
	}
	h.w.Add(ev)
}
func (h *resHandler) Done() {
	hold()
	h.w.released[h.run] = true
	release()
	h.w.Add(Ev{K: "done", Run: h.run})
}

// StartRun starts run i of the scenario (called inside a simulation).
func (x *X) StartRun(w *World, i int, act action.AsyncAction, opts func(*instance.RunOptions)) {
	r := x.Sc.Runs[i]
	ctx := context.Background()
	if r.Event != "" {
		ctx = trigger.NewContextWithEventId(ctx, r.Event)
	}
	in := map[string]interface{}{"tok": fmt.Sprintf("r%d", i)}
	if r.In0 != "" {
		in["in0"] = r.In0
	}
	ro := &instance.RunOptions{Op: instance.OpStart, PreservedInstanceId: r.ID, ReturnID: r.RetID}
	ro.DetachExecution, ro.OriginalInstanceId, ro.Rerun = r.Detach, r.Orig, r.Rerun
	if opts != nil {
		opts(ro)
	}
	if ro.PreservedInstanceId != "" || ro.ReturnID || ro.DetachExecution || ro.Rerun || ro.OriginalInstanceId != "" || opts != nil {
		in["_run_options"] = ro
	}
	var h action.ResultHandler = &resHandler{w, i}
	if x.handler != nil {
		h = x.handler(w, i)
	}
	w.Add(Ev{K: "begin", Run: i})
	if err := act.Run(ctx, in, h); err != nil {
		w.Add(Ev{K: "runerr", Run: i, Err: err.Error(), IsErr: true})
	}
}

// RunAll runs all runs of the scenario in one simulation.
func (x *X) RunAll(w *World, opts func(int) func(*instance.RunOptions), also func()) bool {
	var acts []action.AsyncAction
	for _, r := range x.Sc.Runs {
		a, err := x.Action(r.Flow)
		if err != nil {
			x.V(x.Sc.Check, "action for flow %d refused: %v", r.Flow, err)
			return false
		}
		acts = append(acts, a)
	}
	W = w
	x.Sim(func() {
		if also != nil {
			also()
		}
		for i := range x.Sc.Runs {
			i := i
			go func() {
				if at := x.Sc.Runs[i].At; at > 0 {
					time.Sleep(time.Duration(at))
				}
				if x.Sc.Runs[i].OD != nil {
					x.startOnDemand(w, i)
					return
				}
				var o func(*instance.RunOptions)
				if opts != nil {
					o = opts(i)
				}
				x.StartRun(w, i, acts[i], o)
			}()
		}
	})
	return true
}

// Judge feeds the history to the model and collects violations.
func (x *X) Judge(w *World, m *Model) {
	for _, f := range w.Fault {
		x.V("C15", "%s", f)
	}
	for _, e := range w.Log {
		if e.K == "runerr" {
			x.V("C02", "run %d refused: %s", e.Run, e.Err)
		}
	}
	if x.Res.Hung {
		x.V("C02", "the execution does not come to rest (livelock)")
	}
	m.Feed(w.Log)
	for i := range w.Log {
		e := &w.Log[i]
		switch e.K {
		case "begin":
			x.Feat("runs", 1)
		case "args":
			x.Feat("references read", len(e.Args))
		case "start":
			x.Feat("executions", 1)
		}
		x.Res.Shape = (x.Res.Shape ^ hash(e.K+e.Exec+e.Kind)) * 1099511628211
	}
	x.Res.Viols = append(x.Res.Viols, m.V...)
	for k, n := range m.Feat {
		x.Feat(k, n)
	}
	if len(x.Res.Viols) > 0 {
		x.Res.Trace = append(x.Res.Trace, Pretty(w.Log)...)
	}
}

// StdExec executes the scenario and compares it with the model.
func StdExec(x *X) {
	if !x.Deploy() {
		return
	}
	w := NewWorld(x.Sc)
	if !x.RunAll(w, nil, nil) {
		return
	}
	x.Judge(w, NewModel(x.Sc))
}

// Pretty is a readable form of a history.
func Pretty(log []Ev) []string {
	var o []string
	for _, e := range log {
		var sb strings.Builder
		fmt.Fprintf(&sb, "%4d t=%s g%d %s", e.I, time.Duration(e.T-simStart), e.G, e.K)
		if e.Exec != "" {
			sb.WriteString(" " + e.Exec)
		} else {
			fmt.Fprintf(&sb, " run %d", e.Run)
		}
		if e.Kind != "" {
			sb.WriteString(" " + e.Kind)
		}
		if len(e.Args) > 0 {
			fmt.Fprintf(&sb, " args=%v", e.Args)
		}
		if e.HasD {
			sb.WriteString(" data=" + canonRaw(e.Data))
		}
		if e.IsErr {
			fmt.Fprintf(&sb, " err=%q", e.Err)
		}
		if e.K == "start" {
			fmt.Fprintf(&sb, " in %s %q", e.Name, e.Host)
		}
		if e.X != nil {
			sb.WriteString(" " + Canon(e.X))
		}
		o = append(o, sb.String())
	}
	return o
}
