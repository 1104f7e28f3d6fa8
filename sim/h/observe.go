package h

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"time"

	coreevent "github.com/project-flogo/core/engine/event"
	"github.com/project-flogo/core/support/trace"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/state"
	fevent "github.com/project-flogo/flow/support/event"
)

// Watch is what the observers attached to a run have been told.
type Watch struct {
	w   *World
	o   Obs
	Rec []*RecEv
	Evs []*FEv
	Sp  []*Span
	n   map[string]int
	// StepHook, if set, is called after each recorded state.
	StepHook func(e *RecEv)
	// Crash, if set, decides whether the instance is lost after a recorded step.
	Crash func(s *state.Step) bool
}

// RecEv is one call of the state recorder.
type RecEv struct {
	At   int // length of the history at that time
	T    int64
	K    string // start snap step done
	Inst string
	FS   *state.FlowState
	Snap *state.Snapshot
	Step *state.Step
	JSON string
}

// FEv is one event received by the listener.
type FEv struct {
	At        int
	T         int64
	Flow      bool
	ID        string // flow id
	Name      string
	Parent    string
	ParentID  string
	Host      string
	HostInst  string
	Task      string
	TaskID    string
	Type, Ref string
	Status    string
	Err       string
	IsErr     bool
	In, Out   map[string]string
	in, out   map[string]interface{}
	Published int64
}

// Span is one span opened by the tracer.
type Span struct {
	w        *Watch
	N        int
	Op       string
	Flow     string // tag flow_id
	Task     string // tag task_name
	Parent   *Span
	Foreign  bool // parent is not a span of this tracer
	OpenAt   int
	CloseAt  int
	CloseSeq int
	Closed   int
	Err      string
	IsErr    bool
	Tags     map[string]string
	Conf     map[string]string // the tags it was opened with
}

func NewWatch(w *World, o Obs) *Watch { return &Watch{w: w, o: o, n: map[string]int{}} }

// Attach makes the watch the receiver of what recorder and tracer are told.
func (o *Watch) Attach() {
	Rec, Trc = o, o
}

func (o *Watch) Detach() { Rec, Trc = nil, nil }

// listen registers the listeners; called inside a simulation.
func (o *Watch) listen() {
	if !o.o.Listeners {
		return
	}
	_ = coreevent.RegisterListener("sim", o, []string{fevent.FlowEventType, fevent.TaskEventType})
}

// unlisten is called inside a simulation, at its end.
func (o *Watch) unlisten() {
	if !o.o.Listeners {
		return
	}
	coreevent.UnRegisterListener("sim", []string{fevent.FlowEventType, fevent.TaskEventType})
}

func (o *Watch) chance(ppm uint32) bool {
	return ppm > 0 && uint32(runtime.SimRand()%1000000) < ppm
}

// ---- recorder ----

func (o *Watch) rec(e *RecEv, v interface{}) error {
	hold()
	e.At, e.T = len(o.w.Log), runtime.SimTime()
	e.JSON = Canon(v)
	o.Rec = append(o.Rec, e)
	fail := o.chance(o.o.RecFail)
	if fail {
		o.n["recorder call failed"]++
	}
	o.n["recorder call"]++
	slow := o.o.RecLat > 0 && o.chance(300000)
	if slow {
		o.n["recorder stalled"]++
	}
	if o.StepHook != nil {
		o.StepHook(e)
	}
	release()
	if slow {
		time.Sleep(time.Duration(o.o.RecLat))
	}
	if fail {
		return errors.New("recorder: injected failure")
	}
	return nil
}

func (o *Watch) Start(s *state.FlowState) error {
	return o.rec(&RecEv{K: "start", Inst: s.FlowInstanceId, FS: s}, s)
}
func (o *Watch) Snapshot(s *state.Snapshot) error {
	return o.rec(&RecEv{K: "snap", Inst: s.Id, Snap: s}, s)
}
func (o *Watch) Step(s *state.Step) error {
	err := o.rec(&RecEv{K: "step", Inst: s.FlowId, Step: s}, s)
	if o.Crash != nil && o.Crash(s) {
		runtime.Goexit()
	}
	return err
}
func (o *Watch) Done(s *state.FlowState) error {
	return o.rec(&RecEv{K: "done", Inst: s.FlowInstanceId, FS: s}, s)
}

// ---- listener ----

func (o *Watch) HandleEvent(c *coreevent.Context) error {
	hold()
	e := &FEv{At: len(o.w.Log), T: runtime.SimTime()}
	switch v := c.GetEvent().(type) {
	case fevent.FlowEvent:
		e.Flow = true
		e.ID, e.Name, e.Status = v.FlowID(), v.FlowName(), string(v.FlowStatus())
		e.Parent, e.ParentID = v.ParentFlowName(), v.ParentFlowID()
		e.HostInst = v.HostTask().TaskInstanceId
		if n := v.HostTask().TaskName; n != "" {
			e.Host = taskOf(n)
		}
		e.in, e.out = v.FlowInput(), v.FlowOutput()
		e.In, e.Out = canonMap(e.in), canonMap(e.out)
		e.Err, e.IsErr = errStr(v.FlowError()), v.FlowError() != nil
		e.Published = v.Time().UnixNano()
	case fevent.TaskEvent:
		e.ID, e.Name, e.Status = v.FlowID(), v.FlowName(), string(v.TaskStatus())
		e.Task, e.TaskID = taskOf(v.TaskName()), v.TaskInstanceId()
		e.Type, e.Ref = v.TaskType(), v.ActivityRef()
		e.in, e.out = v.TaskInput(), v.TaskOutput()
		e.In, e.Out = canonMap(e.in), canonMap(e.out)
		e.Err, e.IsErr = errStr(v.TaskError()), v.TaskError() != nil
		e.Published = v.Time().UnixNano()
	default:
		o.w.Fault = append(o.w.Fault, fmt.Sprintf("event of unexpected type %T", v))
	}
	o.Evs = append(o.Evs, e)
	o.n["event delivered"]++
	slow, pan, fail := o.o.LisLat > 0 && o.chance(200000), o.chance(o.o.LisPanic), o.chance(o.o.LisPanic)
	for k, b := range map[string]bool{"listener stalled": slow, "listener panicked": pan, "listener failed": fail && !pan} {
		if b {
			o.n[k]++
		}
	}
	release()
	if slow {
		time.Sleep(time.Duration(o.o.LisLat))
	}
	if pan {
		panic("listener: injected panic")
	}
	if fail {
		return errors.New("listener: injected failure")
	}
	return nil
}

// ---- tracer ----

func (s *Span) TraceObject() interface{} { return s }
func (s *Span) SetTags(t map[string]interface{}) bool {
	for k, v := range t {
		s.SetTag(k, v)
	}
	return true
}
func (s *Span) SetTag(k string, v interface{}) bool {
	hold()
	s.Tags[k] = fmt.Sprint(v)
	release()
	return true
}
func (s *Span) LogKV(map[string]interface{}) bool { return true }
func (s *Span) TraceID() string {
	for s.Parent != nil {
		s = s.Parent
	}
	return fmt.Sprintf("trace%d", s.N)
}
func (s *Span) SpanID() string { return fmt.Sprintf("span%d", s.N) }

// StartSpan opens a span.
func (o *Watch) StartSpan(c trace.Config, parent trace.TracingContext) (trace.TracingContext, error) {
	hold()
	defer release()
	// an instance whose own span can't be started is refused, so that doesn't fail
	if parent != nil && o.chance(o.o.TrcFail) {
		o.n["tracer failed"]++
		return nil, errors.New("tracer: injected failure")
	}
	s := &Span{w: o, N: len(o.Sp), Op: c.Operation, OpenAt: len(o.w.Log), CloseAt: -1, Tags: map[string]string{}}
	s.Conf = map[string]string{}
	for k, v := range c.Tags {
		s.Conf[k] = fmt.Sprint(v)
	}
	s.Flow, _ = c.Tags["flow_id"].(string)
	if n, ok := c.Tags["task_name"].(string); ok {
		s.Task = taskOf(n)
	}
	if parent != nil {
		p, ok := parent.(*Span)
		if !ok || p.w != o {
			s.Foreign = true
		} else {
			s.Parent = p
			if p.Closed > 0 && !o.w.Sc.Conc {
				// (concurrently, the flow may end between the decision to execute a task and its execution)
				o.w.Fault = append(o.w.Fault, fmt.Sprintf("span %q of flow %s opened under a span that is closed already", s.Op, s.Flow))
			}
		}
	}
	o.Sp = append(o.Sp, s)
	return s, nil
}

// FinishSpan closes a span.
func (o *Watch) FinishSpan(c trace.TracingContext, err error) error {
	hold()
	defer release()
	s, ok := c.(*Span)
	if !ok || s == nil {
		o.w.Fault = append(o.w.Fault, "tracer told to close a span it never opened")
		return nil
	}
	s.Closed++
	if s.Closed == 1 {
		s.CloseAt = len(o.w.Log)
		o.n["span closed"]++
		s.CloseSeq = o.n["span closed"]
		s.Err, s.IsErr = errStr(err), err != nil
	}
	if o.chance(o.o.TrcFail) {
		o.n["tracer failed"]++
		return errors.New("tracer: injected failure")
	}
	return nil
}

// ---- judging ----

// kept: what observers were told stays what it was when they were told.
func (o *Watch) kept(x *X) {
	for _, e := range o.Rec {
		var v interface{} = e.Step
		switch {
		case e.FS != nil:
			v = e.FS
		case e.Snap != nil:
			v = e.Snap
		}
		if now := Canon(v); now != e.JSON {
			x.V("C22", "what the recorder was told (%s of %s, @%d) changed afterwards: %s; now: %s", e.K, e.Inst, e.At, e.JSON, now)
			return
		}
	}
	for _, e := range o.Evs {
		for i, p := range [][2]map[string]string{{e.In, canonMap(e.in)}, {e.Out, canonMap(e.out)}} {
			if !reflect.DeepEqual(p[0], p[1]) {
				x.V("C13", "the %s of an event (%s of %s %s, @%d) changed after it had been delivered: %v; now: %v", []string{"inputs", "outputs"}[i], e.Status, e.Name, e.Task, e.At, p[0], p[1])
				return
			}
		}
	}
}

// ident tells which instance of the model an identifier of the engine is.
type ident struct {
	m  map[string]*mInst
	mo *Model
}

func identify(m *Model) *ident {
	id := &ident{m: map[string]*mInst{}, mo: m}
	for _, in := range m.all {
		if in.hostID != "" {
			id.m[in.hostID] = in
		}
	}
	for i, r := range m.sc.Runs {
		if r.ID != "" {
			id.m[r.ID] = m.mains[i]
		}
	}
	return id
}

// claim says that the flow with this identifier was started with this token.
func (d *ident) claim(id, tokJSON string) *mInst {
	var tok string
	_ = json.Unmarshal([]byte(tokJSON), &tok)
	in := d.mo.I[tok]
	if in != nil && d.m[id] == nil {
		d.m[id] = in
	}
	return in
}

func (m *Model) roots() []*mInst {
	var o []*mInst
	for _, in := range m.all {
		if in.host == nil || in.det {
			o = append(o, in)
		}
	}
	return o
}

// judgeRecorder: C22.
func (x *X) judgeRecorder(w *World, m *Model, o *Watch, mode string) {
	v := func(f string, a ...interface{}) { x.V("C22", f, a...) }
	id := identify(m)
	per := map[string][]*RecEv{}
	var order []string
	for _, e := range o.Rec {
		if per[e.Inst] == nil {
			order = append(order, e.Inst)
		}
		per[e.Inst] = append(per[e.Inst], e)
	}
	roots := m.roots()
	if len(order) != len(roots) {
		v("the recorder was told of %d instances, %d have been started", len(order), len(roots))
		return
	}
	for _, inst := range order {
		es := per[inst]
		steps := 0
		if es[0].K != "start" {
			v("instance %s: the first thing recorded is a %s, not its start", inst, es[0].K)
			return
		}
		in := id.claim(inst, Canon(es[0].FS.FlowInputs["tok"]))
		name := inst
		if in != nil {
			name = in.tok
			if id.m[inst] != in {
				v("instance %s recorded with the inputs of %s", inst, in.tok)
			}
		} else {
			v("instance %s: recorded inputs %s are those of no instance", inst, Canon(es[0].FS.FlowInputs))
			return
		}
		var run *Run
		if in.host == nil {
			run = m.sc.Runs[in.run]
			if es[0].FS.OriginalInstanceId != run.Orig {
				v("instance %s: start recorded with the original instance %q, it is %q", name, es[0].FS.OriginalInstanceId, run.Orig)
			}
		}
		if es[0].FS.FlowName != in.f.Name {
			v("instance %s: start recorded with flow name %q", name, es[0].FS.FlowName)
		}
		if st := recFS(es[0]).FlowStats; st != "Created" && st != "Started" {
			v("instance %s: start recorded with status %q", name, st)
		}
		last := es[0]
		want := map[string]bool{"snapshot": true, "full": true}
		wantStep := map[string]bool{"step": true, "full": true, "debugger": true}
		ns := 0
		for i, e := range es[1:] {
			i++
			if e.K == "start" {
				v("instance %s: start recorded twice", name)
			}
			if e.K == "done" && i != len(es)-1 {
				v("instance %s: a %s is recorded after its end", name, es[i+1].K)
				return
			}
			if e.K == "step" {
				var s state.Step
				_ = json.Unmarshal([]byte(e.JSON), &s)
				if run != nil && s.Rerun != run.Rerun {
					v("instance %s: step %d recorded with rerun %v", name, steps, s.Rerun)
				}
				if s.Id != steps {
					v("instance %s: step %d recorded with id %d", name, steps, s.Id)
				}
				steps++
				if s.EndTime.Before(s.StartTime) || s.EndTime.UnixNano() > e.T {
					v("instance %s: step %d recorded with times %v - %v", name, s.Id, s.StartTime, s.EndTime)
				}
				if !m.conc && !invokes(in.f) { // the failure of an invoked flow is recorded within a step
					for _, l := range o.w.Log[es[i-1].At:e.At] {
						if l.Host == inst && l.K == "start" && l.T < s.StartTime.UnixNano() {
							v("instance %s: step %d recorded with start time %v, %s started %v earlier", name, s.Id, s.StartTime, l.Exec, time.Duration(s.StartTime.UnixNano()-l.T))
						}
					}
				}
			}
			if e.K == "snap" {
				ns++
			}
			if mode == "full" && (e.K == "step") != (last.K == "snap") {
				v("instance %s: %s recorded after %s", name, e.K, last.K)
			}
			if e.K == "step" && !wantStep[mode] || e.K == "snap" && !want[mode] {
				v("instance %s: %s recorded with recording mode %q", name, e.K, mode)
			}
			last = e
		}
		if in.over {
			x.Feat("over step limit", 1)
		}
		if last.K != "done" {
			v("instance %s: its end is not recorded", name)
			continue
		}
		d := recFS(last)
		s := recFS(es[0])
		if Canon(d.FlowInputs) != Canon(s.FlowInputs) {
			v("instance %s: end recorded with inputs %s, start with %s", name, Canon(d.FlowInputs), Canon(s.FlowInputs))
		}
		if d.FlowName != s.FlowName {
			v("instance %s: end recorded with flow name %q", name, d.FlowName)
		}
		if d.EndTime.Before(d.StartTime) || d.StartTime != s.StartTime {
			v("instance %s: end recorded with times %v - %v (start %v)", name, d.StartTime, d.EndTime, s.StartTime)
		}
		if in.ended || in.over {
			ws := "Completed"
			if in.out.fail != nil || in.over {
				ws = "Failed"
			}
			if d.FlowStats != ws && !m.conc {
				v("instance %s: end recorded with status %q, it is %s", name, d.FlowStats, ws)
			}
		}
		if in.host == nil {
			for i := range w.Log {
				e := &w.Log[i]
				if e.K == "result" && e.Run == in.run && i == in.resAt && in.res == 1 && !in.over && !e.IsErr {
					if got := canonMap(d.FlowOutputs); !eqMap(got, e.Data) {
						v("instance %s: end recorded with outputs %v, delivered %v", name, got, e.Data)
					}
				}
			}
		}
		if m.conc || mode == "off" || mode == "" {
			continue
		}
		// each evaluation in its step
		cur, evals := 0, 0
		var st []*RecEv
		k := "step"
		if mode == "snapshot" {
			k = "snap"
		}
		for _, e := range es {
			if e.K == k {
				st = append(st, e)
			}
		}
		if len(st) == 0 {
			v("instance %s: no step recorded", name)
			continue
		}
		if mode == "debugger" {
			x.judgeDebug(w, m, in, name, st)
		}
		window := ""
		for i := range w.Log {
			e := &w.Log[i]
			ti := m.I[e.Tok]
			if ti == nil || ti.root != in {
				continue
			}
			if t := ti.tasks[e.Task]; t != nil && t.t.BadSet != "" { // fails when it is entered
				continue
			}
			for cur < len(st) && st[cur].At <= i {
				cur++
				window = ""
			}
			if cur == 0 {
				v("instance %s: %s happens before step 0 is recorded", name, e.Exec)
				break
			}
			if cur >= len(st) {
				v("instance %s: %s of %s happens after the last step recorded", name, e.K, e.Exec)
				break
			}
			if e.K != "try" {
				continue
			}
			if e.Tok+"/"+e.Task != window {
				if window != "" {
					v("instance %s: %s and %s happen within the same recorded step", name, window, e.Exec)
				}
				window = e.Tok + "/" + e.Task
				evals++
			}
			if st[cur].Step != nil && ti.hostID != "" {
				var s state.Step
				_ = json.Unmarshal([]byte(st[cur].JSON), &s)
				fc := s.FlowChanges[ti.subID()]
				// a detached or synchronous execution ends in its step
				if fc == nil || fc.Tasks[e.Task] == nil {
					// it starts a flow that fails at once, which is recorded separately
					if t := ti.tasks[e.Task]; t != nil && t.t.Kind == "sub" && cur+1 < len(st) {
						s = state.Step{}
						_ = json.Unmarshal([]byte(st[cur+1].JSON), &s)
						fc = s.FlowChanges[ti.subID()]
					}
				}
				if fc == nil || fc.Tasks[e.Task] == nil {
					v("instance %s: the step in which %s happens doesn't mention its task", name, e.Exec)
				}
			}
		}
		x.Feat("steps recorded", len(st))
		x.Feat("evaluations in steps", evals)
	}
}

// returned is what the flow returned, as far as it is known.
func (in *mInst) returned(w *World) map[string]string {
	switch {
	case in.over:
	case in.host == nil && in.res == 1 && w.Log[in.resAt].Err == "":
		return w.Log[in.resAt].Data
	case len(in.out.ret) == 1 && in.out.ret[0].err == nil:
		return in.out.ret[0].data
	}
	return nil
}

// subID is the number of a subflow within its instance.
func (in *mInst) subID() int {
	sub := 0
	if j := strings.LastIndex(in.hostID, "-"); in != in.root && j > 0 {
		fmt.Sscanf(in.hostID[j+1:], "%d", &sub)
	}
	return sub
}

// judgeDebug: in this mode the steps have the inputs of the tasks and what the flows returned.
func (x *X) judgeDebug(w *World, m *Model, in *mInst, name string, st []*RecEv) {
	v := func(f string, a ...interface{}) { x.V("C22", f, a...) }
	steps := make([]state.Step, len(st))
	for i, e := range st {
		_ = json.Unmarshal([]byte(e.JSON), &steps[i])
	}
	cur := 0
	for i := range w.Log {
		e := &w.Log[i]
		ti := m.I[e.Tok]
		if ti == nil || ti.root != in || e.K != "start" {
			continue
		}
		for cur < len(st) && st[cur].At <= i {
			cur++
		}
		if cur == len(st) || ti.hostID == "" {
			continue
		}
		fc := steps[cur].FlowChanges[ti.subID()]
		if fc == nil || fc.Tasks[e.Task] == nil {
			continue // (reported already)
		}
		later := false // attempted again, in the same step
		for j := i + 1; j < st[cur].At; j++ {
			f := &w.Log[j]
			later = later || f.K == "try" && f.Tok == e.Tok && f.Task == e.Task
		}
		if later {
			continue
		}
		got := Canon(fc.Tasks[e.Task].Input["in"])
		want := "[" + strings.Join(append([]string{Canon(e.Exec)}, e.Args...), ",") + "]"
		if got != want {
			v("instance %s: step %d is recorded with the inputs %s of %s, it was executed with %s", name, steps[cur].Id, got, e.Exec, want)
		}
		x.Feat("inputs recorded", 1)
	}
	for _, ti := range m.I {
		outs := ti.returned(w)
		if ti.root != in || !ti.ended || outs == nil || ti != in && ti.hostID == "" {
			continue
		}
		var last map[string]interface{}
		for _, s := range steps {
			if fc := s.FlowChanges[ti.subID()]; fc != nil && fc.ReturnData != nil {
				last = fc.ReturnData
				if fc.Status != int(model.FlowStatusCompleted) || fc.FlowURI == "" {
					v("instance %s: step %d is recorded with the outputs of %s, but with status %d (%q)", name, s.Id, ti.tok, fc.Status, fc.FlowURI)
				}
			}
		}
		if got := canonMap(last); !eqMap(got, outs) {
			v("instance %s: its steps are recorded with the outputs %v of %s, it returned %v", name, got, ti.tok, outs)
		}
		x.Feat("outputs recorded", len(outs))
	}
}

func recFS(e *RecEv) *state.FlowState {
	s := &state.FlowState{}
	_ = json.Unmarshal([]byte(e.JSON), s)
	return s
}

var finalStatus = map[string]bool{"Completed": true, "Failed": true, "Skipped": true, "Cancelled": true}

// judgeEvents: C13.
func (x *X) judgeEvents(w *World, m *Model, o *Watch) {
	v := func(f string, a ...interface{}) { x.V("C13", f, a...) }
	id := identify(m)
	type fstate struct {
		in   *mInst
		end  string
		endI int
		kids int
	}
	type tstate struct {
		st    string
		waits int
		final string
		ev    *FEv
	}
	fl := map[string]*fstate{}
	ts := map[string]*tstate{}
	lastPub := map[string]int64{}
	var finals []*FEv
	root := func(fid string) string {
		if in := id.m[fid]; in != nil {
			return in.root.tok
		}
		return fid
	}
	for i, e := range o.Evs {
		if !m.conc {
			if e.Published < lastPub[root(e.ID)] {
				v("events of instance %s delivered out of order", root(e.ID))
			}
			lastPub[root(e.ID)] = e.Published
		}
		if e.Published > e.T {
			v("event of flow %s is dated in the future", e.ID)
		}
		f := fl[e.ID]
		if e.Flow {
			switch e.Status {
			case "Started":
				if f != nil {
					v("flow %s: start reported twice", e.ID)
					continue
				}
				in := id.claim(e.ID, e.In["tok"])
				if in == nil {
					v("flow %s (%s): reported as started with inputs %v, which are those of no instance", e.ID, e.Name, e.In)
					continue
				}
				if id.m[e.ID] != in {
					v("flow %s reported as started with the inputs of %s", e.ID, in.tok)
				}
				f = &fstate{in: in}
				fl[e.ID] = f
				if in.host != nil && !in.det {
					if e.Host != in.host.t.ID {
						v("flow %s: reported as started by activity %q, it is %s", e.ID, e.Host, in.host.t.ID)
					}
					pid := in.parent.hostID
					ok := false
					for p := in.parent; p != nil; p = p.parent {
						if p.f.Name == e.Parent && (id.m[e.ParentID] == p || id.m[e.ParentID] == nil) {
							ok = true
						}
						if p.det {
							break
						}
					}
					if !ok {
						v("flow %s: reported with parent %s %q, invoked by %s %q", e.ID, e.Parent, e.ParentID, in.parent.f.Name, pid)
					}
				} else if e.Parent != "" || e.ParentID != "" || e.Host != "" {
					v("flow %s: reported with parent %s %q %s, but nobody waits for it", e.ID, e.Parent, e.ParentID, e.Host)
				}
				if in.host == nil || in.det || in.parent == nil {
					break
				}
			case "Completed", "Failed", "Cancelled":
				if f == nil {
					v("flow %s: end reported without a start", e.ID)
					continue
				}
				if f.end != "" {
					v("flow %s (%s): end reported twice (%s, %s)", e.ID, f.in.tok, f.end, e.Status)
					continue
				}
				f.end, f.endI = e.Status, i
				in := f.in
				if !m.conc {
					want := "Completed"
					switch {
					case in.aband:
						want = "Cancelled"
					case in.out.fail != nil || in.over:
						want = "Failed"
					}
					if in.host != nil && in.root.over && e.Status == "Cancelled" {
						want = e.Status // with steps left to be done
					}
					if e.Status != want {
						v("flow %s (%s): reported as %s, it is %s", e.ID, in.tok, e.Status, want)
					}
					if e.At < in.endAt && !in.aband {
						v("flow %s (%s): end reported before it ended", e.ID, in.tok)
					}
				}
				if e.Status == "Failed" && in.out.fail != nil && !in.over {
					ok := false
					for _, c := range in.out.fail.all() {
						ok = ok || e.IsErr && strings.Contains(e.Err, c.msg)
					}
					if !ok {
						v("flow %s (%s): reported as failed with error %q, it failed with %s", e.ID, in.tok, e.Err, in.out.fail.all()[0].desc())
					}
				}
				var outs map[string]string // what the flow returned
				if e.Status == "Completed" {
					outs = in.returned(w)
				}
				if outs != nil && !m.conc {
					x.Feat("flow outputs reported", len(outs))
					if !reflect.DeepEqual(outs, e.Out) && len(outs)+len(e.Out) > 0 {
						v("flow %s (%s): reported as completed with outputs %v, it returned %v", e.ID, in.tok, e.Out, outs)
					}
				}
				if e.Status == "Completed" && e.IsErr {
					v("flow %s: reported as completed with error %q", e.ID, e.Err)
				}
			default:
				v("flow %s: reported with status %q", e.ID, e.Status)
			}
			if f != nil && e.Name != f.in.f.Name {
				v("flow %s: reported with name %q, it is %s", e.ID, e.Name, f.in.f.Name)
			}
			continue
		}
		if f == nil {
			v("activity %s of flow %s: %s reported, but not the start of its flow", e.Task, e.ID, e.Status)
			continue
		}
		if f.end != "" && !m.conc {
			v("activity %s of flow %s (%s): %s reported after the end of its flow", e.Task, e.ID, f.in.tok, e.Status)
		}
		if e.Name != f.in.f.Name {
			v("activity %s of flow %s: reported with flow name %q, it is %s", e.Task, e.ID, e.Name, f.in.f.Name)
		}
		mt := f.in.tasks[e.Task]
		if mt == nil {
			v("flow %s (%s): event for activity %q, which is not one of it", e.ID, f.in.tok, e.Task)
			continue
		}
		if typ, ref := mt.t.typ(), mt.t.ref(); e.Type != typ || e.Ref != ref {
			v("activity %s of flow %s: reported as %q running %s, it is %q running %s", e.Task, e.ID, e.Type, e.Ref, typ, ref)
		}
		k := f.in.tok + "/" + e.Task
		t := ts[k]
		if t == nil {
			t = &tstate{}
			ts[k] = t
		}
		ok := false
		switch e.Status {
		case "Scheduled":
			ok = t.st == "" || t.st == "Scheduled"
		case "Started":
			ok = t.st == "Scheduled" || t.st == "Waiting" && mt.t.Kind == "sub"
			if !ok && m.conc && t.st == "Started" && mt.t.Loop != nil {
				ok = true
			}
		case "Skipped":
			ok = t.st == "Scheduled"
		case "Waiting":
			ok = (t.st == "Started" || t.st == "Waiting") && mt.t.Kind == "sub"
			t.waits++
		case "Completed", "Failed":
			ok = t.st == "Started" || t.st == "Waiting"
		}
		if !ok {
			v("activity %s: reported as %s after %q", k, e.Status, t.st)
		}
		t.st = e.Status
		if finalStatus[e.Status] {
			t.final = e.Status
			t.ev = e
			if !m.conc && e.Status != "Skipped" {
				switch mt.t.Kind {
				case "sub", "det":
				default:
					if mt.exec != "" && e.At <= mt.endAt && !zero(mt.t) && mt.endAt < len(w.Log) {
						v("activity %s: %s reported before it happened", k, e.Status)
					}
					finals = append(finals, e)
				}
			}
		}
	}
	// at the end
	nm := 0
	over := map[*mInst]bool{}
	for _, in := range m.all {
		if in.host == nil || in.det || !m.conc {
			nm++
		}
		over[in] = in.root.over
	}
	nf := 0
	seen := map[*mInst]bool{}
	endOf := map[*mInst]string{}
	for fid, f := range fl {
		endOf[f.in] = f.end
		if f.in.host == nil || f.in.det || !m.conc {
			nf++
		}
		if seen[f.in] {
			v("%s: reported as two flows, one of them %s", f.in.tok, fid)
		}
		seen[f.in] = true
		if f.end == "" {
			v("flow %s (%s): no end reported", fid, f.in.tok)
		}
		x.Feat("flows reported", 1)
	}
	if nf != nm {
		v("%d flows reported as started, %d have been started", nf, nm)
	}
	for _, in := range m.all {
		if !seen[in] {
			continue
		}
		for _, t := range in.order {
			k := in.tok + "/" + t.t.ID
			s := ts[k]
			var got string
			if s != nil {
				got = s.final
			}
			want, exact := "", true
			switch t.st {
			case tDone:
				want = "Completed"
			case tFail:
				want = "Failed"
			case tSkip:
				want = "Skipped"
			case tWait, tReady:
			default:
				exact = m.conc == false
			}
			if over[in] || m.conc && in.root.frozenAny() || t.st == tSkip && in.frozenAny() {
				// the end of the flow may have come first
				exact = false
			}
			if got == "" && in.frozenAny() && (t.st == tSkip || in.hasZero()) {
				// what the flow ended (or failed) before
				exact = false
			}
			if got == "" && m.conc && (t.st == tSkip || endOf[in] != "Completed" || len(in.out.ret) > 0 || in.f.EH != nil) {
				// concurrently, the flow may have ended before
				exact = false
			}
			if exact && got != want {
				v("activity %s: reported as %q, it is %s", k, got, tNames[t.st])
			}
			if got == "Completed" && s.ev != nil {
				switch t.t.Kind {
				case "work", "ret", "reply", "sub":
					if t.exec == "" || m.conc {
						break
					}
					for n, val := range m.outputs(t) {
						if val.v != "?" && s.ev.Out[n] != val.v {
							v("activity %s: reported as completed with %s %s, it is %s", k, n, s.ev.Out[n], val.v)
						}
						x.Feat("activity outputs reported", 1)
					}
					if in, ok := s.ev.In["in"]; t.t.Kind != "sub" && (!ok || !strings.Contains(in, t.exec)) {
						v("activity %s: reported as completed with input %s, it was executed as %s", k, in, t.exec)
					}
					if tok, ok := s.ev.In["tok"]; t.t.Kind == "sub" && t.child != nil && (!ok || tok != Canon(t.child.tok)) {
						v("activity %s: reported as completed with input tok %s, it is %s", k, tok, t.child.tok)
					}
				case "":
					if want := Canon("V:" + t.exec); t.exec != "" && s.ev.Out["val"] != want && !m.conc {
						v("activity %s: reported as completed with output %s, it is %s", k, s.ev.Out["val"], want)
					}
				}
			}
			if got == "Failed" && t.err != nil && !m.conc {
				ok := false
				for _, c := range t.err.all() {
					ok = ok || s.ev.IsErr && strings.Contains(s.ev.Err, c.msg)
				}
				if !ok {
					v("activity %s: reported as failed with error %q, it failed with %s", k, s.ev.Err, t.err.all()[0].msg)
				}
			}
			if got != "" {
				x.Feat("activities reported: "+got, 1)
			}
		}
	}
	if !m.conc {
		prev := map[string]*FEv{}
		prevT := map[string]*mTask{}
		for _, e := range finals {
			f := fl[e.ID]
			t := f.in.tasks[e.Task]
			r := f.in.root.tok
			if p := prevT[r]; p != nil && p.exec != "" && t.exec != "" && !zero(p.t) && !zero(t.t) && p.endAt > t.endAt && prev[r].At > 0 {
				v("instance %s: the end of %s is reported after that of %s", r, t.exec, p.exec)
			}
			prev[r], prevT[r] = e, t
		}
	}
}

func (in *mInst) hasZero() bool {
	for _, t := range in.order {
		if zero(t.t) {
			return true
		}
	}
	return false
}

func (in *mInst) frozenAny() bool { return len(in.frozen) > 0 }

// judgeSpans: C21.
func (x *X) judgeSpans(w *World, m *Model, o *Watch) {
	v := func(f string, a ...interface{}) { x.V("C21", f, a...) }
	id := identify(m)
	lossy := o.n["tracer failed"] > 0
	flowSpan := map[string]*Span{}
	execs := map[string][]*Span{}
	nroot := 0
	for _, s := range o.Sp {
		what := fmt.Sprintf("span %q of flow %s", s.Op, s.Flow)
		if in := id.m[s.Flow]; in != nil {
			what = fmt.Sprintf("span %q of %s", s.Op, in.tok)
		}
		if s.Closed != 1 {
			v("%s closed %d times", what, s.Closed)
		}
		if s.Foreign {
			v("%s opened under something that is no span", what)
		}
		in := id.m[s.Flow]
		if in != nil && s.Conf["flow_name"] != in.f.Name {
			v("%s: its flow is called %q, the flow is %s", what, s.Conf["flow_name"], in.f.Name)
		}
		if s.Task != "" && s.Op != taskName(s.Task) {
			v("%s is of task %q", what, s.Conf["task_name"])
		}
		if s.Task == "" && in != nil {
			pid, has := s.Conf["parent_flow_id"]
			if has != (in.host != nil && !in.det) {
				v("%s: parent flow stated: %v", what, has)
			}
			if p := id.m[pid]; has && p != nil {
				x.Feat("parent flow of a span", 1)
				up := in.parent
				for up != nil && up != p {
					up = up.parent
				}
				if up == nil || s.Conf["parent_flow_name"] != p.f.Name {
					v("%s: parent flow %s (%s, called %q)", what, p.tok, p.f.Name, s.Conf["parent_flow_name"])
				}
			}
		}
		if s.Task == "" {
			if flowSpan[s.Flow] != nil {
				v("two spans opened for flow %s", s.Flow)
			}
			flowSpan[s.Flow] = s
			if s.Parent == nil {
				nroot++
			}
			if in == nil {
				continue
			}
			if s.Op != in.f.Name {
				v("%s: the flow is %s", what, in.f.Name)
			}
			if in.host != nil && !in.det {
				if !lossy && (s.Parent == nil || s.Parent.Task != in.host.t.ID || id.m[s.Parent.Flow] != nil && id.m[s.Parent.Flow] != in.parent) {
					v("%s is not opened under the span of %s/%s", what, in.parent.tok, in.host.t.ID)
				}
			} else if s.Parent != nil {
				v("%s has a parent", what)
			}
			if !m.conc && !in.aband {
				fail := in.out.fail != nil || in.over
				if in.out.fail == nil && len(in.out.ret) > 0 && in.out.ret[0].err != nil {
					fail = s.IsErr // returned with an error: either
				}
				if s.IsErr != fail && (in.host == nil || !in.root.over) {
					v("%s closed with error %q although it %s", what, s.Err, map[bool]string{true: "failed", false: "succeeded"}[fail])
				}
			}
		} else {
			if !lossy && (s.Parent == nil || s.Parent.Task != "" || s.Parent.Flow != s.Flow) {
				v("%s is not opened under the span of its flow", what)
			}
			if in != nil {
				execs[in.tok+"/"+s.Task] = append(execs[in.tok+"/"+s.Task], s)
			}
		}
		if s.Parent != nil && s.Parent.Closed > 0 && s.Closed > 0 && s.CloseSeq > s.Parent.CloseSeq && !m.conc {
			v("%s closed after its parent", what)
		}
		if in != nil && in.root.host == nil && in.root.res > 0 && !m.conc && s.CloseAt > in.root.resAt {
			v("%s closed after the end of the instance was reported", what)
		}
	}
	if lossy {
		return
	}
	roots := m.roots()
	if nroot != len(roots) {
		v("%d instances have a span, %d have been started", nroot, len(roots))
	}
	for _, in := range m.all {
		if in.hostID == "" {
			continue
		}
		if flowSpan[in.hostID] == nil {
			v("no span for flow %s (%s)", in.tok, in.hostID)
		}
		for _, c := range in.claims {
			if s := flowSpan[in.hostID]; s != nil && (c.f == "SpanId" && c.v != Canon(s.SpanID()) || c.f == "TraceId" && c.v != Canon(s.TraceID())) {
				v("%s: %s reads %s; the flow's span is %s of %s", in.tok, c.f, c.v, s.SpanID(), s.TraceID())
			} else if s != nil && (c.f == "SpanId" || c.f == "TraceId") {
				x.Feat("identifiers of spans read", 1)
			}
		}
		for _, t := range in.order {
			k := in.tok + "/" + t.t.ID
			n := t.n
			if t.t.BadSet != "" || t.t.Loop != nil && t.t.Loop.Kind == "baditer" {
				n = 0 // fails before it is executed
			}
			ss := execs[k]
			if len(ss) != n {
				v("%s: %d executions, %d spans", k, n, len(ss))
				continue
			}
			for i, s := range ss {
				x.Feat("execution spans", 1)
				e := m.Execs[fmt.Sprintf("%s#%d", k, i)]
				if e == nil || e.EndAt < 0 || m.conc {
					continue
				}
				if i == n-1 && (!e.Fail && t.st == tFail || in.root.over) {
					continue // executed, but the loop's condition failed (or with steps left to be done): either
				}
				if s.IsErr != e.Fail {
					v("%s: span closed with error %q although the execution %s", e.Exec, s.Err, map[bool]string{true: "failed", false: "succeeded"}[e.Fail])
				}
			}
		}
	}
}

// invokes: the flow has tasks that invoke flows.
func invokes(f *Flow) bool {
	for _, g := range []*Graph{f.Body, f.EH} {
		if g == nil {
			continue
		}
		for _, t := range g.Tasks {
			if t.Kind == "sub" {
				return true
			}
		}
	}
	return false
}
