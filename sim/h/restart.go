package h

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"runtime"
	"strings"
	"time"

	"github.com/project-flogo/core/action"
	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/trigger"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/state"
)

// crasher loses instances at checkpoints and continues them from their
// serialised form.
type crasher struct {
	x     *X
	w     *World
	o     *Watch
	n     int // steps recorded
	pts   map[int]*CrashPt
	insts map[string]*instance.IndependentInstance // by ID
	runs  map[string]int                           // run that started the instance
	byG   map[uint32]int                           // run started by this goroutine
	lives map[string]int                           // number of times the instance was lost
	ptrs  map[string]int                           // identity of a flow instance, by ID
	hdl   map[string]*crashHandler
	snap  map[string]*state.Snapshot
	first map[string]string // token: ID of the instance that got it first
	fresh map[string]bool   // nothing recorded since it was started
	alias map[string]string // ID of a restarted instance: that of the original
	// post, if set, continues an instance (and returns true)
	post func(p *CrashPt, id string, run int, b []byte, data map[string]interface{}) bool
	// peek, if set, receives what was serialised
	peek func(b []byte)
	tale map[string]*recTale
}

// recTale is what the recorder has been told of an instance.
type recTale struct {
	open, ended bool // started (or continued), but neither lost nor ended; ended
	next        int  // step
	orig        string
	rerun       bool
	begun       bool
	data        map[string]interface{} // continued with
	starts      int
	at, steps   int // start, in the history; steps since
}

// told judges what the recorder is told.
func (c *crasher) told(e *RecEv) {
	if c.post != nil {
		return
	}
	v := func(f string, a ...interface{}) { c.x.V("C10", "instance "+e.Inst+": "+f, a...) }
	t := c.tale[e.Inst]
	if t == nil {
		t = &recTale{}
		c.tale[e.Inst] = t
	}
	if e.K != "start" && !t.open {
		v("a %s is recorded although no start (since it was continued) or the end is", e.K)
		return
	}
	switch e.K {
	case "start":
		if t.open || t.ended {
			v("start recorded although it was not lost")
		}
		if e.FS.OriginalInstanceId != t.orig {
			v("start recorded with the original instance %q, it is %q", e.FS.OriginalInstanceId, t.orig)
		}
		if t.begun {
			c.x.Feat("recorded since it was continued", 1)
			if got, want := Canon(e.FS.FlowInputs), Canon(t.data); got != want && len(e.FS.FlowInputs)+len(t.data) > 0 {
				v("start recorded with the inputs %s, it was continued with %s", got, want)
			}
		}
		t.open, t.begun = true, true
		t.starts++
		t.at, t.steps = e.At, 0
	case "step":
		if e.Step.Id != t.next {
			v("step %d is recorded as number %d", t.next, e.Step.Id)
		}
		if e.Step.Rerun != t.rerun {
			v("step %d is recorded with rerun %v", t.next, e.Step.Rerun)
		}
		t.next++
		t.steps++
	case "done":
		t.open, t.ended = false, true
		n := 0
		for _, l := range c.w.Log[t.at:] {
			if l.K == "start" && (l.Host == e.Inst || strings.HasPrefix(l.Host, e.Inst+"-")) {
				n++
			}
		}
		if t.steps == 0 && n > 0 { // (there may be several in a step)
			v("%d activities were executed since it was started or continued, %d steps are recorded", n, t.steps)
		}
	}
}

func newCrasher(x *X, w *World, o *Watch) *crasher {
	c := &crasher{x: x, w: w, o: o, pts: map[int]*CrashPt{}, insts: map[string]*instance.IndependentInstance{}, runs: map[string]int{},
		byG: map[uint32]int{}, lives: map[string]int{}, ptrs: map[string]int{}, hdl: map[string]*crashHandler{}, snap: map[string]*state.Snapshot{},
		first: map[string]string{}, alias: map[string]string{}, fresh: map[string]bool{}, tale: map[string]*recTale{}}
	for _, p := range x.Sc.Crash {
		c.pts[p.N] = p
	}
	if !x.Sc.Conc {
		w.Meet = c.meet
	}
	o.StepHook = c.recorded
	o.Crash = c.step
	return c
}

// origin is the ID of the original of a restarted instance (or of its subflow).
func (c *crasher) origin(id, master string) string {
	if a, ok := c.alias[master]; ok && strings.HasPrefix(id, master) {
		return a + id[len(master):]
	}
	return id
}

// crashHandler is what the caller gives to the engine; nothing arrives from a
// lost process.
type crashHandler struct {
	resHandler
	lost bool
}

func (h *crashHandler) HandleResult(r map[string]interface{}, err error) {
	if !h.lost {
		h.resHandler.HandleResult(r, err)
	}
}
func (h *crashHandler) Done() {
	if !h.lost {
		h.resHandler.Done()
	}
}

// nobody receives the results of a detached instance.
type nobody struct{}

func (nobody) HandleResult(map[string]interface{}, error) {}
func (nobody) Done()                                      {}

// meet is called for the host of every executed activity.
func (c *crasher) meet(host activity.Host) {
	in, ok := host.(*instance.Instance)
	if !ok {
		return
	}
	m, ok := in.GetMasterScope().(*instance.IndependentInstance)
	if !ok {
		return
	}
	c.insts[m.ID()] = m
	if _, ok := c.w.ptrs[host]; ok {
		return
	}
	if tok, _ := m.GetValue("tok"); tok != nil {
		t := fmt.Sprint(tok)
		switch f, ok := c.first[t]; {
		case !ok:
			c.first[t] = m.ID()
		case f != m.ID() && c.lives[f] > 0:
			c.alias[m.ID()] = f
			c.lives[m.ID()] = c.lives[f]
		}
	}
	id := c.origin(host.ID(), m.ID())
	if p, ok := c.ptrs[id]; ok && c.lives[m.ID()] > 0 {
		c.w.ptrs[host] = p
		return
	}
	c.ptrs[id] = len(c.w.ptrs) + 1
}

func (c *crasher) recorded(e *RecEv) {
	c.told(e)
	switch e.K {
	case "start":
		c.fresh[e.Inst] = true
		if run, ok := c.byG[runtime.SimID()]; ok {
			if _, known := c.runs[e.Inst]; !known {
				c.runs[e.Inst] = run
			}
		}
	case "snap":
		c.snap[e.Inst] = e.Snap
	}
}

// step decides whether the instance is lost now.
func (c *crasher) step(s *state.Step) bool {
	hold()
	defer release()
	fresh := c.fresh[s.FlowId]
	delete(c.fresh, s.FlowId)
	c.n++
	p := c.pts[c.n]
	if p == nil {
		return false
	}
	in := c.insts[s.FlowId]
	sn := c.snap[s.FlowId]
	if in == nil || sn == nil || in.ID() != s.FlowId {
		return false
	}
	for _, sf := range sn.Subflows {
		if sf.Status >= flowEnded { // within a step
			return false
		}
	}
	b, err := json.Marshal(in)
	if err != nil {
		c.x.V("C10", "instance %s can't be serialised after step %d: %v", in.ID(), c.n, err)
		return false
	}
	if c.post != nil && fresh { // the request isn't answered yet
		return false
	}
	if p.Op == "peek" {
		c.x.Feat("serialised and not lost", 1)
		if c.peek != nil {
			c.peek(b)
		}
		return false
	}
	c.x.Feat("crash", 1)
	c.x.Feat("continued: "+p.Op, 1)
	if c.lives[s.FlowId] > 0 {
		c.x.Feat("lost again", 1)
	}
	switch {
	case sn.Status >= flowEnded:
		c.x.Feat("lost before the result was delivered", 1)
	case len(sn.Subflows) > 0:
		c.x.Feat("lost with live subflow", 1)
	case len(sn.WorkQueue) > 1:
		c.x.Feat("lost with several pending", 1)
	}
	c.lives[s.FlowId]++
	if t := c.tale[s.FlowId]; t != nil {
		*t = recTale{begun: true, starts: t.starts, orig: p.Orig, rerun: p.Rerun}
		if p.Step && p.Op == "restart" {
			t.next = s.Id + 1
		}
	}
	if h := c.hdl[s.FlowId]; h != nil {
		h.lost = true
	} else if run, ok := c.runs[s.FlowId]; ok {
		if h := c.hdl[fmt.Sprint("run ", run)]; h != nil {
			h.lost = true
		}
	}
	c.w.Add(Ev{K: "crash", Run: -1, Host: s.FlowId, Kind: p.Op, X: s.Id})
	id, step := s.FlowId, s.Id
	if c.post != nil {
		delete(c.insts, id) // the continued one isn't known before it executes an activity
	}
	go c.resume(p, id, step, b)
	return true
}

// damaged changes a serialised instance so that it can't be continued.
func damaged(p *CrashPt, b []byte) []byte {
	if p.Dmg == "trunc" {
		return b[:int(p.Val)%len(b)]
	}
	var root map[string]interface{}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if d.Decode(&root) != nil {
		return nil
	}
	flows := []map[string]interface{}{root}
	for _, s := range list(root["subFlows"]) {
		flows = append(flows, s)
	}
	n := int(p.Val)
	f := flows[n%len(flows)]
	n /= len(flows)
	change := func(l []map[string]interface{}, key string, v interface{}) bool {
		if len(l) == 0 {
			return false
		}
		l[n%len(l)][key] = v
		return true
	}
	switch p.Dmg {
	case "flow":
		f["flowUri"] = "res://flow:nothere"
	case "task":
		if !change(list(f["tasks"]), "id", "nothere") {
			return nil
		}
	case "link":
		if !change(list(f["links"]), "linkId", 9999) {
			return nil
		}
	}
	b, _ = json.Marshal(root)
	return b
}

func list(v interface{}) []map[string]interface{} {
	var o []map[string]interface{}
	a, _ := v.([]interface{})
	for _, e := range a {
		if m, ok := e.(map[string]interface{}); ok {
			o = append(o, m)
		}
	}
	return o
}

// attempt tries to continue the instance from a damaged form, which must be refused.
func (c *crasher) attempt(p *CrashPt, id string, b []byte, flow int) {
	x := c.x
	v := func(f string, a ...interface{}) {
		hold()
		defer release()
		x.V("C10", "instance %s, continued from a damaged form (%s %d): "+f, append([]interface{}{id, p.Dmg, p.Val}, a...)...)
	}
	defer func() {
		if r := recover(); r != nil {
			v("panic %v", r)
		}
	}()
	ro := &instance.RunOptions{Op: instance.OpRestart, PreservedInstanceId: id}
	if p.Op == "resume" {
		ro = &instance.RunOptions{Op: instance.OpResume}
	}
	if p.Dmg != "none" {
		bad := damaged(p, b)
		if bad == nil {
			return
		}
		inst := &instance.IndependentInstance{}
		if err := json.Unmarshal(bad, inst); err != nil {
			hold()
			x.Feat("damaged form refused", 1)
			release()
			return
		}
		ro.InitialState = inst
	}
	act, err := x.Action(flow)
	if err != nil {
		return
	}
	hold()
	n := 0
	if t := c.tale[id]; t != nil {
		n = t.starts
	}
	release()
	if err := act.Run(context.Background(), map[string]interface{}{"_run_options": ro}, nobody{}); err == nil {
		v("accepted")
		return
	}
	hold()
	x.Feat("damaged form refused", 1)
	t := c.tale[id]
	told := t != nil && n != t.starts
	release()
	if told {
		v("refused, but its start is recorded")
	}
}

func (c *crasher) resume(p *CrashPt, id string, step int, b []byte) {
	if p.Delay > 0 {
		time.Sleep(time.Duration(p.Delay))
	}
	x := c.x
	hold()
	run, ok := c.runs[id]
	if !ok {
		run = -1
	}
	if c.post != nil {
		for i := range x.Sc.Runs {
			if f := c.first[fmt.Sprintf("r%d", i)]; f != "" && (f == id || f == c.alias[id]) {
				run, ok = i, true
			}
		}
	}
	var data map[string]interface{}
	if ok && p.Data {
		s := fmt.Sprintf("U:%d", step)
		data = map[string]interface{}{"in0": s}
		c.w.Add(Ev{K: "update", Run: run, Data: map[string]string{"in0": Canon(s)}})
		x.Feat("continued with other data", 1)
	}
	release()
	if c.post != nil && c.post(p, id, run, b, data) {
		return
	}
	hold()
	started := run
	run, ok = c.runs[id]
	var h action.ResultHandler = nobody{}
	flow, ctx := 0, context.Background()
	if ok {
		ch := &crashHandler{resHandler: resHandler{c.w, run}}
		c.hdl[id] = ch
		h = ch
		r := x.Sc.Runs[run]
		flow = r.Flow
		if r.Event != "" && p.Event {
			ctx = trigger.NewContextWithEventId(ctx, r.Event)
		}
	} else {
		x.Feat("detached instance continued", 1)
	}
	if p.Dmg != "" {
		release()
		c.attempt(p, id, b, flow)
		hold()
	}
	inst := &instance.IndependentInstance{}
	err := json.Unmarshal(b, inst)
	if err == nil && p.Again {
		x.Feat("serialised form rewritten", 1)
		if b, err = json.Marshal(inst); err == nil {
			inst = &instance.IndependentInstance{}
			err = json.Unmarshal(b, inst)
		}
	}
	if err != nil {
		x.V("C10", "instance %s: its serialised form isn't accepted: %v", id, err)
		release()
		return
	}
	c.insts[id] = inst
	release()
	act, err := x.Action(flow)
	if err != nil {
		x.V("C10", "action refused: %v", err)
		return
	}
	ro := &instance.RunOptions{Op: instance.OpRestart, InitialState: inst, PreservedInstanceId: id}
	if p.Op == "resume" {
		ro = &instance.RunOptions{Op: instance.OpResume, InitialState: inst}
	} else if p.Step {
		ro.InitStepId = step + 1
	}
	ro.OriginalInstanceId, ro.Rerun = p.Orig, p.Rerun
	if started >= 0 {
		if ic := x.Sc.interceptor(started); ic != nil {
			ro.ExecOptions = &instance.ExecOptions{Interceptor: ic}
		}
	}
	in := map[string]interface{}{"_run_options": ro}
	hold()
	if t := c.tale[id]; t != nil {
		t.data = data
	}
	release()
	for k, v := range data {
		in[k] = v
	}
	if err := act.Run(ctx, in, h); err != nil {
		x.V("C10", "instance %s can't be continued: %v", id, err)
	}
}

func restartExec(x *X) {
	if !x.Deploy() {
		return
	}
	w := NewWorld(x.Sc)
	o := NewWatch(w, x.Sc.Obs)
	c := newCrasher(x, w, o)
	x.handler = func(w *World, run int) action.ResultHandler {
		h := &crashHandler{resHandler: resHandler{w, run}}
		hold()
		c.byG[runtime.SimID()] = run
		c.hdl[fmt.Sprint("run ", run)] = h
		release()
		return h
	}
	o.Attach()
	ok := x.RunAll(w, nil, nil)
	o.Detach()
	if !ok {
		return
	}
	m := NewModel(x.Sc)
	var log []Ev
	for _, e := range w.Log {
		if e.K != "crash" {
			log = append(log, e)
		}
	}
	for _, e := range o.Rec {
		if t := c.tale[e.Inst]; t != nil && t.open && !t.ended {
			x.V("C10", "instance %s: its end is not recorded", e.Inst)
			t.ended = true
		}
	}
	full := w.Log
	judgeLives(x, o, full)
	w.Log = log
	x.Judge(w, m)
	if len(x.Res.Viols) > 0 {
		x.Res.Trace = Pretty(full)
	}
	for k, n := range o.n {
		x.Feat(k, n)
	}
}

// judgeLives: the spans opened since an instance was started or continued for
// the last time are closed once, and those of its activities are below its span.
func judgeLives(x *X, o *Watch, log []Ev) {
	flows := map[string]int{} // where the span of a flow was last opened
	for _, s := range o.Sp {
		last, next := -1, len(log)
		sub := false
		for i, e := range log {
			if e.K != "crash" || e.Host != s.Flow && !strings.HasPrefix(s.Flow, e.Host+"-") {
				continue
			}
			sub = sub || e.Host != s.Flow
			if i < s.OpenAt {
				last = i
			} else if next == len(log) {
				next = i
			}
		}
		what := fmt.Sprintf("span %q of flow %s", s.Op, s.Flow)
		if s.Closed > 1 || s.Closed == 0 && next == len(log) {
			x.V("C21", "%s closed %d times", what, s.Closed)
		}
		if s.Foreign {
			x.V("C21", "%s opened under something that is no span", what)
		}
		if last >= 0 {
			x.Feat("span of a continued instance", 1)
		}
		if o.n["tracer failed"] > 0 {
			continue
		}
		if s.Task == "" {
			flows[s.Flow] = s.OpenAt
			if s.Parent != nil && s.Parent.OpenAt <= last {
				x.V("C21", "%s opened under a span of before", what)
			}
			continue
		}
		at, ok := flows[s.Flow]
		switch {
		case sub && (!ok || at <= last) && s.Parent == nil: // the flow's span was opened before
			x.Feat("span of a continued subflow's activity", 1)
		case s.Parent == nil || s.Parent.Task != "" || s.Parent.Flow != s.Flow || s.Parent.OpenAt <= last:
			x.V("C21", "%s is not opened under the span of its flow", what)
		}
	}
}

func restartGen(p Profile) func(uint64, int) *Scenario {
	return func(seed uint64, class int) *Scenario {
		q := p
		if seed%5 == 3 { // more subflows that fail and are retried
			q.Sub, q.Retry, q.Fail, q.Loop, q.EH = 45, 50, 25, 4, 15
		}
		sc := Gen("C10", seed, &q)
		sc.ClassIx = class
		r := NewRng(seed ^ 0xC10C10)
		sc.Obs = Obs{Recorder: true, Mode: "full", Tracer: class == 1}
		if class == 1 && seed%4 == 0 {
			sc.Obs.TrcFail = uint32(50000 + (seed>>8)%300000)
		}
		if r.P(20) {
			sc.Obs.RecFail = uint32(50000 + r.N(300000))
		}
		if r.P(20) {
			sc.Obs.RecLat = int64(1+r.N(50)) * 1000000
		}
		pt := func(n int) {
			c := &CrashPt{N: n, Op: "restart", Step: r.P(50), Event: r.P(50)}
			switch {
			case r.P(10):
				c.Op = "peek"
			case r.P(30):
				c.Op = "resume"
			}
			if r.P(30) {
				c.Orig, c.Rerun = "original", r.P(50)
			}
			c.Data = r.P(40)
			c.Again = r.P(15)
			if r.P(30) {
				c.Dmg, c.Val = r.Pick("flow", "task", "link", "trunc", "none"), uint32(r.N(1<<20))
			}
			if r.P(60) {
				c.Delay = int64(1+r.N(3000)) * 1000000
			}
			sc.Crash = append(sc.Crash, c)
		}
		switch r.N(4) {
		case 0: // once
			pt(1 + r.N(30))
		case 1: // again and again
			k := 1 + r.N(4)
			for n := 1 + r.N(5); n < 60; n += k {
				pt(n)
			}
		default:
			n := 0
			for i := 1 + r.N(6); i > 0; i-- {
				n += 1 + r.N(8)
				pt(n)
			}
		}
		return sc
	}
}

func restartShrink(s *Scenario) []*Scenario {
	var out []*Scenario
	for i := range s.Crash {
		c := s.Clone()
		c.Crash = append(append([]*CrashPt{}, c.Crash[:i]...), c.Crash[i+1:]...)
		out = append(out, c)
	}
	for i, p := range s.Crash {
		q := *p
		q.Delay, q.Step, q.Event, q.Data, q.Orig, q.Rerun, q.Dmg, q.Val, q.Again = 0, false, false, false, "", false, "", 0, false
		if q != *p {
			c := s.Clone()
			c.Crash[i] = &q
			out = append(out, c)
		}
		if p.N > 1 {
			c := s.Clone()
			c.Crash[i].N--
			out = append(out, c)
		}
	}
	return out
}

func init() {
	general := Profile{Prio: 20, Flows: 3, Tasks: 6, MinTasks: 1, Fail: 7, EH: 35, Sub: 25, Det: 5, Loop: 14, Retry: 10, Ret: 4, Reply: 2, BadMap: 2, BadLink: 3, BadLoop: 6, ErrLink: 12, Refs: 3, Any: 5, Runs: 2, Lat: 25, Dup: 3, Empty: 2, NoID: 20, Event: 30, Width: 15}
	register(&Check{ID: "C10", Warm: 8, Real: realAll, Stub: stubAll + ", state recorder service, persistence of the serialised instances",
		Classes: []Class{{Recorder: true, Mode: "full"}, {Recorder: true, Mode: "full", Tracer: true}},
		Gen:     restartGen(general),
		Exec:    restartExec,
		Shrink:  restartShrink,
		Rule:    "generated flows whose instances are lost after a step and continued from their serialised form; non-trivial: an instance was lost and continued",
		NonTriv: feat("crash"),
		Faults:  append([]string{"crash", "lost again", "recorder call failed", "recorder stalled"}, faultFeats...),
	})
}
