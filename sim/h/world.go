package h

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"

	"verif/sim/lwork"
	"verif/sim/psub"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/data/expression/function"
)

// Ev is one entry of the history of a run.
type Ev struct {
	I     int               `json:"i"`
	T     int64             `json:"t"`
	G     uint32            `json:"g"`
	K     string            `json:"k"` // try args start end result done runret + check-specific kinds
	Run   int               `json:"run"`
	Tok   string            `json:"tok,omitempty"`
	Task  string            `json:"task,omitempty"`
	Exec  string            `json:"exec,omitempty"`
	Host  string            `json:"host,omitempty"`
	Ptr   int               `json:"ptr,omitempty"`
	Name  string            `json:"name,omitempty"`
	Args  []string          `json:"args,omitempty"`
	Kind  string            `json:"kind,omitempty"` // end: outcome kind
	Data  map[string]string `json:"data,omitempty"`
	HasD  bool              `json:"hasd,omitempty"`
	Err   string            `json:"err,omitempty"`
	IsErr bool              `json:"iserr,omitempty"`
	EvID  string            `json:"evid,omitempty"`
	X     interface{}       `json:"x,omitempty"`
}

// att is one attempt to execute a task.
type att struct {
	exec, tok, task string
	n               int
	run             int
	flow            int
	t               *Task
	started, ended  bool
}

// node is one flow instance, identified by its call path.
type node struct {
	tok  string
	run  int
	flow int
	cnt  map[string]int
}

// World is everything the simulated activities share in one run.
type World struct {
	Sc       *Scenario
	Log      []Ev
	nodes    map[string]*node
	atts     map[string]*att
	ptrs     map[interface{}]int
	released map[int]bool
	wild     bool // some execution isn't predicted
	// Stray, if set, tells which executions aren't predicted
	Stray func(tok string) bool
	// Meet, if set, is called for the host of each execution
	Meet func(host activity.Host)
	// Reconf, if set, is what an activity does that gets new settings
	Reconf func(task string, s map[string]interface{}) error
	Fault  []string // harness-level anomalies (wrong inputs reaching an activity ...)
}

// untilReleased blocks an activity until the one who started the execution
// detached from itself has been released.
func (w *World) untilReleased(run int) {
	for i := 0; i < 600; i++ {
		hold()
		ok := w.released[run]
		release()
		if ok {
			return
		}
		time.Sleep(time.Second)
	}
	w.Add(Ev{K: "kept", Run: run})
}

var W *World

func NewWorld(sc *Scenario) *World {
	w := &World{Sc: sc, nodes: map[string]*node{}, atts: map[string]*att{}, ptrs: map[interface{}]int{}, released: map[int]bool{}}
	w.Log = make([]Ev, 0, 256)
	for i, r := range sc.Runs {
		tok := fmt.Sprintf("r%d", i)
		w.nodes[tok] = &node{tok: tok, run: i, flow: r.Flow, cnt: map[string]int{}}
		w.wild = w.wild || r.OD != nil && r.OD.wild()
	}
	return w
}

func hold()    { runtime.SimHold(1) }
func release() { runtime.SimHold(-1) }

// Add appends to the history; it never yields.
func (w *World) Add(e Ev) {
	hold()
	e.I = len(w.Log)
	e.T = runtime.SimTime()
	e.G = runtime.SimID()
	w.Log = append(w.Log, e)
	release()
}

func (w *World) fault(f string, a ...interface{}) {
	hold()
	w.Fault = append(w.Fault, fmt.Sprintf(f, a...))
	release()
}

// Canon is a canonical textual form of a value.
func Canon(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("!%v", v)
	}
	return string(b)
}

func canonMap(m map[string]interface{}) map[string]string {
	if m == nil {
		return nil
	}
	o := make(map[string]string, len(m))
	for k, v := range m {
		o[k] = Canon(v)
	}
	return o
}

func errStr(e error) string {
	if e == nil {
		return ""
	}
	return e.Error()
}

func hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h ^ h>>29
}

// vary is n, or more, depending on the instance.
func vary(n int, tok, id string) int {
	return n + int(hash(id+tok)%3)
}

// loopN is the number of iterations in the instance tok.
func (t *Task) loopN(tok string) int {
	if t.Loop.Vary {
		return vary(t.Loop.N, tok, t.ID)
	}
	return t.Loop.N
}

// retry is the count and the interval in the instance tok.
func (t *Task) retry(tok string) (int, int) {
	if t.Retry.Vary {
		return vary(t.Retry.Count, tok, t.ID), vary(t.Retry.Interval, tok, t.ID)
	}
	return t.Retry.Count, t.Retry.Interval
}

// outcome is what attempt n of the task does in the instance tok.
func (t *Task) outcome(tok string, n int) Outcome {
	if len(t.Variants) == 0 {
		return Outcome{}
	}
	v := t.Variants[hash(tok+t.ID)%uint64(len(t.Variants))]
	if n < len(v) {
		return v[n]
	}
	return Outcome{}
}

func (f *Flow) task(id string) *Task {
	if t := f.Body.task(id); t != nil {
		return t
	}
	if f.EH != nil {
		return f.EH.task(id)
	}
	return nil
}

func (w *World) stray(tok string) bool { return w.wild || w.Stray != nil && w.Stray(tok) }

func (w *World) enter(tok, task string) (string, error) {
	hold()
	defer release()
	nd := w.nodes[tok]
	if nd == nil && w.stray(tok) { // part of an execution that isn't predicted
		return fmt.Sprintf("%s/%s", tok, task), nil
	}
	if nd == nil {
		w.Fault = append(w.Fault, fmt.Sprintf("task %s evaluated with unknown instance token %q", task, tok))
		return "", errors.New("unknown token")
	}
	n := nd.cnt[task]
	nd.cnt[task] = n + 1
	exec := fmt.Sprintf("%s/%s#%d", tok, task, n)
	a := &att{exec: exec, tok: tok, task: task, n: n, run: nd.run, flow: nd.flow, t: w.Sc.Flows[nd.flow].task(task)}
	if a.t == nil {
		w.Fault = append(w.Fault, fmt.Sprintf("task %s is not a task of the flow of instance %s", task, tok))
		return "", errors.New("foreign task")
	}
	w.atts[exec] = a
	w.Add(Ev{K: "try", Run: nd.run, Tok: tok, Task: task, Exec: exec})
	if a.t.Kind == "sub" || a.t.Kind == "det" {
		w.nodes[exec] = &node{tok: exec, run: nd.run, flow: a.t.Flow, cnt: map[string]int{}}
	}
	return exec, nil
}

func (w *World) args(exec string, vals []interface{}) {
	hold()
	defer release()
	a := w.atts[exec]
	if a == nil {
		return
	}
	var c []string
	for _, v := range vals {
		c = append(c, Canon(v))
	}
	w.Add(Ev{K: "args", Run: a.run, Tok: a.tok, Task: a.task, Exec: exec, Args: c})
}

// ---- expression functions ----

type fn struct {
	name string
	sig  []data.Type
	vari bool
	f    func(p []interface{}) (interface{}, error)
}

type fEnter struct{ fn }

func (f *fEnter) Name() string                               { return f.name }
func (f *fEnter) Sig() ([]data.Type, bool)                   { return f.sig, f.vari }
func (f *fEnter) Eval(p ...interface{}) (interface{}, error) { return f.f(p) }

func reg(name string, sig []data.Type, vari bool, f func(p []interface{}) (interface{}, error)) {
	if err := function.Register(&fEnter{fn{name, sig, vari, f}}); err != nil {
		panic(err)
	}
}

func init() {
	s, a, n := data.TypeString, data.TypeAny, data.TypeInt
	reg("enter", []data.Type{a, s}, false, func(p []interface{}) (interface{}, error) {
		tok, _ := p[0].(string)
		return W.enter(tok, p[1].(string))
	})
	reg("in", []data.Type{a}, true, func(p []interface{}) (interface{}, error) {
		exec, _ := p[0].(string)
		W.args(exec, p[1:])
		return append([]interface{}{exec}, p[1:]...), nil
	})
	reg("tk", []data.Type{a}, true, func(p []interface{}) (interface{}, error) {
		exec, _ := p[0].(string)
		W.args(exec, p[1:])
		return exec, nil
	})
	reg("setfail", []data.Type{a, s, s}, false, func(p []interface{}) (interface{}, error) {
		msg := "setfail_" + p[1].(string)
		if p[2] == "panic" {
			panic(msg)
		}
		return nil, errors.New(msg)
	})
	reg("fail", []data.Type{s}, false, func(p []interface{}) (interface{}, error) {
		return nil, errors.New(p[0].(string))
	})
	reg("panic", []data.Type{s}, false, func(p []interface{}) (interface{}, error) {
		panic(p[0].(string))
	})
	reg("vary", []data.Type{n, a, s}, false, func(p []interface{}) (interface{}, error) {
		return vary(p[0].(int), fmt.Sprint(p[1]), p[2].(string)), nil
	})
	reg("cnt", []data.Type{s, n}, false, func(p []interface{}) (interface{}, error) {
		n := p[1].(int)
		switch p[0] {
		case "int64":
			return int64(n), nil
		case "float":
			return float64(n), nil
		case "str":
			return fmt.Sprint(n), nil
		}
		return n, nil
	})
	reg("num", []data.Type{n}, false, func(p []interface{}) (interface{}, error) { return p[0], nil })
	reg("list", []data.Type{s, n, s}, false, func(p []interface{}) (interface{}, error) {
		o := []interface{}{}
		strs := []string{}
		rows := []map[string]interface{}{}
		for i := 0; i < p[1].(int); i++ {
			e := fmt.Sprintf("L:%s:%d", p[0], i)
			if p[2] == "objs" {
				o = append(o, map[string]interface{}{"x": e})
			} else {
				o = append(o, e)
			}
			rows = append(rows, map[string]interface{}{"x": e})
			strs = append(strs, e)
		}
		switch p[2] {
		case "strs":
			return strs, nil
		case "rows":
			return rows, nil
		case "arr":
			v := reflect.New(reflect.ArrayOf(len(strs), reflect.TypeOf(""))).Elem()
			reflect.Copy(v, reflect.ValueOf(strs))
			return v.Interface(), nil
		case "nil":
			return nil, nil
		}
		return o, nil
	})
	reg("map", []data.Type{s, n}, false, func(p []interface{}) (interface{}, error) {
		o := map[string]interface{}{}
		for i := 0; i < p[1].(int); i++ {
			o[fmt.Sprintf("k%d", i)] = fmt.Sprintf("M:%s:k%d", p[0], i)
		}
		return o, nil
	})
	reg("bad", []data.Type{a}, true, func(p []interface{}) (interface{}, error) {
		if len(p) > 1 { // of a type that can't be iterated
			return struct{ A string }{fmt.Sprint(p[0])}, nil
		}
		return fmt.Sprintf("bad:%v", p[0]), nil
	})
	initSchemas()
	_ = activity.Register(&Work{}, newWork)
	lwork.Md = workMd
	lwork.Eval = func(ctx activity.Context) (bool, error) {
		lc, ok := ctx.(activity.LegacyCtx)
		if !ok {
			W.fault("%s: the context of a legacy activity isn't one", ctx.Name())
			return true, nil
		}
		kind, _ := lc.GetSetting("kind")
		k, _ := kind.(string)
		return eval(ctx, k, lc, 0, lc.GetSetting)
	}
	lwork.Reconfigure = func(s map[string]interface{}) error {
		s1, _ := s["s1"].(string)
		_, task, _ := strings.Cut(s1, ":")
		err := W.reconf(task, s)
		if err == nil {
			W.Add(Ev{K: "accept", Run: -1, Task: task})
		}
		return err
	}
	if err := lwork.Register(); err != nil {
		panic(err)
	}
	psub.Post = func(ctx activity.Context) (bool, error) {
		wd := W
		exec, _ := ctx.GetInput("tok").(string)
		hold()
		a := wd.atts[exec]
		if a == nil || taskName(a.task) != ctx.Name() {
			if a != nil || !wd.wild && (wd.Stray == nil || !wd.Stray(exec)) {
				wd.Fault = append(wd.Fault, fmt.Sprintf("activity %s continued after its flow, with the input %q", ctx.Name(), exec))
			}
			release()
			return true, nil
		}
		kind := a.t.outcome(a.tok, a.n).Kind
		wd.Add(Ev{K: "post", Run: a.run, Tok: a.tok, Task: a.task, Exec: exec, Kind: kind})
		release()
		if err := failure(kind, exec); err != nil {
			return false, err
		}
		return true, nil
	}
	function.ResolveAliases()
}

// ---- the activity ----

// Work is the activity all simulated tasks run.
type Work struct {
	kind, name, host string
	cfg              map[string]interface{} // as given by the engine
}

type Input struct {
	In  interface{} `md:"in"`
	Lit interface{} `md:"lit"`
}

func (i *Input) ToMap() map[string]interface{} {
	return map[string]interface{}{"in": i.In, "lit": i.Lit}
}
func (i *Input) FromMap(m map[string]interface{}) error {
	i.In, i.Lit = m["in"], m["lit"]
	return nil
}

type Output struct {
	Val interface{} `md:"val"`
	Sel int         `md:"sel"`
	N   int         `md:"n"`
	Go  bool        `md:"go"`
	Nil interface{} `md:"nil"` // or another value of little substance
}

func (o *Output) ToMap() map[string]interface{} {
	return map[string]interface{}{"val": o.Val, "sel": o.Sel, "n": o.N, "go": o.Go, "nil": o.Nil}
}
func (o *Output) FromMap(m map[string]interface{}) error { return nil }

type Settings struct {
	Kind string `md:"kind"`
	S1   string `md:"s1"`
	S2   int    `md:"s2"`
}

var workMd = activity.ToMetadata(&Settings{}, &Input{}, &Output{})

func newWork(ctx activity.InitContext) (activity.Activity, error) {
	k, _ := ctx.Settings()["kind"].(string)
	return &Work{kind: k, cfg: ctx.Settings(), name: taskOf(ctx.Name()), host: ctx.HostName()}, nil
}

// Reconfigure gives the activity other settings.
func (w *Work) Reconfigure(s map[string]interface{}) error {
	if err := W.reconf(w.name, s); err != nil {
		return err
	}
	hold()
	w.cfg = s
	W.Add(Ev{K: "accept", Run: -1, Task: w.name, Name: w.host})
	release()
	return nil
}

// Cleanup disposes of the activity.
func (w *Work) Cleanup() error {
	W.Add(Ev{K: "cleanup", Run: -1, Task: w.name, Name: w.host})
	if hash(w.name)%3 == 0 {
		return plainErr("E:cleanup")
	}
	return nil
}

func (w *World) reconf(task string, s map[string]interface{}) error {
	if w.Reconf == nil {
		return nil
	}
	return w.Reconf(task, s)
}

func (w *Work) Metadata() *activity.Metadata { return workMd }

type plainErr string

func (e plainErr) Error() string { return string(e) }

// errParts are the code and the data of the activity error: most have both.
func errParts(kind, exec string) (string, interface{}) {
	code := "C1"
	if kind == "rerr" {
		code = "C2"
	}
	switch hash("parts"+exec) % 8 {
	case 0:
		return code, nil
	case 1:
		return "", "D:" + exec
	case 2:
		return code, map[string]interface{}{"of": "D:" + exec}
	case 3:
		return "", nil
	}
	return code, "D:" + exec
}

// little is a value easily taken for none.
func little(exec string) interface{} {
	switch hash("little"+exec) % 7 {
	case 0:
		return ""
	case 1:
		return 0
	case 2:
		return false
	case 3:
		return []interface{}{}
	case 4:
		return map[string]interface{}{}
	}
	return nil
}

// retVal is what the execution returns as n.
func retVal(exec, n string) interface{} {
	if hash("ret"+exec+n)%5 == 0 {
		return little(exec + n)
	}
	return "R:" + exec + ":" + n
}

// failure is how the execution fails, or nil.
func failure(kind, exec string) error {
	switch kind {
	case "err":
		return plainErr("E:" + exec + ";")
	case "aerr":
		code, data := errParts(kind, exec)
		return activity.NewError("E:"+exec+";", code, data)
	case "rerr":
		code, data := errParts(kind, exec)
		return activity.NewRetriableError("E:"+exec+";", code, data)
	case "panic":
		panic("E:" + exec + ";")
	}
	return nil
}

func (w *Work) Eval(ctx activity.Context) (bool, error) {
	hold()
	cfg, at := w.cfg, len(W.Log)
	release()
	return eval(ctx, w.kind, nil, at, func(name string) (interface{}, bool) {
		v, ok := cfg[name]
		return v, ok
	})
}

func eval(ctx activity.Context, knd string, lc activity.LegacyCtx, at int, setting func(string) (interface{}, bool)) (bool, error) {
	wd := W
	in, _ := ctx.GetInput("in").([]interface{})
	var exec string
	if len(in) > 0 {
		exec, _ = in[0].(string)
	}
	host := ctx.ActivityHost()
	hold()
	a := wd.atts[exec]
	if a == nil && wd.stray(exec) {
		release()
		return true, nil
	}
	if a == nil || a.started || taskName(a.task) != ctx.Name() {
		state := "unknown"
		if a != nil && a.started {
			state = "already executed"
		} else if a != nil {
			state = "other task's"
		}
		wd.Fault = append(wd.Fault, fmt.Sprintf("activity %s executed with an %s set of inputs (%q)", ctx.Name(), state, exec))
		release()
		return true, nil
	}
	a.started = true
	if wd.Meet != nil {
		wd.Meet(host)
	}
	if _, ok := wd.ptrs[host]; !ok {
		wd.ptrs[host] = len(wd.ptrs) + 1
	}
	var got []string
	for _, v := range in[1:] {
		got = append(got, Canon(v))
	}
	if lit := Canon(ctx.GetInput("lit")); lit != Canon(wd.literal(a)) {
		wd.Fault = append(wd.Fault, fmt.Sprintf("%s: literal input is %s", exec, lit))
	}
	ptr := wd.ptrs[host]
	release()
	var evid string
	if v, ok := host.Scope().GetValue("event.id"); ok {
		evid = fmt.Sprint(v)
	}
	wd.Add(Ev{K: "start", Run: a.run, Tok: a.tok, Task: a.task, Exec: exec, Host: host.ID(), Name: host.Name(), Ptr: ptr, Args: got, EvID: evid})
	if wd.Sc.Runs[a.run].Detach && strings.HasPrefix(a.tok, "r") && a.n == 0 {
		wd.untilReleased(a.run)
	}
	wd.checkSchemas(ctx, a.t, exec)
	o := a.t.outcome(a.tok, a.n)
	withSettings := len(wd.Sc.Reconf) > 0
	cfg := [5]int{at}
	var s1, s2 interface{}
	if withSettings {
		cfg[1] = wd.at()
		s1, _ = setting("s1")
		cfg[2] = wd.at()
	}
	if o.Lat > 0 {
		time.Sleep(time.Duration(o.Lat))
	}
	if withSettings {
		cfg[3] = wd.at()
		s2, _ = setting("s2")
		cfg[4] = wd.at()
		wd.Add(Ev{K: "cfg", Run: a.run, Tok: a.tok, Task: a.task, Exec: exec, Data: map[string]string{"s1": Canon(s1), "s2": Canon(s2)}, X: cfg})
	}
	if a.t.Legacy != (lc != nil) {
		wd.fault("%s: executed by another activity", exec)
	}
	end := func(kind string) {
		hold()
		a.ended = true
		wd.Add(Ev{K: "end", Run: a.run, Tok: a.tok, Task: a.task, Exec: exec, Kind: kind})
		release()
	}
	out := &Output{Nil: little(exec), Val: "V:" + exec, Sel: o.Sel, N: a.n, Go: a.t.Loop != nil && a.n < a.t.loopN(a.tok)}
	if o.Kind == "err" {
		_ = ctx.SetOutput("val", "BAD:"+exec)
	}
	if o.Kind != "" {
		end(o.Kind)
		return false, failure(o.Kind, exec)
	}
	if a.t.Set != "" {
		_ = host.Scope().SetValue(a.t.Set, "S:"+exec)
	}
	switch knd {
	case "ret", "reply":
		var d map[string]interface{}
		var err error
		if len(a.t.Data) > 0 || a.t.NoData {
			d = map[string]interface{}{}
			for _, n := range a.t.Data {
				d[n] = retVal(exec, n)
			}
		}
		if a.t.Err {
			err = plainErr("E:" + exec + ";")
		}
		if knd == "ret" {
			wd.Add(Ev{K: "returning", Run: a.run, Tok: a.tok, Task: a.task, Exec: exec})
			host.Return(d, err)
		} else {
			wd.Add(Ev{K: "replying", Run: a.run, Tok: a.tok, Task: a.task, Exec: exec})
			host.Reply(d, err)
			wd.Add(Ev{K: "replied", Run: a.run, Tok: a.tok, Task: a.task, Exec: exec})
		}
	}
	if hash(a.task)%2 == 0 {
		_ = ctx.SetOutputObject(out)
	} else {
		for k, v := range out.ToMap() {
			_ = ctx.SetOutput(k, v)
		}
	}
	if lc != nil {
		if v := lc.GetOutput("dflt"); v != "O:"+a.task {
			wd.fault("%s: the output stated in the definition is %v", exec, v)
		}
		if v := lc.GetOutput("val"); v != "V:"+exec {
			wd.fault("%s: the output just set is %v", exec, v)
		}
	}
	end("")
	return true, nil
}

// at is the number of events so far.
func (w *World) at() int {
	hold()
	defer release()
	return len(w.Log)
}

func isTok(s, tok string) bool { return s == tok || strings.HasPrefix(s, tok+"/") }

func sortStrings(s []string) { sort.Strings(s) }
