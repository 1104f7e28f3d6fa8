package h

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/project-flogo/core/action"
	"github.com/project-flogo/flow/ondemand"
)

// Flows supplied with the request (C20).

const OnDemandRef = "github.com/project-flogo/flow/ondemand"

// OnDemand: the run's flow is supplied with its request.
type OnDemand struct {
	// "": valid; refused: nopkg, pkgtype, pkgempty, pkgnull, noflow, trunc, badlink, badref, badmap;
	// not predicted: value, drop, dup, swap, cut, garbage (random damage to the definition)
	// nomap: nothing is mapped, so nothing of the request gets into the flow
	Fault string `json:"fault,omitempty"`
	Pos   uint32 `json:"pos,omitempty"`
	Val   uint32 `json:"val,omitempty"`
	Reply bool   `json:"reply,omitempty"` // explicit reply: the id isn't reported
	Map   string `json:"map,omitempty"`   // how in0 is mapped: direct, nested, literal
}

func (o *OnDemand) wild() bool {
	return hasStr([]string{"value", "drop", "dup", "swap", "cut", "garbage"}, o.Fault)
}

func (o *OnDemand) refused() bool { return o.Fault != "" && o.Fault != "nomap" && !o.wild() }

var odReady bool

func odInit() error {
	if odReady {
		return nil
	}
	odReady = true
	return action.GetFactory(OnDemandRef).Initialize(proc)
}

// request builds the inputs of an on-demand run.
func (x *X) request(i int) map[string]interface{} {
	r := x.Sc.Runs[i]
	o := r.OD
	in := map[string]interface{}{"tok": x.odTok(i), "other": "no"}
	var def map[string]interface{}
	if err := json.Unmarshal(x.Sc.Def(r.Flow, x.URI), &def); err != nil {
		panic(err)
	}
	if o.Reply {
		def["explicitReply"] = true
	}
	m := map[string]interface{}{"tok": "=$.tok"}
	if r.In0 != "" {
		switch o.Map {
		case "literal":
			m["in0"] = r.In0
		case "nested":
			in["body"] = map[string]interface{}{"payload": map[string]interface{}{"in0": r.In0}}
			m["in0"] = "=$.body.payload.in0"
		default:
			in["in0"] = r.In0
			m["in0"] = "=$.in0"
		}
	}
	pkg := map[string]interface{}{"inputs": m, "flow": def, "outputs": map[string]interface{}{"x": "=$.value"}}
	tasks, _ := def["tasks"].([]interface{})
	act := func(ref string, settings map[string]interface{}) {
		if len(tasks) == 0 {
			tasks = []interface{}{map[string]interface{}{"id": "z", "name": "z"}}
			def["tasks"] = tasks
		}
		tasks[int(o.Pos)%len(tasks)].(map[string]interface{})["activity"] = map[string]interface{}{"ref": ref, "settings": settings}
	}
	switch o.Fault {
	case "nomap":
		in["in0"] = "raw"
		pkg["inputs"] = map[string]interface{}{}
		if o.Val%2 == 0 {
			delete(pkg, "inputs")
		}
	case "noflow":
		delete(pkg, "flow")
	case "badlink":
		ls, _ := def["links"].([]interface{})
		to := "nosuchtask"
		from := "nosuchtask"
		if len(tasks) > 0 && o.Val%2 == 0 {
			from = tasks[int(o.Pos)%len(tasks)].(map[string]interface{})["id"].(string)
		}
		def["links"] = append(ls, map[string]interface{}{"from": from, "to": to, "type": "dependency"})
	case "badref":
		act("nosuch/activity", nil)
	case "badmap":
		m["in0"] = "=h.fail(\"mapping\")"
	case "value", "drop", "dup", "swap":
		damage(def, o)
	}
	raw, err := json.Marshal(pkg)
	if err != nil {
		panic(err)
	}
	switch o.Fault {
	case "pkgempty":
		raw = nil
	case "pkgnull":
		raw = []byte("null")
	case "trunc":
		raw = raw[:int(o.Pos)%len(raw)]
	case "cut":
		p := 1 + int(o.Pos)%(len(raw)-2)
		e := p + 1 + int(o.Val)%24
		if e > len(raw) {
			e = len(raw)
		}
		raw = append(append([]byte{}, raw[:p]...), raw[e:]...)
	case "garbage":
		p := int(o.Pos) % len(raw)
		raw = append(append(append([]byte{}, raw[:p]...), []string{"\x00", "\xff\"", "]}", "{{"}[o.Val%4]...), raw[p:]...)
	}
	if o.wild() && cyclicLinks(raw) {
		raw = raw[:len(raw)/2]
	}
	switch o.Fault {
	case "nopkg":
	case "pkgtype":
		in["flowPackage"] = 17
	default:
		in["flowPackage"] = json.RawMessage(raw)
	}
	return in
}

// odTok is the token of an on-demand run; those of damaged ones are unknown to the model.
func (x *X) odTok(i int) string {
	if o := x.Sc.Runs[i].OD; o != nil && o.wild() {
		return fmt.Sprintf("x%d", i)
	}
	return fmt.Sprintf("r%d", i)
}

// odValid: the package supplied with the run is JSON.
func (x *X) odValid(i int) bool {
	raw, ok := x.request(i)["flowPackage"].(json.RawMessage)
	return ok && json.Valid(raw)
}

// cyclicLinks: the links of the package's definition form a cycle; flows are acyclic, one that isn't
// may well run for ever.
func cyclicLinks(raw []byte) bool {
	type graph struct {
		Links []struct{ From, To interface{} }
	}
	var pkg struct {
		Flow struct {
			graph
			ErrorHandler graph
		}
	}
	if !json.Valid(raw) {
		return false
	}
	_ = json.Unmarshal(raw, &pkg)
	for _, g := range []graph{pkg.Flow.graph, pkg.Flow.ErrorHandler} {
		next := map[string][]string{}
		for _, l := range g.Links {
			f := fmt.Sprint(l.From)
			next[f] = append(next[f], fmt.Sprint(l.To))
		}
		color := map[string]int{}
		var visit func(n string) bool
		visit = func(n string) bool {
			color[n] = 1
			for _, m := range next[n] {
				if color[m] == 1 || color[m] == 0 && visit(m) {
					return true
				}
			}
			color[n] = 2
			return false
		}
		for n := range next {
			if color[n] == 0 && visit(n) {
				return true
			}
		}
	}
	return false
}

// damage changes one value somewhere in the definition.
func damage(def map[string]interface{}, o *OnDemand) {
	type site struct {
		get    func() interface{}
		set    func(v interface{})
		remove func()
		dup    func()
	}
	var sites []site
	var strs []interface{}
	var walk func(v interface{}, up func(interface{}))
	walk = func(v interface{}, up func(interface{})) {
		switch c := v.(type) {
		case map[string]interface{}:
			var ks []string
			for k := range c {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				k := k
				sites = append(sites, site{func() interface{} { return c[k] }, func(n interface{}) { c[k] = n }, func() { delete(c, k) }, func() { c["dup_"+k] = c[k] }})
				walk(c[k], func(n interface{}) { c[k] = n })
			}
		case []interface{}:
			for i := range c {
				i := i
				sites = append(sites, site{func() interface{} { return c[i] }, func(n interface{}) { c[i] = n },
					func() { up(append(append([]interface{}{}, c[:i]...), c[i+1:]...)) },
					func() { up(append(append([]interface{}{}, c...), c[i])) }})
				walk(c[i], func(n interface{}) { c[i] = n })
			}
		case string:
			strs = append(strs, c)
		}
	}
	walk(def, func(interface{}) {})
	if len(sites) == 0 {
		return
	}
	s := sites[int(o.Pos)%len(sites)]
	switch o.Fault {
	case "value":
		s.set([]interface{}{nil, true, 2.0, "zz", []interface{}{}, map[string]interface{}{}, "=$flow.in0", "=$activity[", -1.0, []interface{}{nil}, map[string]interface{}{"mapping": nil}}[o.Val%11])
	case "drop":
		s.remove()
	case "dup":
		s.dup()
	case "swap":
		if _, ok := s.get().(string); ok && len(strs) > 0 {
			s.set(strs[int(o.Val)%len(strs)])
		} else {
			b, _ := json.Marshal(sites[int(o.Val)%len(sites)].get())
			var v interface{}
			_ = json.Unmarshal(b, &v)
			s.set(v)
		}
	}
}

// startOnDemand starts an on-demand run (inside a simulation).
func (x *X) startOnDemand(w *World, i int) {
	a, err := action.GetFactory(OnDemandRef).New(&action.Config{})
	if err != nil {
		x.V("C20", "run %d: no action: %v", i, err)
		return
	}
	w.Add(Ev{K: "begin", Run: i})
	defer func() {
		if r := recover(); r != nil {
			w.Add(Ev{K: "runpanic", Run: i, Err: fmt.Sprint(r), IsErr: true})
			if os.Getenv("SIM_STACK") != "" {
				fmt.Fprintf(os.Stderr, "%v %s\n", r, debug.Stack())
			}
		}
	}()
	if err := a.(*ondemand.FlowAction).Run(context.Background(), x.request(i), &resHandler{w, i}); err != nil {
		w.Add(Ev{K: "runerr", Run: i, Err: err.Error(), IsErr: true})
	}
}

// OnDemandExec executes the scenario, some of whose flows are supplied with the request.
func OnDemandExec(x *X) {
	if err := odInit(); err != nil {
		x.V("C20", "initialisation failed: %v", err)
		return
	}
	if !x.Deploy() {
		return
	}
	w := NewWorld(x.Sc)
	for _, r := range x.Sc.Runs {
		if r.OD != nil && r.OD.Fault == "nomap" {
			w.Stray = func(tok string) bool { return !strings.HasPrefix(tok, "r") }
		}
	}
	var acts []action.AsyncAction
	for _, r := range x.Sc.Runs {
		a, err := x.Action(r.Flow)
		if err != nil {
			x.V(x.Sc.Check, "action for flow %d refused: %v", r.Flow, err)
			return
		}
		acts = append(acts, a)
	}
	W = w
	x.Sim(func() {
		for i := range x.Sc.Runs {
			i := i
			go func() {
				if at := x.Sc.Runs[i].At; at > 0 {
					time.Sleep(time.Duration(at))
				}
				if x.Sc.Runs[i].OD != nil {
					x.startOnDemand(w, i)
				} else {
					x.StartRun(w, i, acts[i], nil)
				}
			}()
		}
	})
	// the runs that were refused, or are not predicted
	var rest []Ev
	for i, r := range x.Sc.Runs {
		if r.OD == nil {
			continue
		}
		x.Feat("on-demand runs", 1)
		if r.OD.Fault == "" {
			continue
		}
		x.Feat("on-demand fault: "+r.OD.Fault, 1)
		var evs []string
		refused, done, res := false, 0, 0
		for _, e := range w.Log {
			if e.Run != i {
				continue
			}
			switch e.K {
			case "begin":
				continue
			case "runerr":
				refused = true
				continue
			case "runpanic":
				x.V("C20", "run %d (%s): panic instead of an error: %s", i, r.OD.Fault, e.Err)
				continue
			case "done":
				done++
				if res == 0 {
					x.V("C20", "run %d (%s): completion notified before any result", i, r.OD.Fault)
				}
			case "result":
				if done > 0 {
					x.V("C20", "run %d (%s): result delivered after completion", i, r.OD.Fault)
				}
				res++
			}
			evs = append(evs, e.K)
			if e.Tok != "" && r.OD.Fault == "nomap" {
				x.V("C20", "run %d: %s gets inputs of the request that aren't mapped", i, e.Exec)
			}
		}
		switch {
		case refused && len(evs) > 0:
			x.V("C20", "run %d (%s) is refused but something happens: %s", i, r.OD.Fault, strings.Join(evs, " "))
		case refused && r.OD.Fault == "nomap":
			x.V("C20", "run %d: refused although nothing but mappings is missing", i)
		case !refused && (r.OD.refused() || !x.odValid(i)):
			x.V("C20", "run %d (%s): the request isn't refused", i, r.OD.Fault)
		case !refused && done != 1:
			x.V("C20", "run %d (%s): completion notified %d times", i, r.OD.Fault, done)
		}
		if refused {
			x.Feat("request refused", 1)
		} else {
			x.Feat("damaged definition executed", 1)
		}
	}
	for _, e := range w.Log {
		if o := x.Sc.Runs[e.Run].OD; o != nil && o.Fault != "" {
			continue
		}
		rest = append(rest, e)
	}
	full := w.Log
	w.Log = rest
	m := NewModel(x.Sc)
	x.Judge(w, m)
	if len(x.Res.Viols) > 0 {
		x.Res.Trace = append([]string{}, Pretty(full)...)
		for i, r := range x.Sc.Runs {
			if r.OD != nil && r.OD.Fault != "" {
				if raw, ok := x.request(i)["flowPackage"].(json.RawMessage); ok {
					x.Res.Trace = append(x.Res.Trace, fmt.Sprintf("package of run %d: %s", i, raw))
				}
			}
		}
	}
}

// genOnDemand: several flows, most supplied with their request, some of those damaged.
// supply has flows supplied with the request in some of the runs.
func supply(sc *Scenario, pct int) {
	r := NewRng(sc.Seed ^ 0x0d0d)
	for _, run := range sc.Runs {
		if r.P(pct) {
			run.OD = &OnDemand{Reply: r.P(50), Map: r.Pick("direct", "nested", "literal")}
			run.ID, run.Event, run.Detach, run.Orig, run.Rerun = "", "", false, "", false
			run.RetID = !run.OD.Reply
		}
	}
}

func genOnDemand(seed uint64, class int) *Scenario {
	p := Profile{Conc: 25, Prio: 20, Flows: 3, Tasks: 5, MinTasks: 1, Fail: 10, EH: 30, Sub: 20, Det: 4, Loop: 15, Retry: 8, Ret: 8, Reply: 5, BadMap: 2, BadLink: 3, BadLoop: 3, ErrLink: 15, Refs: 3, Any: 5, Runs: 4, Lat: 30, Dup: 2, Empty: 3, NoID: 20, Width: 15}
	sc := Gen("C20", seed, &p)
	sc.ClassIx = class
	r := NewRng(seed ^ 0x20)
	if r.P(30) {
		for _, f := range sc.Flows {
			f.Name = "same"
		}
	}
	for _, run := range sc.Runs {
		if r.P(15) {
			continue
		}
		o := &OnDemand{Reply: r.P(50), Map: r.Pick("direct", "nested", "literal")}
		run.OD = o
		run.ID, run.Event = "", ""
		run.RetID = !o.Reply
		if r.P(35) {
			o.Fault = r.Pick("nopkg", "nomap", "nomap", "pkgtype", "pkgempty", "pkgnull", "noflow", "trunc", "garbage", "badlink", "badref", "badmap", "value", "value", "value", "drop", "drop", "drop", "dup", "swap", "swap", "swap", "cut", "cut")
			o.Pos, o.Val = uint32(r.N(1<<20)), uint32(r.N(1<<20))
			if o.wild() {
				for _, f := range sc.Flows {
					for _, g := range []*Graph{f.Body, f.EH} {
						if g == nil {
							continue
						}
						for _, t := range g.Tasks {
							if t.Loop != nil && isWhile(t.Loop) { // it could be made endless
								o.Fault = "trunc"
							}
						}
					}
				}
			}
		}
	}
	return sc
}
