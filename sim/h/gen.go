package h

import "fmt"

// Profile steers the generator.
type Profile struct {
	Conc     int // % of concurrent scenarios
	Prio     int // % with expression links prioritised
	Flows    int // max flows
	Tasks    int // max tasks per flow
	MinTasks int
	Fail     int // % of executions that fail
	EH       int // % of flows with an error handler
	Sub      int // % of tasks invoking a flow
	Det      int // % of tasks invoking a flow detached
	Loop     int
	Retry    int
	Ret      int
	Reply    int
	BadMap   int // % of tasks with a failing input mapping
	BadLink  int // % of expression links that cannot be evaluated
	BadLoop  int // % of loops that are invalid
	Refs     int // max references per task
	Any      int // % of references that may be unresolvable
	Runs     int // max instances
	Lat      int // % of executions that take time
	Dup      int // % of links doubled by another between the same tasks
	Empty    int // % of graphs without any task
	NoID     int // % of runs with a generated id
	Event    int // % of runs with an event id
	ErrLink  int // % of links that are error links
	Width    int // % chance of a task to be an entry task
	Detach   int // % of runs whose caller doesn't want the results
	Rerun    int // % of runs stated to repeat others
	Schema   int // % of tasks with schemas, 0: a few
}

// schema: by default a few tasks have some.
func (p *Profile) schema() int {
	if p.Schema == 0 {
		return 3
	}
	return p.Schema
}

type gen struct {
	*Rng
	p    *Profile
	sc   *Scenario
	ret  bool // concurrent scenarios: returns, no failures
	conc bool
	// reply: concurrent scenarios with ret: replies instead of returns
	reply bool
}

var loopDelays = []int{1, 20, 500}

// Gen generates the scenario of a seed.
func Gen(check string, seed uint64, p *Profile) *Scenario {
	g := &gen{Rng: NewRng(seed), p: p}
	sc := &Scenario{Check: check, Seed: seed}
	g.sc = sc
	sc.Conc = g.P(p.Conc)
	g.conc = sc.Conc
	sc.PrioExpr = g.P(p.Prio)
	g.ret = g.P(30)
	g.reply = g.conc && g.P(40)
	g.sched()
	nf := 1
	if p.Flows > 1 {
		nf = 1 + g.N(p.Flows)
		if p.Sub+p.Det > 0 && nf == 1 && g.P(70) {
			nf = 2
		}
	}
	for i := 0; i < nf; i++ {
		sc.Flows = append(sc.Flows, &Flow{Name: fmt.Sprintf("flow%d", i)})
	}
	if g.conc && nf > 1 && p.Sub > 0 && g.P(25) {
		// small subflows side by side, to start and end at the same time
		q := *p
		q.Width, q.Sub, q.Tasks, q.MinTasks = 85, 70, 5, 2
		g.p = &q
		sc.Sched.YieldPPM = []uint32{20000, 100000, 300000}[g.N(3)]
	}
	for i := nf - 1; i >= 0; i-- {
		if g.p != p && i > 0 {
			q := *p
			q.Width, q.Tasks, q.MinTasks = 60, 2, 0
			t := g.p
			g.p = &q
			g.flow(i, nf)
			g.p = t
			continue
		}
		g.flow(i, nf)
	}
	g.p = p
	nr := 1
	if p.Runs > 1 {
		nr = 1 + g.N(p.Runs)
	}
	for i := 0; i < nr; i++ {
		r := &Run{}
		if nr > 1 && g.P(40) {
			r.Flow = g.N(nf)
		}
		if i > 0 && g.P(50) {
			r.At = int64(g.N(20)) * 1e6
		}
		if !g.P(p.NoID) {
			r.ID = fmt.Sprintf("inst-%x-%d", seed&0xffff, i)
		}
		r.RetID = g.P(8)
		if !g.conc && p.Detach > 0 && g.P(p.Detach) {
			r.Detach = true
			r.RetID = g.P(40)
		}
		if p.Rerun > 0 && g.P(p.Rerun) {
			r.Orig, r.Rerun = "original", g.P(50)
		}
		if g.P(p.Event) {
			r.Event = fmt.Sprintf("ev-%d", i)
		}
		if g.P(70) {
			r.In0 = fmt.Sprintf("I:r%d", i)
		}
		sc.Runs = append(sc.Runs, r)
	}
	return sc
}

func (g *gen) sched() {
	s := &g.sc.Sched
	s.Policy = []uint32{0, 1, 4}[g.N(3)]
	s.YieldPPM = []uint32{2000, 20000, 100000, 300000}[g.N(4)]
	s.MapPPM = []uint32{0, 50000, 500000}[g.N(3)]
	s.ChangePPM = []uint32{1000, 10000, 50000}[g.N(3)]
	s.SlowPPM = []uint32{0, 0, 1000, 20000}[g.N(4)]
	if !g.conc && g.P(50) {
		s.YieldPPM = 200
	}
}

func (g *gen) failing() bool { return !(g.conc && g.ret) }

func (g *gen) flow(i, nf int) {
	f := g.sc.Flows[i]
	p := g.p
	if g.P(30) {
		f.InDef = fmt.Sprintf("IN:%d", i)
	}
	f.Model = g.P(12)
	// what the flow declares as outputs
	if !g.P(20) {
		for k := 0; k < 2; k++ {
			if g.P(60) {
				o := &Out{Name: fmt.Sprintf("o%d", k)}
				if g.P(40) || g.conc {
					o.Def = fmt.Sprintf("DEF:%d:%d", i, k)
				}
				f.Outs = append(f.Outs, o)
			}
		}
	}
	f.Body = g.graph(i, nf, false)
	if g.P(p.EH) && g.failing() {
		f.EH = g.graph(i, nf, true)
	}
	hasReply := false
	for _, gr := range []*Graph{f.Body, f.EH} {
		if gr == nil {
			continue
		}
		for _, t := range gr.Tasks {
			hasReply = hasReply || t.Kind == "reply"
		}
	}
	if hasReply {
		f.Outs = nil
	}
	g.refs(i, f.Body, false)
	if f.EH != nil {
		g.refs(i, f.EH, true)
	}
}

func (g *gen) graph(fi, nf int, eh bool) *Graph {
	p := g.p
	gr := &Graph{Tasks: []*Task{}}
	if g.P(p.Empty) {
		return gr
	}
	max := p.Tasks
	if eh {
		max = 1 + p.Tasks/3
	}
	n := 1 + g.N(max)
	if !eh && n < p.MinTasks {
		n = p.MinTasks
	}
	pre := "t"
	if eh {
		pre = "h"
	}
	f := g.sc.Flows[fi]
	retData := []string{"x"}
	if len(f.Outs) > 0 {
		retData = nil
		for _, o := range f.Outs {
			if g.P(75) || g.conc {
				retData = append(retData, o.Name)
			}
		}
		if g.P(20) || len(retData) == 0 {
			retData = append(retData, "extra")
		}
	}
	for i := 0; i < n; i++ {
		t := &Task{ID: fmt.Sprintf("f%d%s%d", fi, pre, i), Kind: "work"}
		gr.Tasks = append(gr.Tasks, t)
		canCall := fi+1 < nf
		switch {
		case canCall && g.P(p.Sub):
			t.Kind = "sub"
			t.Flow = fi + 1 + g.N(nf-fi-1)
		case canCall && g.P(p.Det):
			t.Kind = "det"
			t.Flow = fi + 1 + g.N(nf-fi-1)
		case g.P(p.Ret) && (!g.conc || g.ret && !g.reply):
			t.Kind = "ret"
			if g.P(30) && (!g.conc || fi == 0) {
				t.Err = true
			}
			if !t.Err || g.P(50) {
				t.Data = retData
			}
			if !t.Err && !g.conc && g.P(12) {
				t.Data, t.NoData = nil, true
			}
		case fi == 0 && g.P(p.Reply) && (!g.conc || g.reply):
			t.Kind = "reply"
			t.Data = []string{"rep"}
			if g.P(20) {
				t.Err = true
				t.Data = nil
			}
		}
		loopable := t.Kind == "work" || t.Kind == "sub" || t.Kind == "det" && g.P(30)
		if loopable && g.P(p.Loop) {
			g.loop(t)
		} else if (t.Kind == "work" || t.Kind == "sub" && !g.conc) && g.P(p.Retry) && g.failing() {
			t.Retry = &Retry{Count: g.N(4), Interval: []int{0, 0, 3, 50, 1000}[g.N(5)], Expr: g.P(30), Vary: g.P(35)}
			if g.P(8) {
				t.Retry.Bad = g.Pick("count", "interval")
			}
		}
		if t.Kind == "work" && g.P(30) {
			t.Set = g.Pick("g0", "g1", "o0", "o1")
		}
		t.Legacy = t.Kind != "sub" && t.Kind != "det" && g.P(8)
		if g.P(p.schema()) {
			g.schemas(t)
		}
		g.outcomes(t)
	}
	// links
	for i := 1; i < n; i++ {
		t := gr.Tasks[i]
		if g.P(p.Width) {
			continue
		}
		np := 1
		if g.P(35) {
			np = 2 + g.N(2)
		}
		seen := map[int]bool{}
		for k := 0; k < np; k++ {
			j := g.N(i)
			if i > 3 && g.P(50) {
				j = i - 1 - g.N(3)
			}
			if seen[j] {
				continue
			}
			seen[j] = true
			gr.Links = append(gr.Links, g.link(gr, gr.Tasks[j], t))
			if g.P(p.Dup) {
				gr.Links = append(gr.Links, g.link(gr, gr.Tasks[j], t))
			}
		}
	}
	// the order of links in the definition is not their topological order
	for i := len(gr.Links) - 1; i > 0; i-- {
		j := g.N(i + 1)
		gr.Links[i], gr.Links[j] = gr.Links[j], gr.Links[i]
	}
	// a link that cannot be evaluated and an error link do not mix
	for _, l := range gr.Links {
		if l.Expr == "bad" || l.Expr == "panic" {
			for _, e := range gr.Links {
				if e.From == l.From && e.Type == "error" {
					l.Expr = "true"
				}
			}
		}
	}
	for _, t := range gr.Tasks {
		if t.Loop != nil && t.Loop.Kind == "paniccond" {
			for _, e := range gr.Links {
				if e.From == t.ID && e.Type == "error" {
					t.Loop.Kind = "badcond"
				}
			}
		}
	}
	return gr
}

func (g *gen) loop(t *Task) {
	p := g.p
	l := &Loop{N: []int{0, 1, 1, 2, 2, 3, 4, 5}[g.N(8)]}
	t.Loop = l
	l.Kind = g.Pick("count", "count", "list", "map", "while", "whilego")
	if g.failing() && g.P(p.BadLoop) {
		l.Kind = g.Pick("baditer", "badcond", "paniccond")
	}
	if l.Kind == "whilego" && t.Kind != "work" {
		l.Kind = "while"
		if outs := g.sc.Flows[t.Flow].Outs; t.Kind == "sub" && len(outs) > 0 && g.failing() {
			l.Kind = "whileout"
			l.F = outs[g.N(len(outs))].Name
		}
	}
	if l.Kind == "while" || l.Kind == "whilego" {
		l.N = g.N(4)
	}
	if g.P(30) {
		l.Delay = loopDelays[g.N(3)]
	}
	l.Acc = g.P(40) && t.Kind != "det"
	l.Style = g.N(3)
	l.Vary = l.N > 0 && g.P(30)
	switch l.Kind {
	case "count":
		l.Typ = g.Pick("", "", "int64", "float", "str")
	case "list":
		l.Typ = g.Pick("", "", "", "strs", "arr", "objs", "rows")
		if l.N == 0 && g.P(40) {
			l.Typ = "nil"
		}
	case "baditer":
		l.Typ = g.Pick("", "struct")
	}
}

func (g *gen) outcomes(t *Task) {
	p := g.p
	if t.Kind == "sub" && !g.conc && g.P(18) {
		t.Post = true
	} else if t.Kind == "sub" || t.Kind == "det" {
		return
	}
	nv := 1
	if g.P(25) {
		nv = 2
	}
	for v := 0; v < nv; v++ {
		n := 1
		if t.Loop != nil {
			n = 1 + g.N(t.Loop.N+1)
			if t.Loop.Vary {
				n += g.N(3)
			}
		}
		if t.Retry != nil {
			n = 1 + g.N(t.Retry.Count+2)
			if t.Retry.Vary {
				n += g.N(3)
			}
		}
		var os []Outcome
		for i := 0; i < n; i++ {
			o := Outcome{Sel: g.N(3)}
			if g.P(p.Lat) {
				o.Lat = []int64{1000, 1e6, 1e6, 5e6, 7e7, 2e9}[g.N(6)]
			}
			if (t.Kind == "work" || t.Post) && g.failing() {
				if t.Retry != nil && g.P(60) {
					o.Kind = "rerr"
				}
				if g.P(p.Fail) {
					o.Kind = g.Pick("err", "aerr", "rerr", "panic")
				}
			}
			os = append(os, o)
		}
		t.Variants = append(t.Variants, os)
	}
}

func (g *gen) link(gr *Graph, from, to *Task) *Link {
	p := g.p
	l := &Link{From: from.ID, To: to.ID}
	hasOw, hasEx := false, false
	for _, x := range gr.Links {
		if x.From == from.ID {
			hasOw = hasOw || x.Type == "exprOtherwise"
			hasEx = hasEx || x.Type == "expression"
		}
	}
	// only loops that certainly execute may rely on their outputs
	constant := from.Kind == "sub" || from.Kind == "det" || from.Loop != nil && (from.Loop.Acc || zero(from) || from.Loop.Kind == "baditer")
	r := g.N(100)
	switch {
	case r < p.ErrLink && from.Kind != "ret" && from.Kind != "reply":
		l.Type = "error"
	case !hasOw && (hasEx && g.P(40) || g.P(4)):
		l.Type = "exprOtherwise"
	case g.P(40):
		l.Type = "expression"
		switch {
		case g.failing() && g.P(p.BadLink) && !(from.Loop != nil && zero(from)):
			l.Expr = g.Pick("bad", "bad", "panic")
		case constant || g.P(15):
			l.Expr = g.Pick("true", "true", "false")
		default:
			l.Expr = "sel"
			for s := 0; s < 3; s++ {
				if g.P(50) {
					l.Sels = append(l.Sels, s)
				}
			}
		}
	case g.P(40):
		l.Type = "label"
	default:
		l.Type = "dependency"
	}
	return l
}

// anc computes the path ancestors and the certain (surely successfully
// executed) ancestors of every task.
func anc(gr *Graph) (path, cert map[string]map[string]bool) {
	path, cert = map[string]map[string]bool{}, map[string]map[string]bool{}
	for _, t := range gr.Tasks { // tasks are in topological order
		p := map[string]bool{}
		var c map[string]bool
		for _, l := range gr.Links {
			if l.To != t.ID {
				continue
			}
			p[l.From] = true
			for k := range path[l.From] {
				p[k] = true
			}
			lc := map[string]bool{}
			for k := range cert[l.From] {
				lc[k] = true
			}
			if from := gr.task(l.From); l.Type != "error" && !zero(from) {
				lc[l.From] = true
			}
			if c == nil {
				c = lc
			} else {
				for k := range c {
					if !lc[k] {
						delete(c, k)
					}
				}
			}
		}
		if c == nil {
			c = map[string]bool{}
		}
		path[t.ID], cert[t.ID] = p, c
	}
	return
}

func (g *gen) sorted(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sortStrings(o)
	return o
}

func (g *gen) outField(fi int, id string) string {
	t := g.sc.Flows[fi].task(id)
	if t != nil && t.Kind == "sub" {
		if o := g.sc.Flows[t.Flow].Outs; len(o) > 0 {
			return o[g.N(len(o))].Name
		}
		return "o0"
	}
	return g.Pick("val", "val", "val", "val", "n", "sel", "nil")
}

func (g *gen) refs(fi int, gr *Graph, eh bool) {
	p := g.p
	f := g.sc.Flows[fi]
	path, cert := anc(gr)
	for _, t := range gr.Tasks {
		n := g.N(p.Refs + 1)
		if eh && n == 0 {
			n = 1
		}
		for k := 0; k < n; k++ {
			if r := g.ref(fi, f, gr, t, path[t.ID], cert[t.ID], eh); r != nil {
				t.Refs = append(t.Refs, r)
			}
		}
		// a failing mapping: not where the task would be expected to have
		// been executed for its number of attempts to be known
		if g.failing() && g.P(p.BadMap) && t.Kind != "det" {
			if t.Loop == nil && t.Retry == nil && g.P(40) {
				t.BadSet = g.Pick("fail", "panic")
			} else {
				t.Refs = append(t.Refs, &Ref{K: g.Pick("fail", "fail", "panic"), F: "mapfail_" + t.ID})
			}
		}
		if t.Kind == "sub" || t.Kind == "det" {
			switch g.N(4) {
			case 0:
				t.In0 = &Ref{K: "lit", F: "I:" + t.ID}
			case 1:
				t.In0 = &Ref{K: "var", F: "in0"}
			case 2:
				for _, a := range g.sorted(cert[t.ID]) {
					at := gr.task(a)
					if at.Kind == "work" && (at.Loop == nil || !at.Loop.Acc) {
						t.In0 = &Ref{K: "act", T: a, F: "val"}
						break
					}
				}
			}
		}
	}
}

func (g *gen) ref(fi int, f *Flow, gr *Graph, t *Task, path, cert map[string]bool, eh bool) *Ref {
	if t.Loop != nil && g.P(50) {
		if isWhile(t.Loop) {
			return &Ref{K: "iter", F: "index"}
		}
		if t.Loop.Kind == "baditer" {
			return nil
		}
		if ty := t.Loop.Typ; ty == "objs" || ty == "rows" {
			return &Ref{K: "iter", F: g.Pick("index", "key", "value", "value.x", "value.x")}
		}
		return &Ref{K: "iter", F: g.Pick("index", "key", "value")}
	}
	if eh && g.P(60) {
		return &Ref{K: "err", F: g.Pick("message", "message", "type", "activity", "code", "data")}
	}
	// reached only by the error link of one task
	var src string
	only := true
	for _, l := range gr.Links {
		if l.To == t.ID {
			if l.Type != "error" || src != "" && src != l.From {
				only = false
			}
			src = l.From
		}
	}
	if src != "" && only && g.P(50) {
		return &Ref{K: "errt", T: src, F: g.Pick("message", "message", "type", "activity", "code", "data", "")}
	}
	if g.P(g.p.Any) && g.failing() {
		switch g.N(5) {
		case 4: // nothing there
			if !eh && !g.conc && g.P(35) {
				return &Ref{K: "err", F: "message"}
			}
			return &Ref{K: g.Pick("ctx", "iter"), F: "nosuch"}
		case 0: // another flow's task
			o := g.sc.Flows[g.N(len(g.sc.Flows))]
			if o == f || o.Body == nil || len(o.Body.Tasks) == 0 {
				return &Ref{K: "act", T: "nosuch", F: "val"}
			}
			return &Ref{K: "act", T: o.Body.Tasks[g.N(len(o.Body.Tasks))].ID, F: "val"}
		case 1: // any task of this flow
			if g.conc {
				a := g.sorted(path)
				if len(a) == 0 {
					return nil
				}
				id := a[g.N(len(a))]
				return &Ref{K: "act", T: id, F: g.outField(fi, id)}
			}
			id := gr.Tasks[g.N(len(gr.Tasks))].ID
			if eh && g.P(70) && len(f.Body.Tasks) > 0 {
				id = f.Body.Tasks[g.N(len(f.Body.Tasks))].ID
			}
			if id == t.ID {
				return nil
			}
			return &Ref{K: "act", T: id, F: g.outField(fi, id)}
		case 2:
			if g.conc {
				return &Ref{K: "var", F: "nosuch"}
			}
			return &Ref{K: "var", F: g.Pick("g0", "g1", "o0", "o1", "nosuch")}
		case 3:
			if !g.conc && t.Retry == nil {
				ts := f.Body.Tasks
				if len(ts) > 0 {
					x := ts[g.N(len(ts))]
					if x.Retry == nil && x != t && x.Kind != "ret" {
						return &Ref{K: "errt", T: x.ID, F: "message"}
					}
				}
			}
			return nil
		}
	}
	switch g.N(6) {
	case 0:
		return &Ref{K: "var", F: "in0"}
	case 1:
		return &Ref{K: "ctx", F: g.Pick("FlowName", "FlowId", "ParentFlowName", "ParentFlowId", "SpanId", g.Pick("TraceId", "AppName", "AppVersion"))}
	case 2:
		// a variable certainly set, by writers all ahead of this task
		for _, v := range []string{"g0", "g1", "o0", "o1"} {
			w, all, sure := 0, true, false
			for _, x := range gr.Tasks {
				if x.Set == v {
					w++
					all = all && path[x.ID]
					sure = sure || cert[x.ID]
				}
			}
			if sure && (all || !g.conc) && !eh {
				return &Ref{K: "var", F: v}
			}
		}
	}
	c := g.sorted(cert)
	if len(c) == 0 {
		return nil
	}
	id := c[g.N(len(c))]
	ct := gr.task(id)
	switch {
	case ct.Kind == "sub":
		return nil
	case ct.Kind == "det" || ct.BadSet != "" || ct.Loop != nil && ct.Loop.Kind == "baditer":
		return nil
	case ct.Loop != nil && ct.Loop.Acc:
		return &Ref{K: "acc", T: id}
	}
	return &Ref{K: "act", T: id, F: g.outField(fi, id)}
}
