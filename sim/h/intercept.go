package h

import (
	"fmt"
	"sort"
	"strings"

	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/support"
)

// Test interceptors and coverage (C18).

func (s *IntSpec) bare() bool { return s.Kind == "skip" || s.Kind == "inputs" }

// literal is the literal input the activity is to receive.
func (w *World) literal(a *att) string {
	// overridden only for the tasks of the instance itself and its subflows
	if s := intSpec(w.Sc, a.run, a.tok, -1, a.task, "inputs"); s != nil {
		return s.Outs["lit"]
	}
	return "lit:" + a.task
}

// intSpec is the interceptor of the given kinds for a task of the run's instance, or of its subflows.
func intSpec(sc *Scenario, run int, tok string, flow int, task string, kinds ...string) *IntSpec {
	if len(sc.Interc) == 0 {
		return nil
	}
	for _, d := range sc.detached(tok) {
		_ = d
		return nil
	}
	for _, s := range sc.Interc {
		if s.Run == run && s.Task == task && (s.bare() || s.Flow == flow) && hasStr(kinds, s.Kind) {
			return s
		}
	}
	return nil
}

// detached are the executions of detaching tasks on the path of the token.
func (sc *Scenario) detached(tok string) []string {
	var o []string
	p := strings.Split(tok, "/")
	if len(p) < 2 {
		return nil
	}
	var run int
	if _, err := fmt.Sscanf(p[0], "r%d", &run); err != nil || run >= len(sc.Runs) {
		return nil
	}
	f := sc.Flows[sc.Runs[run].Flow]
	for _, e := range p[1:] {
		id := e[:strings.Index(e, "#")]
		t := f.Body.task(id)
		if t == nil && f.EH != nil {
			t = f.EH.task(id)
		}
		if t == nil || t.Kind != "sub" && t.Kind != "det" {
			return o
		}
		if t.Kind == "det" {
			o = append(o, e)
		}
		f = sc.Flows[t.Flow]
	}
	return o
}

// icp is the interceptor of the given kinds for the task.
func (m *Model) icp(t *mTask, kinds ...string) *IntSpec {
	if len(m.sc.Interc) == 0 || t.inst.root.det {
		return nil
	}
	return intSpec(m.sc, t.inst.run, "", t.inst.fi, t.t.ID, kinds...)
}

// interceptOuts overrides outputs.
func (m *Model) interceptOuts(t *mTask, o map[string]mVal) {
	if s := m.icp(t, "mock", "over"); s != nil {
		for k, v := range s.vals() {
			o[k] = mVal{v: Canon(v)}
		}
	}
}

// vals are the configured outputs.
func (s *IntSpec) vals() map[string]interface{} {
	o := map[string]interface{}{}
	for k, v := range s.Outs {
		o[k] = v
	}
	if s.Sel > 0 {
		o["sel"] = s.Sel - 1
	}
	return o
}

// given are the values as stated by the interceptor.
func (s *IntSpec) given() map[string]interface{} {
	o := s.vals()
	if s.Sel > 0 && s.Text {
		o["sel"] = fmt.Sprint(s.Sel - 1)
	}
	return o
}

// interceptStart handles a task that isn't executed; true if so.
func (m *Model) interceptStart(t *mTask) bool {
	skip := m.icp(t, "skip")
	x := m.icp(t, "mock", "mocknil", "mockerr")
	if skip == nil && x == nil {
		return false
	}
	in := t.inst
	in.root.busy = ""
	t.startAt = m.i
	t.noRun = true
	if skip != nil {
		m.Feat["activity skipped"]++
	} else {
		m.Feat["activity mocked"]++
		m.status(t, support.Mocked)
	}
	if x == nil || x.Kind != "mockerr" {
		x = m.icp(t, "failafter")
	}
	if x != nil {
		m.mockFail(t, x)
		return true
	}
	m.attemptOK(t)
	return true
}

// mockFail fails the task as configured.
func (m *Model) mockFail(t *mTask, s *IntSpec) {
	m.Feat["mocked failure"]++
	ei := &errInfo{exec: t.exec, msg: s.Outs["message"], types: []string{"activity"}, acts: []string{t.t.ID}, mocked: true, code: `""`, data: "{}"}
	if d, ok := s.Outs["data"]; ok {
		ei.data = Canon(d)
	}
	m.attemptFail(t, one(ei))
}

// status notes the execution status to be reported for the task.
func (m *Model) status(t *mTask, st int) {
	if m.icp(t, "mock", "mocknil", "mockerr", "over", "failafter", "assert", "assertx") == nil {
		return
	}
	k := fmt.Sprintf("%d/%d/%s", t.inst.run, t.inst.fi, t.t.ID)
	if m.stats == nil {
		m.stats = map[string][]int{}
	}
	m.stats[k] = append(m.stats[k], st)
}

// assert notes the assertion results to be reported for the task.
func (m *Model) assert(t *mTask, failed bool) {
	s := m.icp(t, "assert", "assertx")
	if s == nil {
		return
	}
	r := support.AssertionNotExecuted
	if failed == (s.Kind == "assertx") {
		r = support.Fail
		switch {
		case s.Expr == "true", s.Expr == "sel" && m.selIs(t, s.Sel):
			r = support.Pass
		}
		m.Feat["assertion evaluated"]++
	}
	k := fmt.Sprintf("%d/%d/%s", t.inst.run, t.inst.fi, t.t.ID)
	if m.asserts == nil {
		m.asserts = map[string][]int{}
	}
	m.asserts[k] = append(m.asserts[k], r)
}

func (m *Model) selIs(t *mTask, sel int) bool {
	vs := t.inst.vals["_A."+t.t.ID+".sel"]
	return len(vs) > 0 && vs[len(vs)-1].v == Canon(sel)
}

// interceptor builds the interceptor of a run, nil if it has none.
func (sc *Scenario) interceptor(run int) *support.Interceptor {
	ic := &support.Interceptor{}
	for _, s := range sc.Interc {
		if s.Run != run {
			continue
		}
		name := sc.Flows[s.Flow].Name
		x := &support.TaskInterceptor{ID: name + "-" + s.Task}
		switch s.Kind {
		case "skip":
			x.ID, x.Skip = s.Task, true
		case "inputs":
			x.ID, x.Inputs = s.Task, map[string]interface{}{}
			for k, v := range s.Outs {
				x.Inputs[k] = v
			}
		case "mock", "over":
			x.SkipExecution = s.Kind == "mock"
			x.Type = support.MockActivity
			x.Outputs = s.given()
		case "mocknil":
			x.SkipExecution = true
		case "mockerr", "failafter":
			x.SkipExecution = s.Kind == "mockerr"
			x.Type = support.MockException
			x.Outputs = s.given()
		case "assert", "assertx":
			x.Type = support.AssertionActivity
			if s.Kind == "assertx" {
				x.Type = support.AssertionException
			}
			for i := 0; i < s.Empty; i++ {
				x.Assertions = append(x.Assertions, support.Assertion{ID: fmt.Sprint("e", i), Name: fmt.Sprint("e", i), Type: support.Primitive, Expression: ""})
			}
			x.Assertions = append(x.Assertions, support.Assertion{ID: "a0", Name: "a0", Type: support.Primitive, Expression: s.expression()}, support.Assertion{ID: "a1", Name: "a1", Type: support.Primitive, Expression: "1 == 1"})
		}
		if hash(s.Task)%4 == 0 { // an empty entry
			ic.TaskInterceptors = append(ic.TaskInterceptors, nil)
		}
		ic.TaskInterceptors = append(ic.TaskInterceptors, x)
	}
	if len(ic.TaskInterceptors) == 0 && !sc.Cover {
		return nil
	}
	if sc.Cover {
		ic.Coverage = &support.Coverage{}
		ic.CollectIO = sc.CoverIO
	}
	return ic
}

func (s *IntSpec) expression() string {
	switch s.Expr {
	case "true":
		return "1 == 1"
	case "false":
		return "1 == 2"
	case "unparsable":
		return "1 == == ("
	case "bad":
		return "h.fail(\"assertion\") == 1"
	case "sel":
		return fmt.Sprintf("$activity[%s].sel == %d", s.Task, s.Sel)
	case "out":
		return fmt.Sprintf("$flow.%s == %q", s.Outs["name"], s.Outs["value"])
	}
	panic("assertion " + s.Expr)
}

// IntExec executes the scenario with interceptors.
func IntExec(x *X) {
	if !x.Deploy() {
		return
	}
	w := NewWorld(x.Sc)
	ics := make([]*support.Interceptor, len(x.Sc.Runs))
	for i := range ics {
		ics[i] = x.Sc.interceptor(i)
	}
	if !x.RunAll(w, func(i int) func(*instance.RunOptions) {
		if ics[i] == nil {
			return nil
		}
		return func(ro *instance.RunOptions) { ro.ExecOptions = &instance.ExecOptions{Interceptor: ics[i]} }
	}, nil) {
		return
	}
	m := NewModel(x.Sc)
	x.Judge(w, m)
	if len(m.V) > 0 || m.Stopped() {
		return
	}
	for i, ic := range ics {
		if ic == nil {
			continue
		}
		x.judgeInterceptor(m, i, ic)
		if ic.Coverage != nil {
			x.judgeCoverage(m, m.mains[i], ic)
		}
	}
	if len(x.Res.Viols) > 0 && len(x.Res.Trace) == 0 {
		x.Res.Trace = append(x.Res.Trace, Pretty(w.Log)...)
	}
}

// clean: everything in the instance was executed to its end.
func (in *mInst) clean() bool {
	return !in.eh && !in.aband && in.ended && in.out.fail == nil && len(in.out.ret) == 0 && !in.frozenAny()
}

// judgeInterceptor compares the statuses and the assertion results with the execution.
func (x *X) judgeInterceptor(m *Model, run int, ic *support.Interceptor) {
	clean := true
	for _, in := range m.all {
		if in.root == m.mains[run].root && !in.clean() {
			clean = false
		}
	}
	for _, s := range x.Sc.Interc {
		if s.Run != run || s.bare() {
			continue
		}
		var ti *support.TaskInterceptor
		for _, t := range ic.TaskInterceptors {
			if t != nil && t.ID == x.Sc.Flows[s.Flow].Name+"-"+s.Task {
				ti = t
			}
		}
		if ti == nil {
			x.V("C18", "the interceptor of %s disappeared", s.Task)
			continue
		}
		if s.Task == "_flowOutput" {
			x.judgeFlowAssert(m, m.mains[run], s, ti)
			continue
		}
		k := fmt.Sprintf("%d/%d/%s", run, s.Flow, s.Task)
		want := func(l []int) []int {
			if len(l) == 0 {
				return []int{support.NotExecuted}
			}
			if m.conc && !clean { // it may have been abandoned before
				return append([]int{support.NotExecuted}, l...)
			}
			if m.conc {
				return l
			}
			return l[len(l)-1:]
		}
		if w := want(m.stats[k]); !hasInt(w, ti.Result) && !hasInt(w, -1) { // -1: failed without having been executed
			x.V("C18", "run %d: status %d reported for task %s of flow %d, expected %v", run, ti.Result, s.Task, s.Flow, w)
		}
		if s.Kind == "assert" || s.Kind == "assertx" {
			a := ti.Assertions[s.Empty]
			if w := want(m.asserts[k]); !hasInt(w, a.Result) {
				x.V("C18", "run %d: result %d reported for the assertion %s of task %s of flow %d, expected %v", run, a.Result, a.Expression, s.Task, s.Flow, w)
			}
			x.judgeOthers(s, ti, fmt.Sprintf("task %s of flow %d", s.Task, s.Flow))
		}
	}
}

func hasInt(l []int, v int) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

// judgeFlowAssert: the assertion on the result of the flow.
func (x *X) judgeFlowAssert(m *Model, in *mInst, s *IntSpec, ti *support.TaskInterceptor) {
	if in.res != 1 || s.Flow != in.fi {
		if in.res == 1 && ti.Result != support.NotExecuted {
			x.V("C18", "run %d: status %d reported for the result of flow %d, the run is of flow %d", in.run, ti.Result, s.Flow, in.fi)
		}
		return
	}
	if ti.Result != support.Pass {
		x.V("C18", "run %d: status %d reported for the result of the flow", in.run, ti.Result)
	}
	want := support.AssertionNotExecuted
	if (s.Kind == "assertx") == (in.out.fail != nil) {
		want = support.Fail
		if s.Expr == "true" {
			want = support.Pass
		}
		if s.Expr == "out" {
			e := &m.log[in.resAt]
			if v, ok := e.Data[s.Outs["name"]]; ok && v == Canon(s.Outs["value"]) {
				want = support.Pass
			}
		}
		m.Feat["flow assertion evaluated"]++
	}
	if got := ti.Assertions[s.Empty].Result; got != want {
		x.V("C18", "run %d: result %d reported for the assertion %s on the flow, expected %d", in.run, got, ti.Assertions[s.Empty].Expression, want)
	}
	x.judgeOthers(s, ti, "the flow")
}

// judgeOthers: the results of all assertions of a task agree on whether they were evaluated.
func (x *X) judgeOthers(s *IntSpec, ti *support.TaskInterceptor, what string) {
	a0, a1 := ti.Assertions[s.Empty], ti.Assertions[s.Empty+1]
	want := a0.Result
	if want == support.Fail {
		want = support.Pass
	}
	if a1.Result != want {
		x.V("C18", "run %d: result %d reported for the assertion %s of %s, but %d for the one before", s.Run, a1.Result, a1.Expression, what, a0.Result)
	}
	x.judgeMessage(s, &a0, s.Expr, what)
	x.judgeMessage(s, &a1, "true", what)
	for _, a := range ti.Assertions[:s.Empty] {
		if w := "Empty expression"; a0.Result != support.AssertionNotExecuted && a0.Result != support.NotExecuted && a.Message != w {
			x.V("C18", "run %d: assertion of %s without an expression: message %q instead of %q", s.Run, what, a.Message, w)
		}
		x.Feat("empty assertion", 1)
		if a.Result == support.Pass || a.Result == support.Fail {
			x.V("C18", "run %d: result %d reported for an assertion of %s without an expression", s.Run, a.Result, what)
		}
	}
}

// judgeMessage: an assertion's message and evaluation are those of its result.
func (x *X) judgeMessage(s *IntSpec, a *support.Assertion, expr, what string) {
	msg, eval := "", ""
	switch {
	case a.Result != support.Pass && a.Result != support.Fail: // of an earlier execution
		return
	case expr == "bad", (expr == "sel" || expr == "out") && a.Result == support.Fail && strings.Contains(a.Message, "evaluate"): // one of them can't be resolved
		msg = "Failed to evaluate expression"
	case expr == "unparsable":
		msg = "Failed to validate expression"
	default:
		msg = "Comparison success"
		if a.Result == support.Fail {
			msg = "Comparison failure"
		}
		switch expr {
		case "true":
			eval = "1 == 1"
		case "false":
			eval = "1 == 2"
		case "sel":
			eval = fmt.Sprintf(" == %d", s.Sel)
		case "out":
			eval = " == " + s.Outs["value"]
		}
	}
	if a.Message != msg {
		x.V("C18", "run %d: message %q for the assertion %v of %s, result %d", s.Run, a.Message, a.Expression, what, a.Result)
	}
	got := a.EvalResult
	switch {
	case eval == "" && got.ExpressionEvaluation != "":
		x.V("C18", "run %d: evaluation %v reported for the assertion %v of %s, result %d", s.Run, got, a.Expression, what, a.Result)
	case eval == "":
	case expr == "sel" || expr == "out":
		l, r, _ := strings.Cut(got.ExpressionEvaluation, " == ")
		if got.ExpressionEvaluation == "" { // one of them is null
			break
		}
		x.Feat("assertion: data compared", 1)
		if " == "+r != eval || (l == r) != (a.Result == support.Pass) {
			x.V("C18", "run %d: evaluation %v reported for the assertion %v of %s, result %d", s.Run, got, a.Expression, what, a.Result)
		}
	case got.ExpressionEvaluation != eval || got.ExpressionType == "" || got.ExpressionName == "":
		x.V("C18", "run %d: evaluation %v reported for the assertion %v of %s, result %d", s.Run, got, a.Expression, what, a.Result)
	}
}

var linkTypes = map[string]string{"expression": "Expression", "label": "Label", "error": "Error", "exprOtherwise": "Otherwise"}

// judgeCoverage compares the reported coverage with the execution.
func (x *X) judgeCoverage(m *Model, root *mInst, ic *support.Interceptor) {
	x.Feat("coverage judged", 1)
	min, max := map[string]int{}, map[string]int{}
	add := func(k string, sure bool) {
		max[k]++
		if sure {
			min[k]++
		}
	}
	ins := []*mInst{}
	clean := true
	for _, in := range m.all {
		if in.root == root {
			ins = append(ins, in)
			clean = clean && in.clean()
		}
	}
	sure := !m.conc || clean
	for _, in := range ins {
		name := in.f.Name
		for _, t := range in.order {
			where := "body"
			if t.g == in.f.EH {
				where = "error handler"
			}
			if t.st == tDone || t.st == tFail {
				add(fmt.Sprintf("activity %s/%s (%s)", name, t.t.ID, where), sure && t.covered && (t.n > 0 || clean))
			}
		}
		for _, g := range []*Graph{in.f.Body, in.f.EH} {
			if g == nil {
				continue
			}
			where := "body"
			if g == in.f.EH {
				where = "error handler"
			}
			for i, l := range g.Links {
				f := in.tasks[l.From]
				expr := ""
				if l.Type == "expression" {
					expr = l.value(f.t)
				}
				k := fmt.Sprintf("link %s_%s_%d %s %s (%s %s)", l.From, l.To, i, name, where, linkTypes[l.Type], expr)
				switch {
				case in.links[l] == 1:
					add(k, sure && (f.n > 0 || clean))
				case f.st == tDone && (f.t.Kind == "ret" || f.linkFail || m.conc):
					add(k, false)
				}
			}
		}
	}
	for k, n := range m.subs {
		if strings.HasPrefix(k, root.tok+" ") {
			max[k[len(root.tok)+1:]] += n
			if sure {
				min[k[len(root.tok)+1:]] += n
			}
		}
	}
	got := map[string]int{}
	where := func(b bool) string {
		if b {
			return "body"
		}
		return "error handler"
	}
	for _, a := range ic.Coverage.ActivityCoverage {
		got[fmt.Sprintf("activity %s/%s (%s)", a.FlowName, a.ActivityName, where(a.IsMainFlow))]++
	}
	for _, l := range ic.Coverage.TransitionCoverage {
		got[fmt.Sprintf("link %s %s %s (%s %s)", l.TransitionName, l.FlowName, where(l.IsMainFlow), l.TransitionType, l.TransitionExpression)]++
		if !strings.HasPrefix(l.TransitionName, l.TransitionFrom+"_"+l.TransitionTo+"_") {
			x.V("C18", "coverage of link %s: from %s to %s", l.TransitionName, l.TransitionFrom, l.TransitionTo)
		}
	}
	for _, s := range ic.Coverage.SubFlowCoverage {
		got[fmt.Sprintf("subflow %s of %s/%s", s.SubFlowName, s.HostFlow, taskOf(s.SubFlowActivity))]++
	}
	var ks []string
	for k := range max {
		ks = append(ks, k)
	}
	for k := range got {
		if max[k] == 0 {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if got[k] < min[k] {
			x.V("C18", "run %d: %s covered %d times, but executed %d times", root.run, k, got[k], min[k])
		}
		if got[k] > max[k] {
			x.V("C18", "run %d: %s covered %d times, but executed %d times", root.run, k, got[k], max[k])
		}
	}
	if !ic.CollectIO || !sure {
		return
	}
	// the collected values are those of the last execution
	for _, a := range ic.Coverage.ActivityCoverage {
		var es []*mTask
		for _, in := range ins {
			if in.f.Name == a.FlowName {
				if t := in.tasks[a.ActivityName]; t != nil && (t.st == tDone || t.st == tFail) && t.covered {
					es = append(es, t)
				}
			}
		}
		if len(es) == 0 || len(es) > 1 && a.Outputs["val"] == nil {
			continue
		}
		t := es[0]
		var from, to []string
		for i, l := range t.g.Links {
			n := fmt.Sprintf("%s_%s_%d", l.From, l.To, i)
			if l.To == t.t.ID {
				from = append(from, n)
			}
			if l.From == t.t.ID {
				to = append(to, n)
			}
		}
		if strings.Join(a.LinkFrom, " ") != strings.Join(from, " ") || strings.Join(a.LinkTo, " ") != strings.Join(to, " ") {
			x.V("C18", "run %d: coverage reports %s/%s between links %v and %v, it is between %v and %v", root.run, a.FlowName, a.ActivityName, a.LinkFrom, a.LinkTo, from, to)
		}
		if len(es) > 1 { // which of them?
			t = nil
			for _, e := range es {
				if Canon(a.Outputs["val"]) == Canon("V:"+e.exec) {
					t = e
				}
			}
			if t == nil {
				continue
			}
		}
		if t.t.Kind != "work" || t.t.Loop != nil || t.noRun || t.n == 0 {
			continue
		}
		if t.st == tDone && t.t.Kind == "work" {
			want := "V:" + t.exec
			if s := m.icp(t, "over"); s != nil && s.Outs["val"] != "" {
				want = s.Outs["val"]
			}
			if got := Canon(a.Outputs["val"]); got != Canon(want) {
				x.V("C18", "run %d: coverage reports output val %s of %s, it was %s", root.run, got, t.exec, want)
			}
			if len(a.Error) > 0 {
				x.V("C18", "run %d: coverage reports an error of %s: %v", root.run, t.exec, a.Error)
			}
		}
		if t.st == tFail && a.Error == nil {
			x.V("C18", "run %d: coverage reports no error of %s", root.run, t.exec)
		}
		if t.st == tFail && a.Error != nil && t.err != nil {
			ok := false
			for _, c := range t.err.all() {
				ok = ok || strings.Contains(fmt.Sprint(a.Error["message"]), c.msg) && (c.types[0] != "activity" ||
					a.Error["type"] == "activity" && Canon(a.Error["code"]) == c.code && Canon(a.Error["data"]) == c.data)
			}
			if !ok {
				x.V("C18", "run %d: coverage reports the error %v of %s, it failed with %s", root.run, Canon(a.Error), t.exec, t.err.all()[0].desc())
			}
			x.Feat("errors in coverage compared", 1)
		}
		if l, ok := a.Inputs["in"].([]interface{}); t.st == tDone && (!ok || len(l) == 0 || l[0] != t.exec) {
			x.V("C18", "run %d: coverage reports the inputs %v of %s", root.run, Canon(a.Inputs["in"]), t.exec)
		}
	}
}
