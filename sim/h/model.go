package h

import (
	"encoding/json"
	"fmt"
	"github.com/project-flogo/flow/support"
	"strings"
)

// The reference model: it reads the history of a run event by event and
// keeps, per flow instance, the state the instance should be in. Transitions
// are made as early as they can happen (at the end of an execution); an
// observation that no behaviour allowed by the properties explains is a
// violation.

// Viol is a violated rule.
type Viol struct {
	Rule string `json:"rule"` // property the rule belongs to
	Msg  string `json:"msg"`
	At   int    `json:"at"` // index in the history (-1: at the end)
}

const (
	tWait = iota
	tReady
	tTry  // inputs being evaluated
	tArgs // inputs evaluated
	tRun
	tSub
	tPost // its flow has ended, the rest of the activity hasn't run yet
	tDone
	tSkip
	tFail
	tAband
)

var tNames = []string{"waiting for links", "ready", "being started", "being started", "running", "waiting for its flow", "to be continued", "finished", "skipped", "failed", "abandoned"}

type errInfo struct {
	exec, msg string
	types     []string
	acts      []string
	mocked    bool
	code      string
	data      string
	retriable bool
}

// errSet are the failures of which one is the one to be reported.
type errSet struct {
	c    []*errInfo
	more []*errSet
	late []*errSet // seen instead by those who read it too late
}

func one(e *errInfo) *errSet { return &errSet{c: []*errInfo{e}} }

func (s *errSet) all() []*errInfo {
	o := append([]*errInfo{}, s.c...)
	for _, x := range s.more {
		o = append(o, x.all()...)
	}
	return o
}

type mVal struct {
	v      string
	st, en int
	e      *errSet // error values
}

type mTask struct {
	t                     *Task
	inst                  *mInst
	g                     *Graph
	st                    int
	n                     int // attempts made
	iter                  int // iterations completed
	retries               int // retries used
	attEnd                int64
	again                 bool // an attempt is to be retried
	noRun                 bool // skipped or mocked
	rejected              bool // not executed, the inputs do not conform
	covered               bool // its end was a transition of the flow
	linkFail              bool // the transition failed
	notBefore             int64
	exec                  string
	child                 *mInst
	exp                   []mArg
	tryAt, startAt, endAt int
	acc                   []string
	group                 *mGroup
	code                  int
	err                   *errSet
	oks                   int
	keys                  map[string]string
}

type mGroup struct{ m []*mTask }

type mArg struct {
	any   bool
	cands []string
	sub   string // must contain
	in    []string
	lazy  string // FlowId / ParentFlowId
	errs  *errSet
	f     string
}

type mOut struct {
	fail *errSet
	ret  []*mRet // returned outcomes (candidates)
}

type mRet struct {
	exec string
	data map[string]string
	err  *errInfo
	late bool // the flow had ended before it was answered: may be dropped
}

type mInst struct {
	tok    string
	fi     int
	f      *Flow
	run    int
	parent *mInst
	host   *mTask
	root   *mInst
	det    bool
	http   bool // main: results are not delivered to the one who started it
	tasks  map[string]*mTask
	order  []*mTask
	links  map[*Link]int
	eh     bool    // handler running
	errs   *errSet // the failure being handled
	frozen map[*Graph]bool
	ended  bool
	aband  bool // ended because its caller did
	over   bool // root: ended by the step limit
	sched  int  // root: steps scheduled
	tries  int  // root: steps executed, as observed
	early  int  // root: steps which can't be observed, maybe executed
	endAt  int
	endT   int64
	out    mOut
	vals   map[string][]mVal
	kids   []*mInst

	hostID string
	ptr    int
	name   string

	// root only
	busy    string
	busyAt  int
	res     int
	done    int
	resAt   int
	doneAt  int
	replies []*mRet
	evid    string
	// lazily checked
	claims []claim
	cases  map[string]bool
}

type claim struct {
	f, v string
	at   int
}

// Model is the model of one run.
type Model struct {
	sc    *Scenario
	conc  bool
	log   []Ev
	V     []Viol
	I     map[string]*mInst
	mains []*mInst
	all   []*mInst
	i     int
	last  map[string]bool
	Feat  map[string]int // what happened (coverage of behaviours)
	// per execution facts for other checks
	Execs   map[string]*mExec
	badUp   bool
	stats   map[string][]int // execution statuses to be reported
	asserts map[string][]int // assertion results to be reported
	subs    map[string]int   // subflows started
	// options
	NoEnd    bool // the history is a prefix; no obligations at its end
	Optional func(tok string) bool
}

type mExec struct {
	Exec, Tok, Task string
	Fail            bool
	Err             *errSet
	TryAt, EndAt    int
}

func NewModel(sc *Scenario) *Model {
	m := &Model{sc: sc, conc: sc.Conc, I: map[string]*mInst{}, Feat: map[string]int{}, Execs: map[string]*mExec{}}
	for i, r := range sc.Runs {
		in := m.newInst(fmt.Sprintf("r%d", i), r.Flow, i, nil, nil)
		in.evid = r.Event
		in.http = r.HTTP || r.Detach
		in.vals["in0"] = []mVal{{v: "null"}}
		if d := in.f.InDef; d != "" {
			in.vals["in0"] = []mVal{{v: Canon(d)}}
			if r.In0 == "" {
				m.Feat["input with default value"]++
			}
		}
		if r.In0 != "" {
			in.vals["in0"] = []mVal{{v: Canon(r.In0)}}
		}
		m.mains = append(m.mains, in)
	}
	return m
}

func (m *Model) v(rule, f string, a ...interface{}) {
	if len(m.V) < 20 {
		at := m.i
		if at >= len(m.log) {
			at = -1
		}
		m.V = append(m.V, Viol{rule, fmt.Sprintf(f, a...), at})
	}
}

func (m *Model) newInst(tok string, fi, run int, parent *mInst, host *mTask) *mInst {
	in := &mInst{tok: tok, fi: fi, f: m.sc.Flows[fi], run: run, parent: parent, host: host,
		tasks: map[string]*mTask{}, links: map[*Link]int{}, frozen: map[*Graph]bool{}, vals: map[string][]mVal{}}
	in.root = in
	if parent != nil {
		in.root = parent.root
	}
	for _, g := range []*Graph{in.f.Body, in.f.EH} {
		if g == nil {
			continue
		}
		for _, t := range g.Tasks {
			mt := &mTask{t: t, inst: in, g: g, startAt: -1, endAt: -1, tryAt: -1}
			in.tasks[t.ID] = mt
			in.order = append(in.order, mt)
		}
	}
	m.I[tok] = in
	m.all = append(m.all, in)
	in.vals["tok"] = []mVal{{v: Canon(tok)}}
	return in
}

// begin makes the entry tasks of a graph ready.
func (m *Model) begin(in *mInst, g *Graph) {
	var ent []*mTask
	for _, t := range g.Tasks {
		has := false
		for _, l := range g.Links {
			if l.To == t.ID {
				has = true
			}
		}
		if !has {
			ent = append(ent, in.tasks[t.ID])
		}
	}
	for _, t := range ent {
		m.ready(t)
	}
	m.settle(in)
}

func (m *Model) ready(t *mTask) {
	if t.inst.frozen[t.g] {
		t.st = tAband
		return
	}
	t.st = tReady
	t.notBefore = 0
	t.inst.root.sched++
}

// zero reports a loop that has no element: it completes without executing.
func zero(t *Task) bool {
	return t.Loop != nil && (t.Loop.Kind == "count" || t.Loop.Kind == "list" || t.Loop.Kind == "map") && t.Loop.N <= 0
}

// settle completes silent tasks and detects the end of the instance.
func (m *Model) settle(in *mInst) {
	for {
		again := false
		for _, t := range in.order {
			if t.st == tReady && zero(t.t) && !in.frozen[t.g] {
				in.root.early++
				t.endAt = m.i
				m.taskDone(t)
				again = true
				break
			}
		}
		if !again {
			break
		}
	}
	if in.ended {
		return
	}
	g := in.f.Body
	if in.eh {
		g = in.f.EH
	}
	for _, t := range in.order {
		if t.g != g {
			continue
		}
		switch t.st {
		case tReady, tTry, tArgs, tRun, tSub, tPost:
			return
		}
	}
	m.end(in)
}

// end: the instance has finished (outcome in in.out).
func (m *Model) end(in *mInst) {
	if in.ended {
		return
	}
	in.ended = true
	in.endAt = m.i
	in.endT = m.now()
	if !m.conc {
		m.freezeAll(in)
	}
	if in.det || in.host == nil {
		return
	}
	h := in.host
	if h.st != tSub || h.child != in {
		return
	}
	in.root.early++ // its host continues in a step of its own
	in.root.sched++
	if h.t.Post {
		h.st = tPost
		return
	}
	m.hostDone(h, in)
}

// evPost: an activity is continued after its flow has ended.
func (m *Model) evPost(e *Ev) {
	t := m.taskOf(e)
	if t == nil {
		return
	}
	if t.st != tPost || t.exec != e.Exec {
		rule := "C04"
		if t.st == tAband {
			rule = "C03"
		}
		m.v(rule, "%s is continued after its flow although it is %s", e.Exec, tNames[t.st])
		return
	}
	if e.Kind != "" {
		m.Feat["failed after its flow: "+e.Kind]++
		m.status(t, support.Fail)
		m.attemptFail(t, one(newErrInfo(e, t)))
		return
	}
	m.Feat["continued after its flow"]++
	m.hostDone(t, t.child)
}

// hostDone: the activity that started the flow is done, too.
func (m *Model) hostDone(h *mTask, in *mInst) {
	if in.out.fail != nil {
		m.Feat["subflow failed"]++
		m.status(h, support.Fail)
		for _, e := range in.out.fail.all() { // a plain error carries no activity: each level names its own
			e.up(h)
		}
		m.attemptFail(h, in.out.fail)
		return
	}
	if len(in.out.ret) > 0 {
		r := in.out.ret[0]
		if r.err != nil {
			m.Feat["subflow returned error"]++
			m.status(h, support.Fail)
			r.err.up(h)
			m.attemptFail(h, one(r.err))
			return
		}
	}
	m.attemptOK(h)
}

// freeze: nothing more becomes ready in this graph.
func (m *Model) freeze(in *mInst, g *Graph) {
	if g == nil || in.frozen[g] {
		return
	}
	in.frozen[g] = true
	for _, t := range in.order {
		if t.g != g {
			continue
		}
		if t.child != nil && t.st == tSub {
			m.freezeAll(t.child)
			if !t.child.ended {
				t.child.ended = true
				t.child.aband = true
				t.child.endAt = m.i
			}
		}
		if t.st == tReady {
			in.root.early++
		}
		if !m.conc {
			switch t.st {
			case tReady, tWait, tTry, tArgs, tRun, tSub, tPost:
				t.st = tAband
			}
		} else if t.st == tWait {
			t.st = tAband
		}
	}
}

func (m *Model) freezeAll(in *mInst) {
	m.freeze(in, in.f.Body)
	m.freeze(in, in.f.EH)
}

func (m *Model) now() int64 {
	if m.i < len(m.log) {
		return m.log[m.i].T
	}
	return 0
}

// attemptOK: the current attempt of the task succeeded.
func (m *Model) attemptOK(t *mTask) {
	in := t.inst
	if m.schemaFails(t, true) {
		return
	}
	if s := m.icp(t, "failafter"); s != nil && !t.noRun {
		m.mockFail(t, s)
		return
	}
	outs := map[string]mVal{}
	if !t.noRun {
		outs = m.outputs(t)
	}
	m.interceptOuts(t, outs)
	loop := t.t.Loop
	t.attEnd = m.now()
	t.endAt = m.i
	t.oks++
	if x := m.Execs[t.exec]; x != nil {
		x.EndAt = m.i
	}
	if loop != nil && loop.Acc {
		t.acc = append(t.acc, canonObj(outs))
		in.vals["_A."+t.t.ID] = []mVal{{v: "[" + strings.Join(t.acc, ",") + "]"}}
	}
	if loop == nil || !loop.Acc || isWhile(loop) {
		for k, v := range outs {
			in.vals["_A."+t.t.ID+"."+k] = []mVal{v}
		}
	}
	m.assert(t, false)
	if loop == nil {
		m.taskDone(t)
		return
	}
	t.iter++
	more := false
	switch loop.Kind {
	case "count", "list", "map":
		more = t.iter < t.t.loopN(in.tok)
	case "while", "whilego":
		// the condition is evaluated with the index (or n) of the
		// execution that just finished
		if loop.Kind == "while" {
			more = t.iter-1 < t.t.loopN(in.tok)
		} else {
			more = t.n-1 < t.t.loopN(in.tok)
		}
	case "whileout":
		if len(in.vals["_A."+t.t.ID+"."+loop.F]) == 0 {
			m.Feat["loop condition failed"]++
			m.taskFail(t, one(&errInfo{exec: t.exec, msg: fmt.Sprintf("failed to resolve activity attr: '%s', not found in activity '%s'", loop.F, t.t.ID), types: []string{"unknown"}, acts: []string{t.t.ID}, code: `""`, data: "null"}))
			return
		}
	case "badcond", "paniccond":
		m.Feat["loop condition failed"]++
		ty := []string{"unknown"}
		if loop.Kind == "paniccond" {
			ty = []string{"unhandled", "unknown"}
		}
		m.taskFail(t, one(&errInfo{exec: t.exec, msg: "badcond_" + t.t.ID, types: ty, acts: []string{t.t.ID}, code: `""`, data: "null"}))
		return
	}
	if !more {
		if !isWhile(loop) { // finds the end of the iteration in a step of its own
			in.root.early++
			in.root.sched++
		}
		m.taskDone(t)
		return
	}
	if in.frozen[t.g] {
		t.st = tAband
		return
	}
	m.Feat["loop repeated"]++
	t.st = tReady
	in.root.sched++
	t.notBefore = t.attEnd + int64(loop.Delay)*1000000
}

func isWhile(l *Loop) bool {
	switch l.Kind {
	case "while", "whilego", "whileout", "badcond", "paniccond":
		return true
	}
	return false
}

func canonObj(o map[string]mVal) string {
	x := map[string]string{}
	for k, v := range o {
		x[k] = v.v
	}
	return canonRaw(x)
}

// outputs of the attempt that just succeeded.
func (m *Model) outputs(t *mTask) map[string]mVal {
	o := map[string]mVal{}
	if t.t.Kind == "det" {
		return o
	}
	if t.t.Kind == "sub" {
		c := t.child
		if c == nil {
			return o
		}
		if len(c.out.ret) > 0 {
			for _, d := range c.f.Outs {
				if v, ok := c.out.ret[0].data[d.Name]; ok {
					val := mVal{v: v}
					if len(c.out.ret) > 1 {
						val = mVal{v: "?"} // candidates: see arg matching
					}
					o[d.Name] = val
				}
			}
			return o
		}
		for _, d := range c.f.Outs {
			if m.conc && c.eh { // an abandoned activity may set it at any time
				o[d.Name] = mVal{v: "?"}
			} else if vs, ok := c.vals[d.Name]; ok {
				o[d.Name] = m.pickVal(vs)
			} else if d.Def != "" {
				o[d.Name] = mVal{v: Canon(d.Def)}
			}
		}
		return o
	}
	oc := t.t.outcome(t.inst.tok, t.n-1)
	o["val"] = mVal{v: Canon("V:" + t.exec)}
	o["sel"] = mVal{v: Canon(oc.Sel)}
	o["n"] = mVal{v: Canon(t.n - 1)}
	o["nil"] = mVal{v: Canon(little(t.exec))}
	o["go"] = mVal{v: Canon(t.t.Loop != nil && t.n-1 < t.t.loopN(t.inst.tok))}
	return o
}

func (m *Model) pickVal(vs []mVal) mVal {
	c := cands(vs, m.i)
	if len(c) == 1 {
		return mVal{v: c[0].v}
	}
	return mVal{v: "?"}
}

// cands are the values a read starting at history index at may return.
func cands(vs []mVal, at int) []mVal {
	var o []mVal
	for i, w := range vs {
		over := false
		for j, x := range vs {
			if i != j && x.st > w.en && x.en < at {
				over = true
			}
		}
		if !over {
			o = append(o, w)
		}
	}
	return o
}

// attemptFail: the current attempt failed.
func (m *Model) attemptFail(t *mTask, e *errSet) {
	t.attEnd = m.now()
	t.endAt = m.i
	if x := m.Execs[t.exec]; x != nil {
		x.EndAt = m.i
		x.Fail = true
		x.Err = e
	}
	if r := t.t.Retry; r != nil && r.Bad != "" && e.all()[0].retriable {
		m.Feat["retries that cannot be determined"]++
		e = one(&errInfo{exec: t.exec, msg: "retry_" + t.t.ID, types: []string{"unknown"}, acts: []string{t.t.ID}, code: `""`, data: "null"})
	} else if r != nil && e.all()[0].retriable {
		count, interval := t.t.retry(t.inst.tok)
		if t.retries < count {
			t.retries++
			t.st = tReady
			t.again = true
			t.notBefore = t.attEnd + int64(interval)*1000000
			m.Feat["retried"]++
			return
		}
		m.Feat["retries used up"]++
	}
	m.taskFail(t, e)
}

// taskFail: the task has failed for good.
func (m *Model) taskFail(t *mTask, e *errSet) {
	in := t.inst
	t.st = tFail
	t.err = e
	if in.frozen[t.g] {
		return
	}
	t.covered = true
	hasErr := false
	for _, l := range t.g.Links {
		if l.From == t.t.ID && l.Type == "error" {
			hasErr = true
		}
	}
	if hasErr {
		m.Feat["error link followed"]++
		in.vals["_E."+t.t.ID] = []mVal{{e: e}}
		for _, l := range t.g.Links {
			if l.From != t.t.ID {
				continue
			}
			if l.Type == "error" {
				in.links[l] = 1
			} else {
				in.links[l] = 2
			}
		}
		m.enterSucc(t, nil)
		m.settle(in)
		return
	}
	m.flowFail(in, t.g, t.t.ID, e)
}

// flowFail: an unhandled failure in graph g of the instance.
func (m *Model) flowFail(in *mInst, g *Graph, task string, e *errSet) {
	if in.frozen[g] {
		return
	}
	if g == in.f.Body && in.eh { // concurrent: of several failures any may be the one handled
		in.errs.more = append(in.errs.more, e)
		return
	}
	if in.ended {
		if m.conc && in.errs != nil && g != in.f.Body { // several tasks of the handler failed
			in.errs.late = append(in.errs.late, e)
		}
		if in.out.fail != nil {
			for x := in; x.host != nil; x = x.host.inst {
				for _, y := range e.all() {
					y.up(x.host)
				}
			}
			in.out.fail.more = append(in.out.fail.more, e)
		}
		return
	}
	if g == in.f.Body {
		if in.f.EH != nil && len(in.f.EH.Tasks) > 0 { // an empty handler handles nothing
			m.Feat["error handler started"]++
			in.eh = true
			in.errs = &errSet{more: []*errSet{e}}
			if !m.conc {
				m.freeze(in, g)
			}
			in.vals["_E"] = []mVal{{e: in.errs}}
			in.vals["_E."+task] = []mVal{{e: e}}
			m.begin(in, in.f.EH)
			return
		}
	} else {
		m.Feat["error handler failed"]++
		if m.conc && in.errs != nil { // a task of the failed handler that is still going may see either
			in.errs.late = append(in.errs.late, e)
		}
	}
	in.out.fail = &errSet{more: []*errSet{e}}
	m.end(in)
}

func (m *Model) taskDone(t *mTask) {
	in := t.inst
	t.st = tDone
	if in.frozen[t.g] || in.ended && !m.conc {
		return
	}
	t.covered = true
	followed, hasExpr := false, false
	var ow *Link
	codes := map[*Link]int{}
	for _, l := range t.g.Links {
		if l.From != t.t.ID {
			continue
		}
		in.links[l] = 2
		switch l.Type {
		case "dependency":
			in.links[l] = 1
			codes[l] = 0
		case "label":
			in.links[l] = 1
			codes[l] = 3
			if m.sc.PrioExpr {
				codes[l] = 1
			}
		case "exprOtherwise":
			ow = l
			codes[l] = 2
		case "expression":
			hasExpr = true
			codes[l] = 1
			if m.sc.PrioExpr {
				codes[l] = 3
			}
			ok := false
			switch l.Expr {
			case "true":
				ok = true
			case "false":
			case "bad", "panic":
				m.Feat["link expression failed"]++
				t.linkFail = true
				m.flowFail(in, t.g, t.t.ID, one(&errInfo{exec: t.exec, msg: l.tag(), types: []string{"unknown", "link_expr"}, acts: []string{t.t.ID}, code: `""`, data: "null"}))
				return
			default:
				vs, have := in.vals["_A."+t.t.ID+".sel"]
				if !have { // mocked or skipped
					m.Feat["link expression failed"]++
					t.linkFail = true
					m.flowFail(in, t.g, t.t.ID, one(&errInfo{exec: t.exec, msg: "'sel'", types: []string{"unknown", "link_expr"}, acts: []string{t.t.ID}, code: `""`, data: "null"}))
					return
				}
				if len(vs) == 1 {
					for _, s := range l.Sels {
						if vs[0].v == Canon(s) {
							ok = true
						}
					}
				}
			}
			if ok {
				followed = true
				in.links[l] = 1
			}
		}
	}
	if ow != nil && hasExpr && !followed {
		in.links[ow] = 1
		m.Feat["otherwise followed"]++
	}
	if hasExpr {
		m.Feat["expression links decided"]++
	}
	m.enterSucc(t, codes)
	m.settle(in)
}

// enterSucc decides the successors of a task whose links have been decided.
func (m *Model) enterSucc(t *mTask, codes map[*Link]int) {
	in := t.inst
	grp := &mGroup{}
	seen := map[string]bool{}
	var skipped []*mTask
	for _, l := range t.g.Links {
		if l.From != t.t.ID || seen[l.To] {
			continue
		}
		seen[l.To] = true
		to := in.tasks[l.To]
		if to.st != tWait {
			continue
		}
		dec, any := m.inLinks(to)
		if !dec {
			continue
		}
		if any {
			nt := 0
			code := 0
			for _, x := range t.g.Links {
				if x.From == t.t.ID && x.To == l.To {
					nt++
					if in.links[x] == 1 {
						code = codes[x]
					}
				}
			}
			m.ready(to)
			if to.st == tReady {
				m.Feat["task readied"]++
				direct := nt == 1 && in.links[l] == 1
				if direct && !zero(to.t) && !silentAbove(t.g, l.To, map[string]bool{}) {
					to.group, to.code = grp, code
					grp.m = append(grp.m, to)
				}
			}
		} else {
			skipped = append(skipped, to)
		}
	}
	for _, s := range skipped {
		m.skip(s)
	}
}

// silentAbove reports a predecessor (of any degree) that completes without an observable execution: the moment
// the task becomes ready is not known then.
func silentAbove(g *Graph, id string, seen map[string]bool) bool {
	for _, l := range g.Links {
		if l.To != id || seen[l.From] {
			continue
		}
		seen[l.From] = true
		for _, t := range g.Tasks {
			if t.ID == l.From && zero(t) {
				return true
			}
		}
		if silentAbove(g, l.From, seen) {
			return true
		}
	}
	return false
}

func (m *Model) inLinks(t *mTask) (decided, any bool) {
	decided = true
	n := 0
	for _, l := range t.g.Links {
		if l.To != t.t.ID {
			continue
		}
		n++
		switch t.inst.links[l] {
		case 0:
			decided = false
		case 1:
			any = true
		}
	}
	if n > 1 && decided {
		m.Feat["join decided"]++
	}
	return
}

func (m *Model) skip(t *mTask) {
	in := t.inst
	if t.st != tWait {
		return
	}
	t.st = tSkip
	m.Feat["task skipped"]++
	for _, l := range t.g.Links {
		if l.From == t.t.ID {
			in.links[l] = 2
		}
	}
	for _, l := range t.g.Links {
		if l.From != t.t.ID {
			continue
		}
		to := in.tasks[l.To]
		if to.st != tWait {
			continue
		}
		dec, any := m.inLinks(to)
		if !dec {
			continue
		}
		if any {
			m.ready(to)
		} else {
			m.skip(to)
		}
	}
}

// ---- reads ----

// expect computes what the reference reads now; ok=false: it cannot be resolved.
func (m *Model) expect(t *mTask, r *Ref) (mArg, bool) {
	in := t.inst
	get := func(k string) (mArg, bool) {
		vs, ok := in.vals[k]
		if !ok {
			return mArg{}, false
		}
		a := mArg{}
		for _, c := range cands(vs, t.tryAt) {
			if c.v == "?" {
				a.any = true
			}
			a.cands = append(a.cands, c.v)
		}
		return a, true
	}
	switch r.K {
	case "act":
		return get("_A." + r.T + "." + r.F)
	case "acc":
		return get("_A." + r.T)
	case "var":
		a, ok := get(r.F)
		if ok && m.conc && in.root == in {
			// the returned data becomes that of the instance when it ends
			for _, rt := range in.out.ret {
				if v, has := rt.data[r.F]; has {
					a.cands = append(a.cands, v)
				}
			}
		}
		return a, ok
	case "lit":
		return mArg{cands: []string{Canon(r.F)}}, true
	case "iter":
		l := t.t.Loop
		if l == nil {
			return mArg{}, false
		}
		i := t.iter
		if r.F == "nosuch" && !isWhile(l) {
			return mArg{cands: []string{"null"}}, true
		}
		if isWhile(l) {
			if r.F != "index" {
				return mArg{}, false
			}
			return mArg{cands: []string{Canon(i)}}, true
		}
		if r.F == "index" {
			return mArg{cands: []string{Canon(i)}}, true
		}
		switch l.Kind {
		case "count":
			return mArg{cands: []string{Canon(i)}}, true
		case "list":
			if r.F == "key" {
				return mArg{cands: []string{Canon(i)}}, true
			}
			e := fmt.Sprintf("L:%s:%d", t.t.ID, i)
			if (l.Typ == "objs" || l.Typ == "rows") && r.F == "value" {
				return mArg{cands: []string{Canon(map[string]interface{}{"x": e})}}, true
			}
			return mArg{cands: []string{Canon(e)}}, true
		case "map":
			return mArg{f: "map" + r.F}, true
		}
		return mArg{}, false
	case "ctx":
		switch r.F {
		case "FlowName":
			return mArg{cands: []string{Canon(in.f.Name)}}, true
		case "ParentFlowName":
			if in.det || in.parent == nil {
				return mArg{cands: []string{`""`}}, true
			}
			return mArg{cands: []string{Canon(in.parent.f.Name)}}, true
		case "FlowId":
			return mArg{lazy: "FlowId"}, true
		case "ParentFlowId":
			if in.det || in.parent == nil {
				return mArg{cands: []string{`""`}}, true
			}
			return mArg{lazy: "ParentFlowId"}, true
		case "AppName":
			return mArg{cands: []string{Canon(simApp)}}, true
		case "AppVersion":
			return mArg{cands: []string{Canon(simVersion)}}, true
		case "TraceId", "SpanId":
			if m.sc.Obs.Tracer {
				return mArg{lazy: r.F}, true // judged in C21
			}
			return mArg{cands: []string{`""`}}, true
		}
		return mArg{}, false
	case "err", "errt":
		k := "_E"
		if r.K == "errt" {
			k = "_E." + r.T
		}
		vs, ok := in.vals[k]
		if !ok {
			return mArg{}, false
		}
		return mArg{errs: vs[0].e, f: r.F}, true
	}
	return mArg{}, false
}

func hasStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (e *errInfo) up(h *mTask) {
	if e.types[0] == "unknown" {
		e.acts = append(e.acts, h.t.ID)
	}
}

func (e *errInfo) match(f, got string) bool {
	switch f {
	case "message":
		return len(got) > 2 && strings.Contains(got, strings.Trim(Canon(e.msg), `"`))
	case "type":
		for _, t := range e.types {
			if Canon(t) == got {
				return true
			}
		}
	case "activity":
		for _, t := range e.acts {
			for _, ty := range e.types {
				switch {
				case ty == "unknown" || ty == "link_expr" || e.mocked:
					if Canon(t) == got {
						return true
					}
				default:
					if Canon(taskName(t)) == got {
						return true
					}
				}
			}
		}
	case "code":
		return got == e.code
	case "data":
		return got == e.data
	case "": // all of it
		var o map[string]interface{}
		if json.Unmarshal([]byte(got), &o) != nil {
			return false
		}
		for _, k := range []string{"message", "type", "activity", "code", "data"} {
			if !e.match(k, Canon(o[k])) {
				return false
			}
		}
		return true
	}
	return false
}

func (m *Model) matchArg(t *mTask, r *Ref, a mArg, got string) {
	in := t.inst
	bad := func(want string) {
		rule := "C15"
		switch r.K {
		case "err", "errt":
			rule = "C03"
		case "iter", "acc":
			rule = "C05"
		}
		m.v(rule, "%s: reference %s reads %s, expected %s", t.exec, r.expr(), got, want)
	}
	switch {
	case a.any:
	case a.lazy != "":
		in.claims = append(in.claims, claim{a.lazy, got, m.i})
	case a.errs != nil:
		var keep []*errInfo
		for _, e := range a.errs.all() {
			if e.match(a.f, got) {
				keep = append(keep, e)
			}
		}
		if len(keep) == 0 {
			for _, l := range a.errs.late {
				for _, e := range l.all() {
					if e.match(a.f, got) {
						return
					}
				}
			}
			e := a.errs.all()[0]
			bad(fmt.Sprintf("the failure of %s (%s; type %v, activity %v, code %s, data %s)", e.exec, e.msg, e.types, e.acts, e.code, e.data))
			return
		}
		a.errs.c, a.errs.more = keep, nil
	case strings.HasPrefix(a.f, "map"):
		// a map may be iterated in any order, but each key once, value matching
		if t.keys == nil {
			t.keys = map[string]string{}
		}
		key := strings.Trim(got, `"`)
		if a.f == "mapvalue" {
			key = strings.TrimPrefix(key, "M:"+t.t.ID+":")
		}
		ok := false
		for i := 0; i < t.t.loopN(t.inst.tok); i++ {
			ok = ok || key == fmt.Sprintf("k%d", i)
		}
		for x, k := range t.keys {
			if x == t.exec && k != key || x != t.exec && k == key {
				ok = false
			}
		}
		t.keys[t.exec] = key
		if !ok {
			bad("an unused element of the map")
		}
	default:
		if !hasStr(a.cands, got) {
			bad(strings.Join(a.cands, " or "))
		}
	}
}

// ---- events ----

// Feed processes the whole history.
func (m *Model) Feed(log []Ev) {
	m.log = log
	started := map[*mInst]bool{}
	for i := range log {
		m.i = i
		e := &log[i]
		if e.Tok != "" || e.K == "result" {
			var main *mInst
			if e.Run < len(m.mains) {
				main = m.mains[e.Run]
			}
			if main != nil && !started[main] {
				started[main] = true
				m.begin(main, main.f.Body)
			}
		}
		if e.K == "begin" {
			main := m.mains[e.Run]
			if !started[main] {
				started[main] = true
				m.begin(main, main.f.Body)
			}
		}
		m.event(e)
		if len(m.V) > 10 {
			return
		}
	}
	m.i = len(log)
	if !m.NoEnd {
		m.finish(started)
	}
	m.lateChecks()
}

func (m *Model) event(e *Ev) {
	switch e.K {
	case "try":
		m.evTry(e)
	case "args":
		m.evArgs(e)
	case "start":
		m.evStart(e)
	case "returning", "replying", "replied":
		m.evReturn(e)
	case "end":
		m.evEnd(e)
	case "post":
		m.evPost(e)
	case "update":
		for k, v := range e.Data {
			m.mains[e.Run].vals[k] = []mVal{{v: v}}
		}
	case "result":
		m.evResult(e)
	case "kept":
		m.v("C02", "run %d: its caller doesn't want the results, but is kept while it is executing", e.Run)
	case "done":
		in := m.mains[e.Run]
		in.done++
		in.doneAt = m.i
		if in.done > 1 {
			m.v("C02", "run %d: completion notified %d times", e.Run, in.done)
		} else if r := m.sc.Runs[e.Run]; r.Detach {
			m.Feat["execution detached from its caller"]++
			if r.RetID && !in.cases["id"] {
				m.v("C02", "run %d: completion notified before the instance identifier is delivered", e.Run)
			}
		} else if in.res == 0 {
			m.v("C02", "run %d: completion notified before any terminal result", e.Run)
		}
	}
}

func (m *Model) taskOf(e *Ev) *mTask {
	in := m.I[e.Tok]
	if in == nil {
		m.v("C01", "%s executes in an instance that should not exist", e.Exec)
		return nil
	}
	t := in.tasks[e.Task]
	if t == nil {
		m.v("C01", "%s: no such task", e.Exec)
		return nil
	}
	return t
}

func (m *Model) evTry(e *Ev) {
	t := m.taskOf(e)
	if t == nil {
		return
	}
	in := t.inst
	if !m.conc && in.root.busy != "" {
		m.v("C01", "%s starts while %s is still executing (sequential execution)", e.Exec, in.root.busy)
	}
	if t.st != tReady {
		rule := "C01"
		switch {
		case t.st == tAband && in.root.res > 0:
			rule = "C02"
		case t.st == tAband:
			rule = "C03"
			if len(in.out.ret) > 0 {
				rule = "C16"
			}
		case t.st == tRun || t.st == tTry || t.st == tArgs || t.st == tSub || t.st == tPost:
			if t.t.Loop != nil {
				rule = "C05"
			}
		case t.st == tDone && t.t.Loop != nil:
			rule = "C05"
		case t.st == tFail && t.n > 0:
			rule = "C06"
		}
		m.v(rule, "%s starts although it is %s", e.Exec, tNames[t.st])
		return
	}
	if !m.conc && in.root.res > 0 {
		m.v("C02", "%s starts after the terminal result was delivered", e.Exec)
	}
	if want := fmt.Sprintf("%s/%s#%d", in.tok, t.t.ID, t.n); want != e.Exec {
		m.v("C01", "execution %s observed where %s was due", e.Exec, want)
	}
	if e.T < t.notBefore {
		rule := "C05"
		what := "loop delay"
		if t.t.Retry != nil {
			rule, what = "C06", "retry interval"
		}
		m.v(rule, "%s starts %dns before its %s has passed", e.Exec, t.notBefore-e.T, what)
	}
	if t.t.BadSet != "" { // fails when it is entered, that's not a step
		m.Feat["setting cannot be evaluated"]++
		if t.g == in.f.EH && in.eh {
			m.freeze(in, in.f.Body)
		}
		t.st = tTry
		t.n++
		t.exec = e.Exec
		t.tryAt = m.i
		m.Execs[e.Exec] = &mExec{Exec: e.Exec, Tok: in.tok, Task: t.t.ID, TryAt: m.i, EndAt: -1}
		m.attemptFail(t, one(&errInfo{exec: t.exec, msg: "setfail_" + t.t.ID, types: []string{"mapper"}, acts: []string{t.t.ID}, code: `""`, data: "null"}))
		return
	}
	if t.group != nil && t.n == 0 && !m.conc {
		for _, o := range t.group.m {
			if o != t && o.n == 0 && o.st == tReady && o.code > t.code {
				m.v("C01", "%s starts before %s/%s although that has the higher link priority", e.Exec, in.tok, o.t.ID)
			}
		}
	}
	if t.g == in.f.EH && in.eh {
		m.freeze(in, in.f.Body)
	}
	if m.conc {
		for _, l := range t.g.Links {
			if l.To == t.t.ID && in.links[l] == 1 {
				if p := in.tasks[l.From]; p.child != nil && !p.child.det && p.st != tSub {
					m.freezeAll(p.child)
				}
			}
		}
	}
	t.st = tTry
	t.n++
	if !t.again { // an attempt is retried in the same step
		in.root.tries++
	}
	t.again = false
	if m.sc.MaxStep > 0 && in.root.tries > m.sc.MaxStep {
		m.v("C12", "%s starts: that is more than the limit of %d steps", e.Exec, m.sc.MaxStep)
	}
	t.exec = e.Exec
	t.tryAt = m.i
	t.rejected = false
	if !m.conc {
		in.root.busy = e.Exec
	}
	m.Execs[e.Exec] = &mExec{Exec: e.Exec, Tok: in.tok, Task: t.t.ID, TryAt: m.i, EndAt: -1}
	if t.t.Loop != nil && t.t.Loop.Kind == "baditer" {
		m.Feat["loop iterand invalid"]++
		in.root.busy = ""
		m.attemptFail(t, one(&errInfo{exec: t.exec, msg: "", types: []string{"unknown"}, acts: []string{t.t.ID}, code: `""`, data: "null"}))
		return
	}
	t.exp = nil
	for _, r := range t.t.Refs {
		a, ok := m.expect(t, r)
		if !ok {
			m.Feat["input mapping failed"]++
			msg := ""
			types := []string{"mapper"}
			if r.K == "fail" || r.K == "panic" {
				msg = r.F
			}
			if r.K == "panic" {
				types = append(types, "unhandled")
			}
			in.root.busy = ""
			m.status(t, -1)
			m.attemptFail(t, one(&errInfo{exec: t.exec, msg: msg, types: types, acts: []string{t.t.ID}, code: `""`, data: "null"}))
			return
		}
		t.exp = append(t.exp, a)
	}
}

func (m *Model) evArgs(e *Ev) {
	t := m.taskOf(e)
	if t == nil {
		return
	}
	if t.st != tTry || t.exec != e.Exec {
		if t.st == tFail || t.st == tReady || t.st == tDone {
			m.v("C15", "%s: inputs evaluated although one of its references cannot be resolved", e.Exec)
		} else {
			m.v("C01", "%s: unexpected evaluation of inputs", e.Exec)
		}
		return
	}
	t.st = tArgs
	if len(e.Args) != len(t.exp) {
		m.v("C15", "%s reads %d values instead of %d", e.Exec, len(e.Args), len(t.exp))
		return
	}
	for i, a := range t.exp {
		m.matchArg(t, t.t.Refs[i], a, e.Args[i])
	}
	if m.interceptStart(t) || m.schemaFails(t, false) {
		return
	}
	switch t.t.Kind {
	case "sub", "det":
		in := t.inst
		if m.loadFails(e, t.t.Flow) {
			m.Feat["invoked flow couldn't be loaded"]++
			in.root.busy = ""
			m.status(t, -1)
			m.attemptFail(t, one(&errInfo{exec: t.exec, msg: "", types: []string{"unknown"}, acts: []string{t.t.ID}, code: `""`, data: "null"}))
			return
		}
		c := m.newInst(e.Exec, t.t.Flow, in.run, in, t)
		c.det = t.t.Kind == "det"
		in.root.busy = ""
		m.status(t, support.Pass)
		if c.det {
			c.root = c
			c.evid = in.root.evid
			m.Feat["detached started"]++
		} else {
			m.Feat["subflow started"]++
			in.kids = append(in.kids, c)
			if m.subs == nil {
				m.subs = map[string]int{}
			}
			m.subs[fmt.Sprintf("%s subflow %s of %s/%s", in.root.tok, c.f.Name, in.f.Name, t.t.ID)]++
		}
		if t.t.In0 != nil {
			a, ok := m.expect(t, t.t.In0)
			switch {
			case ok && len(a.cands) == 1 && !a.any:
				c.vals["in0"] = []mVal{{v: a.cands[0]}}
			case ok:
				c.vals["in0"] = []mVal{{v: "?"}}
			default:
				c.vals["in0"] = []mVal{{v: "null"}}
			}
		} else if c.f.InDef != "" {
			// a task passes every input on, whether or not it maps it: not judged
			c.vals["in0"] = []mVal{{v: "?"}}
		} else {
			c.vals["in0"] = []mVal{{v: "null"}}
		}
		t.child = c
		if c.det {
			m.begin(c, c.f.Body)
			m.attemptOK(t)
			return
		}
		t.st = tSub
		if in.frozen[t.g] {
			m.freezeAll(c)
			for _, x := range c.order {
				x.st = tAband
			}
			c.ended = true
			c.aband = true
			return
		}
		m.begin(c, c.f.Body)
	}
}

func (m *Model) evStart(e *Ev) {
	t := m.taskOf(e)
	if t == nil {
		return
	}
	if t.rejected && t.exec == e.Exec {
		m.v("C24", "%s starts although its inputs do not conform to their schema", e.Exec)
		return
	}
	if t.st != tArgs || t.exec != e.Exec || t.t.Kind == "sub" || t.t.Kind == "det" {
		m.v("C01", "%s: unexpected start", e.Exec)
		return
	}
	in := t.inst
	t.st = tRun
	t.startAt = m.i
	for i, a := range t.exp {
		if i < len(e.Args) && a.lazy == "" && !a.any && len(a.cands) == 1 && e.Args[i] != a.cands[0] {
			m.v("C15", "%s receives %s, expected %s", e.Exec, e.Args[i], a.cands[0])
		}
	}
	if in.hostID == "" {
		in.hostID, in.ptr, in.name = e.Host, e.Ptr, e.Name
		for _, o := range m.all {
			if o == in || o.hostID == "" {
				continue
			}
			if o.hostID == e.Host || o.ptr == e.Ptr {
				m.v("C08", "instances %s and %s have the same identity %q", in.tok, o.tok, e.Host)
			}
		}
		if e.Name != in.f.Name {
			m.v("C15", "%s executes in flow %q, expected %q", e.Exec, e.Name, in.f.Name)
		}
	} else if in.hostID != e.Host || in.ptr != e.Ptr {
		m.v("C08", "%s executes in instance %q, but others of %s in %q", e.Exec, e.Host, in.tok, in.hostID)
	}
	if in.host == nil && in.run < len(m.sc.Runs) {
		if id := m.sc.Runs[in.run].ID; id != "" && e.Host != id {
			m.v("C08", "run %d executes as instance %q, expected %q", in.run, e.Host, id)
		}
	}
	if in.tok == in.root.tok && e.EvID != in.root.evid {
		rule := "C15"
		if in.det {
			rule = "C17"
		}
		m.v(rule, "%s sees event id %q, expected %q", e.Exec, e.EvID, in.root.evid)
	}
}

func (m *Model) evReturn(e *Ev) {
	t := m.taskOf(e)
	if t == nil || t.st != tRun {
		return
	}
	in := t.inst
	r := &mRet{exec: e.Exec, data: map[string]string{}}
	for _, n := range t.t.Data {
		r.data[n] = Canon(retVal(e.Exec, n))
	}
	if t.t.Err {
		r.err = &errInfo{exec: e.Exec, msg: "E:" + e.Exec + ";", types: []string{"unknown"}, acts: []string{t.t.ID}, code: `""`, data: "null"}
	}
	switch e.K {
	case "returning":
		m.Feat["return"]++
		if m.conc {
			if in.frozen[t.g] {
				return
			}
			in.out.ret = append(in.out.ret, r)
			if !in.ended {
				m.end(in)
			} else if in.host != nil && in.host.st == tDone {
				// another return of the same instance may have won
				for _, d := range in.f.Outs {
					in.host.inst.vals["_A."+in.host.t.ID+"."+d.Name] = []mVal{{v: "?"}}
				}
			}
			return
		}
		in.out.ret = []*mRet{r}
	case "replying":
		m.Feat["reply"]++
		if m.conc {
			m.Feat["reply of a concurrent activity"]++
		}
		if in.host == nil && !in.http {
			in.replies = append(in.replies, r)
		}
	case "replied":
		for _, rp := range in.replies {
			if m.conc && in.ended && rp.exec == e.Exec {
				rp.late = true
			}
		}
		if in.host == nil && !in.http && !m.conc && len(in.replies) > 0 {
			m.v("C16", "%s: reply of run %d not delivered before the replying activity went on", e.Exec, in.run)
		}
	}
}

func (m *Model) evEnd(e *Ev) {
	t := m.taskOf(e)
	if t == nil {
		return
	}
	if t.st != tRun || t.exec != e.Exec {
		m.v("C01", "%s: unexpected end", e.Exec)
		return
	}
	in := t.inst
	if in.root.busy == e.Exec {
		in.root.busy = ""
	}
	if e.Kind == "" {
		if t.t.Set != "" {
			w := mVal{v: Canon("S:" + e.Exec), st: t.startAt, en: m.i}
			if m.conc {
				in.vals[t.t.Set] = append(in.vals[t.t.Set], w)
			} else {
				in.vals[t.t.Set] = []mVal{w}
			}
		}
		if t.t.Kind == "ret" {
			t.st = tDone
			t.endAt = m.i
			t.covered = !in.frozen[t.g]
			m.status(t, support.Pass)
			m.assert(t, false)
			m.end(in)
			return
		}
		m.status(t, support.Pass)
		m.attemptOK(t)
		return
	}
	m.Feat["activity failed: "+e.Kind]++
	m.status(t, support.Fail)
	if e.Kind != "panic" {
		m.assert(t, true)
	}
	ei := one(newErrInfo(e, t))
	if !m.conc && !in.eh && e.Kind != "panic" { // the flow's latest error, until the handler starts
		in.vals["_E"] = []mVal{{e: ei}}
	}
	m.attemptFail(t, ei)
}

func newErrInfo(e *Ev, t *mTask) *errInfo {
	ei := &errInfo{exec: e.Exec, msg: "E:" + e.Exec + ";", acts: []string{t.t.ID}, code: `""`, data: "null"}
	switch e.Kind {
	case "err":
		ei.types = []string{"unknown"}
	case "aerr":
		ei.types = []string{"activity"}
		code, data := errParts(e.Kind, e.Exec)
		ei.code, ei.data = Canon(code), Canon(data)
	case "rerr":
		ei.types = []string{"activity"}
		code, data := errParts(e.Kind, e.Exec)
		ei.code, ei.data = Canon(code), Canon(data)
		ei.retriable = true
	case "panic":
		ei.types = []string{"unhandled"}
	}
	return ei
}

// overLimit handles the terminal result of an instance that reached the step limit.
func (m *Model) overLimit(in *mInst, e *Ev) bool {
	k := m.sc.MaxStep
	if k == 0 || !e.IsErr || !strings.Contains(e.Err, "max step count") {
		return false
	}
	in.over = true
	m.Feat["step limit reached"]++
	if !strings.Contains(e.Err, fmt.Sprint(k)) {
		m.v("C12", "run %d: error %q doesn't tell the limit of %d steps", e.Run, e.Err, k)
	}
	switch {
	case in.sched <= k:
		m.v("C12", "run %d: stopped by the limit of %d steps although it consists of %d steps", e.Run, k, in.sched)
	case !m.conc && in.ended && in.early == 0:
		m.v("C12", "run %d: stopped by the limit of %d steps although it ended after %d", e.Run, k, in.tries)
	case !m.conc && in.tries+in.early < k:
		m.v("C12", "run %d: stopped by the limit of %d steps after %d steps", e.Run, k, in.tries+in.early)
	case in.tries == k:
		m.Feat["step limit: exact"]++
	}
	m.freezeAll(in)
	return true
}

func (m *Model) evResult(e *Ev) {
	in := m.mains[e.Run]
	r := m.sc.Runs[e.Run]
	if in.done > 0 {
		m.v("C02", "run %d: result delivered after completion was notified", e.Run)
	}
	if r.RetID && in.res == 0 && !in.cases2("id") {
		if e.IsErr || len(e.Data) != 1 || e.Data["id"] == "" || (in.hostID != "" && e.Data["id"] != Canon(in.hostID)) || (r.ID != "" && e.Data["id"] != Canon(r.ID)) {
			m.v("C02", "run %d: expected the instance identifier as first result, got %v %s", e.Run, e.Data, e.Err)
		}
		return
	}
	if r.Detach {
		m.v("C02", "run %d: data %v, error %q delivered to a caller who doesn't want the results", e.Run, e.Data, e.Err)
		return
	}
	// a pending reply?
	for i, rp := range in.replies {
		if i > 0 && !m.conc {
			break
		}
		if !e.IsErr == (rp.err == nil) && (rp.err == nil && eqMap(e.Data, rp.data) || rp.err != nil && strings.Contains(e.Err, rp.err.msg)) {
			in.replies = append(in.replies[:i:i], in.replies[i+1:]...)
			in.lastReply(rp)
			if in.res > 0 {
				m.v("C16", "run %d: reply (data %v, error %q) delivered after the terminal result", e.Run, e.Data, e.Err)
			}
			return
		}
	}
	in.res++
	in.resAt = m.i
	if in.res > 1 {
		m.v("C02", "run %d: more than one terminal result (data %v, error %q)", e.Run, e.Data, e.Err)
		return
	}
	if m.overLimit(in, e) {
		return
	}
	if !in.ended {
		m.v("C02", "run %d: result (data %v, error %q) delivered although the instance has not ended: %s", e.Run, e.Data, e.Err, m.pending(in))
		return
	}
	m.checkOutcome(in, e)
	if k := m.sc.MaxStep; k > 0 && in.tries > k-3 {
		m.Feat["step limit: just enough"]++
	}
	if m.conc {
		m.freezeAll(in)
	}
}

func (in *mInst) cases2(k string) bool {
	if in.cases == nil {
		in.cases = map[string]bool{}
	}
	r := in.cases[k]
	in.cases[k] = true
	return r
}

func (in *mInst) lastReply(r *mRet) {
	in.vals["_reply"] = append(in.vals["_reply"], mVal{v: canonRaw(r.data)})
}

func eqMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

func canonRaw(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	var p []string
	for _, k := range ks {
		p = append(p, Canon(k)+":"+m[k])
	}
	return "{" + strings.Join(p, ",") + "}"
}

func (m *Model) checkOutcome(in *mInst, e *Ev) {
	if in.out.fail != nil {
		m.Feat["result: failure"]++
		if s := intSpec(m.sc, in.run, "", in.fi, "_flowOutput", "assertx"); s != nil {
			if e.IsErr || len(e.Data) > 0 { // the failure is asserted on instead of delivered
				m.v("C18", "run %d: its failure is asserted on, but data %v, error %q delivered", e.Run, e.Data, e.Err)
			}
			return
		}
		if !e.IsErr {
			m.v("C02", "run %d: failed with %s but a result without error was delivered (data %v)", e.Run, in.out.fail.all()[0].desc(), e.Data)
			return
		}
		for _, c := range in.out.fail.all() {
			if strings.Contains(e.Err, c.msg) {
				want := []string{c.code, c.data, fmt.Sprint(c.retriable)}
				if c.types[0] == "activity" && (len(e.Args) != 3 || strings.Join(e.Args, " ") != strings.Join(want, " ")) {
					m.v("C03", "run %d: failed with %s, but the error delivered has code, data, retriable %s, the original one %s", e.Run, c.desc(), e.Args, want)
				}
				return
			}
		}
		m.v("C03", "run %d: failed with %s but the error delivered is %q", e.Run, in.out.fail.all()[0].desc(), e.Err)
		return
	}
	if len(in.out.ret) > 0 {
		m.Feat["result: returned"]++
		for _, r := range in.out.ret {
			if r.err != nil {
				if e.IsErr && strings.Contains(e.Err, r.err.msg) && (len(r.data) == 0 || len(e.Data) == 0 || eqMap(e.Data, r.data)) {
					return
				}
			} else if !e.IsErr && eqMap(e.Data, r.data) {
				return
			}
		}
		m.v("C16", "run %d: returned %s but the result delivered is data %v, error %q", e.Run, in.out.ret[0].desc(), e.Data, e.Err)
		return
	}
	m.Feat["result: success"]++
	if e.IsErr {
		m.v("C02", "run %d: succeeded but error %q was delivered", e.Run, e.Err)
		return
	}
	if rs := in.vals["_reply"]; len(rs) > 0 && len(in.f.Outs) == 0 {
		if len(e.Data) == 0 {
			return
		}
		for _, r := range rs {
			if r.v == canonRaw(e.Data) {
				return
			}
		}
		m.v("C16", "run %d: terminal result is %v", e.Run, e.Data)
		return
	}
	for _, o := range in.f.Outs {
		got, ok := e.Data[o.Name]
		vs, set := in.vals[o.Name]
		var want []string
		any := false
		if set {
			for _, c := range cands(vs, m.i) {
				want = append(want, c.v)
				any = any || c.v == "?"
			}
			if m.conc && in.eh { // abandoned activities may or may not have set it
				if o.Def != "" {
					want = append(want, Canon(o.Def))
				} else {
					want = append(want, "null")
				}
				for _, c := range vs {
					want = append(want, c.v)
				}
			}
		} else if o.Def != "" {
			want = []string{Canon(o.Def)}
		} else {
			want = []string{"null"}
		}
		if !ok {
			got = "null"
		}
		if m.conc && in.eh && !any {
			// an activity still going may set it at any time
			for _, t := range in.order {
				if t.t.Set == o.Name && t.n > 0 {
					want = append(want, Canon("S:"+t.exec))
				}
			}
		}
		if !any && !hasStr(want, got) {
			m.v("C02", "run %d: output %s is %s, expected %s", e.Run, o.Name, got, strings.Join(want, " or "))
		}
	}
	for k := range e.Data {
		f := false
		for _, o := range in.f.Outs {
			f = f || o.Name == k
		}
		if !f {
			m.v("C02", "run %d: undeclared output %s delivered", e.Run, k)
		}
	}
}

func (e *errInfo) desc() string { return fmt.Sprintf("the failure of %s (%s)", e.exec, e.msg) }
func (r *mRet) desc() string {
	if r.err != nil {
		return "error " + r.err.msg
	}
	return fmt.Sprintf("data %v", r.data)
}

func (m *Model) pending(in *mInst) string {
	var p []string
	for _, t := range in.order {
		switch t.st {
		case tReady, tTry, tArgs, tRun, tSub, tPost:
			s := in.tok + "/" + t.t.ID + " is " + tNames[t.st]
			if t.st == tSub && t.child != nil && !t.child.ended {
				s += " (" + m.pending(t.child) + ")"
			}
			p = append(p, s)
		}
	}
	return strings.Join(p, ", ")
}

// finish checks the obligations at quiescence.
func (m *Model) finish(started map[*mInst]bool) {
	for i, in := range m.mains {
		if !started[in] {
			continue
		}
		if in.over {
			if in.done == 0 {
				m.v("C02", "run %d: completion never notified", i)
			}
			continue
		}
		if !in.ended {
			m.v("C02", "run %d never ends: %s", i, m.pending(in))
			continue
		}
		if in.http {
			if r := m.sc.Runs[i]; r.Detach && in.done == 0 {
				m.v("C02", "run %d: completion never notified", i)
			}
			continue
		}
		if in.res == 0 {
			m.v("C02", "run %d ended but no terminal result was delivered", i)
		}
		if in.done == 0 {
			m.v("C02", "run %d: completion never notified", i)
		}
		for _, rp := range in.replies {
			if rp.late {
				m.Feat["reply of an activity still running when its flow ended"]++
				continue
			}
			m.v("C16", "run %d: reply of %s never delivered", i, rp.exec)
			break
		}
	}
	for _, in := range m.all {
		if in.det && !in.ended {
			m.v("C17", "detached flow %s never ends: %s", in.tok, m.pending(in))
		}
	}
	for _, in := range m.all {
		if in.ended || in.root.over || !m.live(in) {
			continue
		}
		if !in.det && in.host != nil {
			m.v("C04", "subflow %s never ends: %s", in.tok, m.pending(in))
		}
	}
}

func (m *Model) live(in *mInst) bool {
	for p := in; p != nil; p = p.parent {
		if p.ended {
			return false
		}
		if p.det {
			return true
		}
	}
	return true
}

func (m *Model) lateChecks() {
	for _, in := range m.all {
		for _, c := range in.claims {
			switch c.f {
			case "FlowId":
				if in.hostID != "" && c.v != Canon(in.hostID) {
					m.v("C15", "%s: FlowId reads %s, the instance is %q", in.tok, c.v, in.hostID)
				}
			case "ParentFlowId":
				if in.parent != nil && in.parent.hostID != "" && c.v != Canon(in.parent.hostID) {
					m.v("C15", "%s: ParentFlowId reads %s, the invoking instance is %q", in.tok, c.v, in.parent.hostID)
				}
			}
		}
	}
}
