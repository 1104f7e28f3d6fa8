// Package h is the simulation harness: generated workloads, the activities
// they are made of, the reference model they are checked against and the
// driver that executes them on the deterministic runtime.
package h

import (
	"encoding/json"
	"fmt"
)

// Scenario is one complete, self-contained simulated execution.
type Scenario struct {
	Check    string          `json:"check"`
	Seed     uint64          `json:"seed"`
	Conc     bool            `json:"conc,omitempty"`
	PrioExpr bool            `json:"prioExpr,omitempty"`
	Sched    Sched           `json:"sched"`
	Flows    []*Flow         `json:"flows"`
	Runs     []*Run          `json:"runs"`
	Obs      Obs             `json:"obs,omitempty"`
	Interc   []*IntSpec      `json:"interc,omitempty"`
	Cover    bool            `json:"cover,omitempty"`
	CoverIO  bool            `json:"coverIO,omitempty"`
	MaxStep  int             `json:"maxStep,omitempty"` // process-level
	Crash    []*CrashPt      `json:"crash,omitempty"`
	ClassIx  int             `json:"class,omitempty"`
	Reconf   []*Reconf       `json:"reconf,omitempty"`
	Extra    json.RawMessage `json:"extra,omitempty"` // check-specific part
}

// Sched are the scheduling parameters of one run.
type Sched struct {
	Policy    uint32     `json:"policy"`
	YieldPPM  uint32     `json:"yieldPPM"`
	MapPPM    uint32     `json:"mapPPM"`
	ChangePPM uint32     `json:"changePPM"`
	SlowPPM   uint32     `json:"slowPPM"`
	Decisions []Decision `json:"decisions,omitempty"` // with policy 2
}

type Decision struct {
	P int    `json:"p,omitempty"` // simulation of the scenario
	K string `json:"k"`
	N uint64 `json:"n"`
	V uint32 `json:"v,omitempty"`
}

// Flow is one flow definition.
type Flow struct {
	Name   string  `json:"name"`
	Body   *Graph  `json:"body"`
	EH     *Graph  `json:"eh,omitempty"`
	Outs   []*Out  `json:"outs,omitempty"`
	InDef  string  `json:"inDef,omitempty"`  // default value of the input in0
	Model  bool    `json:"model,omitempty"`  // names its model
	Remote *Remote `json:"remote,omitempty"` // it isn't a deployed resource
}

type Out struct {
	Name string `json:"name"`
	Def  string `json:"def,omitempty"`
}

type Graph struct {
	Tasks []*Task `json:"tasks"`
	Links []*Link `json:"links,omitempty"`
}

type Task struct {
	ID       string      `json:"id"`
	Kind     string      `json:"kind"` // work, ret, reply, sub, det
	Flow     int         `json:"flow,omitempty"`
	Loop     *Loop       `json:"loop,omitempty"`
	Retry    *Retry      `json:"retry,omitempty"`
	Refs     []*Ref      `json:"refs,omitempty"`
	In0      *Ref        `json:"in0,omitempty"`    // sub/det: what is passed as input in0
	Set      string      `json:"set,omitempty"`    // flow variable set by every execution that does not fail
	Data     []string    `json:"data,omitempty"`   // ret/reply: names of the values returned
	Err      bool        `json:"err,omitempty"`    // ret/reply: with an error
	NoData   bool        `json:"noData,omitempty"` // ret: returns an empty set of values
	Post     bool        `json:"post,omitempty"`   // sub: has something left to do after its flow
	BadSet   string      `json:"badSet,omitempty"` // fail, panic: a setting that cannot be evaluated
	Legacy   bool        `json:"legacy,omitempty"` // an activity of the deprecated kind
	Sch      []*Schema   `json:"sch,omitempty"`
	Variants [][]Outcome `json:"variants,omitempty"`
}

type Link struct {
	From string `json:"from"`
	To   string `json:"to"`
	Type string `json:"type"` // dependency expression label error exprOtherwise
	Expr string `json:"expr,omitempty"`
	// Expression links: followed iff the source's sel is in Sels (Expr "sel"),
	// or constant (Expr "true"/"false"); Expr "bad" fails, "panic" panics.
	Sels []int `json:"sels,omitempty"`
}

type Loop struct {
	Kind  string `json:"kind"` // count, list, map, while (index), whilego (output), whileout (output of a subflow), badcond, paniccond, baditer
	N     int    `json:"n"`
	F     string `json:"f,omitempty"` // whileout: the output the condition reads
	Delay int    `json:"delay,omitempty"`
	Acc   bool   `json:"acc,omitempty"`
	Style int    `json:"style,omitempty"` // notation used in the definition
	Vary  bool   `json:"vary,omitempty"`  // up to 2 more, depending on the instance
	Typ   string `json:"typ,omitempty"`   // type of the iterated value: int64, float, str; strs, arr, nil, objs, rows; struct (baditer)
}

type Retry struct {
	Count    int    `json:"count"`
	Interval int    `json:"interval"`
	Expr     bool   `json:"expr,omitempty"`
	Vary     bool   `json:"vary,omitempty"` // both depend on the instance
	Bad      string `json:"bad,omitempty"`  // count, interval: the one that cannot be evaluated
}

// Ref is a reference evaluated by an input mapping.
type Ref struct {
	// act: output F of task T; acc: accumulated outputs of T; var: flow value F;
	// err: $error.F; errt: $error[T].F; iter: $iteration[F]; ctx: $flowctx[F];
	// lit: literal F; fail/panic: failing/panicking function
	K string `json:"k"`
	T string `json:"t,omitempty"`
	F string `json:"f,omitempty"`
}

// Outcome of one execution of an activity.
type Outcome struct {
	Lat  int64  `json:"lat,omitempty"`  // ns
	Kind string `json:"kind,omitempty"` // "" ok, err, aerr, rerr, panic
	Sel  int    `json:"sel,omitempty"`
}

// Run is one instance started from outside.
type Run struct {
	Flow  int    `json:"flow"`
	At    int64  `json:"at,omitempty"` // ns
	ID    string `json:"id,omitempty"` // preserved instance id
	RetID bool   `json:"retID,omitempty"`
	Event string `json:"event,omitempty"` // event id
	In0   string `json:"in0,omitempty"`
	// Detach: the caller is released at once and doesn't get the results
	Detach bool      `json:"detach,omitempty"`
	Orig   string    `json:"orig,omitempty"` // stated to be the original instance
	Rerun  bool      `json:"rerun,omitempty"`
	OD     *OnDemand `json:"od,omitempty"` // the flow is supplied with the request
	// HTTP: started by a request to the tester service, which doesn't tell the result
	HTTP bool `json:"http,omitempty"`
}

// Obs configures observers.
type Obs struct {
	Mode      string `json:"mode,omitempty"`     // recording mode (process-level)
	Recorder  bool   `json:"recorder,omitempty"` // process-level
	RecFail   uint32 `json:"recFail,omitempty"`  // ppm of failing recorder calls
	RecLat    int64  `json:"recLat,omitempty"`
	Listeners bool   `json:"listeners,omitempty"`
	LisLat    int64  `json:"lisLat,omitempty"`
	LisPanic  uint32 `json:"lisPanic,omitempty"`
	Tracer    bool   `json:"tracer,omitempty"` // process-level
	TrcFail   uint32 `json:"trcFail,omitempty"`
	SM        bool   `json:"sm,omitempty"` // process-level: attribute tracking
}

// CrashPt is a point at which an instance is serialised, lost and continued from those bytes.
type CrashPt struct {
	N     int    `json:"n"`               // after this recorded step (all instances counted)
	Op    string `json:"op"`              // restart resume peek (only serialised, not lost)
	Delay int64  `json:"delay,omitempty"` // until the instance is continued
	Step  bool   `json:"step,omitempty"`  // restart with the number of the next step
	Event bool   `json:"event,omitempty"` // continued with the ID of the event in its context
	Data  bool   `json:"data,omitempty"`  // continued with another value of the flow's input
	Orig  string `json:"orig,omitempty"`  // stated to be the original instance
	Rerun bool   `json:"rerun,omitempty"`
	Again bool   `json:"again,omitempty"` // the serialised form is read and written again before
	// first it is tried with a damaged form: flow, task, link (unknown), trunc, none
	Dmg string `json:"dmg,omitempty"`
	Val uint32 `json:"val,omitempty"` // what is damaged
}

// Reconf is a reconfiguration of a deployed flow; the n-th one (counted from
// 1) brings version n of the settings.
type Reconf struct {
	At   int64 `json:"at,omitempty"` // ns after the previous one
	Flow int   `json:"flow"`
	// Doc: what the new definition looks like: "", bad (no definition), other (of a flow that isn't deployed)
	Doc string `json:"doc,omitempty"`
	// Tasks that are different, by ID: expr, conv (a setting that can't be evaluated, converted), refuse (the activity
	// refuses the settings), noact (no activity), null (nothing), gone (not in the definition), s1, s2 (without that setting)
	Tasks map[string]string `json:"tasks,omitempty"`
	Lat   int64             `json:"lat,omitempty"` // of each activity
}

// IntSpec is a test interceptor of one run for one task.
type IntSpec struct {
	Run  int    `json:"run,omitempty"`
	Flow int    `json:"flow"`
	Task string `json:"task"` // "_flowOutput": the flow's result
	// by the task's ID: skip, inputs; by flow and task: mock (outputs instead of the execution), mocknil (no outputs),
	// mockerr (failure instead of the execution), over (outputs after the execution), failafter (failure after the
	// execution), assert (after a success), assertx (after a failure)
	Kind string            `json:"kind"`
	Outs map[string]string `json:"outs,omitempty"`
	Sel  int               `json:"sel,omitempty"`
	Text bool              `json:"text,omitempty"` // sel is given as text
	Expr string            `json:"expr,omitempty"`
	// Empty: number of assertions without an expression before the others
	Empty int `json:"empty,omitempty"`
}

// Class is the process-level configuration a scenario needs.
type Class struct {
	Recorder bool
	Mode     string
	Tracer   bool
	SM       bool
	MaxStep  int
}

func (s *Scenario) Class() Class {
	return Class{s.Obs.Recorder, s.Obs.Mode, s.Obs.Tracer, s.Obs.SM, s.MaxStep}
}

func (c Class) Env() []string {
	var e []string
	if c.MaxStep > 0 {
		e = append(e, fmt.Sprintf("FLOGO_MAX_STEP_COUNT=%d", c.MaxStep))
	}
	if c.SM {
		e = append(e, "FLOGO_FLOW_SM_ENDPOINT=http://sm.invalid")
	}
	return e
}

func (s *Scenario) JSON() []byte {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	return b
}

func (s *Scenario) Clone() *Scenario {
	c := &Scenario{}
	if err := json.Unmarshal(s.JSON(), c); err != nil {
		panic(err)
	}
	return c
}

func ParseScenario(b []byte) (*Scenario, error) {
	s := &Scenario{}
	return s, json.Unmarshal(b, s)
}

// Rng is a small splitmix64 generator.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed*0x9e3779b97f4a7c15 + 0x1234567} }
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) N(n int) int             { return int(r.U64() % uint64(n)) }
func (r *Rng) P(pct int) bool          { return r.N(100) < pct }
func (r *Rng) Pick(v ...string) string { return v[r.N(len(v))] }
