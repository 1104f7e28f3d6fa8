package h

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/project-flogo/flow/state"
)

// state of an instance, in a form that can be compared

type flowForm struct {
	URI    string            `json:"uri"`
	Status int               `json:"status"`
	Attrs  map[string]string `json:"attrs,omitempty"`
	Tasks  map[string]int    `json:"tasks,omitempty"`
	Links  map[string]int    `json:"links,omitempty"`
	Host   string            `json:"host,omitempty"`
	Twice  []string          `json:"twice,omitempty"`
}

type instForm struct {
	ID    string               `json:"id"`
	Main  *flowForm            `json:"main"`
	Subs  map[string]*flowForm `json:"subs,omitempty"`
	Queue []string             `json:"queue,omitempty"`
}

func formOf(b *state.SnapshotBase) *flowForm {
	f := &flowForm{Attrs: map[string]string{}, Tasks: map[string]int{}, Links: map[string]int{}}
	if b == nil {
		return f
	}
	f.URI, f.Status = b.FlowURI, b.Status
	for k, v := range b.Attrs {
		f.Attrs[k] = Canon(v)
	}
	for _, t := range b.Tasks {
		if _, ok := f.Tasks[t.Id]; ok {
			f.Twice = append(f.Twice, "task "+t.Id)
		}
		f.Tasks[t.Id] = t.Status
	}
	for _, l := range b.Links {
		k := strconv.Itoa(l.Id)
		if _, ok := f.Links[k]; ok {
			f.Twice = append(f.Twice, "link "+k)
		}
		f.Links[k] = l.Status
	}
	return f
}

const flowEnded = 500

func snapForm(s *state.Snapshot) *instForm {
	f := &instForm{ID: s.Id, Main: formOf(s.SnapshotBase), Subs: map[string]*flowForm{}}
	for _, sf := range s.Subflows {
		g := formOf(sf.SnapshotBase)
		g.Host = sf.TaskId
		if g.Status < flowEnded {
			k := strconv.Itoa(sf.Id)
			if f.Subs[k] != nil {
				g.Twice = append(g.Twice, "subflow "+k)
			}
			f.Subs[k] = g
		}
	}
	for _, q := range s.WorkQueue {
		f.Queue = append(f.Queue, fmt.Sprintf("%06d: %d/%s", q.ID, q.SubflowId, q.TaskId))
	}
	return f
}

// diffForm describes the first differences.
func diffForm(live, built *instForm) string {
	var d []string
	add := func(f string, a ...interface{}) {
		if len(d) < 4 {
			d = append(d, fmt.Sprintf(f, a...))
		}
	}
	cmp := func(n string, l, b *flowForm) {
		if l.URI != b.URI {
			add("%s is %q, rebuilt %q", n, l.URI, b.URI)
		}
		if l.Status != b.Status {
			add("%s has status %d, rebuilt %d", n, l.Status, b.Status)
		}
		if l.Host != b.Host {
			add("%s started by %q, rebuilt %q", n, l.Host, b.Host)
		}
		for _, t := range append(l.Twice, b.Twice...) {
			add("%s: %s occurs twice", n, t)
		}
		mapDiff(n+" value", l.Attrs, b.Attrs, add)
		mapDiff(n+" open activity", strInts(l.Tasks), strInts(b.Tasks), add)
		mapDiff(n+" link", strInts(l.Links), strInts(b.Links), add)
	}
	if live.ID != built.ID {
		add("instance %s, rebuilt %s", live.ID, built.ID)
	}
	cmp("main flow", live.Main, built.Main)
	for _, k := range keysOf(live.Subs, built.Subs) {
		l, b := live.Subs[k], built.Subs[k]
		switch {
		case l == nil:
			add("subflow %s is not live, but rebuilt", k)
		case b == nil:
			add("subflow %s is live, but not rebuilt", k)
		default:
			cmp("subflow "+k, l, b)
		}
	}
	if l, b := strings.Join(live.Queue, " "), strings.Join(built.Queue, " "); l != b {
		add("pending work [%s], rebuilt [%s]", l, b)
	}
	return strings.Join(d, "; ")
}

func keysOf(a, b map[string]*flowForm) []string {
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	for k := range b {
		if a[k] == nil {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

func strInts(m map[string]int) map[string]string {
	o := map[string]string{}
	for k, v := range m {
		o[k] = strconv.Itoa(v)
	}
	return o
}

func mapDiff(n string, l, b map[string]string, add func(string, ...interface{})) {
	var ks []string
	for k := range l {
		ks = append(ks, k)
	}
	for k := range b {
		if _, ok := l[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		lv, lok := l[k]
		bv, bok := b[k]
		switch {
		case !lok:
			add("%s %s: rebuilt as %s, but there is none", n, k, bv)
		case !bok:
			add("%s %s: %s, missing in what is rebuilt", n, k, lv)
		case lv != bv:
			add("%s %s: %s, rebuilt as %s", n, k, lv, bv)
		}
	}
}

// judgeSteps: C11.
func (x *X) judgeSteps(w *World, m *Model, o *Watch) {
	v := func(f string, a ...interface{}) { x.V("C11", f, a...) }
	per := map[string][]*RecEv{}
	var order []string
	for _, e := range o.Rec {
		if e.K != "snap" && e.K != "step" {
			continue
		}
		if per[e.Inst] == nil {
			order = append(order, e.Inst)
		}
		per[e.Inst] = append(per[e.Inst], e)
	}
	for _, id := range order {
		var steps []*state.Step
		var last *state.Snapshot
		seen := map[*state.Step]bool{}
		for _, e := range per[id] {
			if e.K == "snap" {
				last = &state.Snapshot{}
				if err := json.Unmarshal([]byte(e.JSON), last); err != nil {
					v("instance %s: the snapshot can't be stored: %v", id, err)
					return
				}
				scribble(e.Snap.SnapshotBase)
				for _, sf := range e.Snap.Subflows {
					scribble(sf.SnapshotBase)
				}
				e.Snap = last // as it was at that time
				continue
			}
			if seen[e.Step] {
				v("instance %s: step %d recorded twice", id, e.Step.Id)
				return
			}
			seen[e.Step] = true
			stored := &state.Step{}
			if err := json.Unmarshal([]byte(e.JSON), stored); err != nil {
				v("instance %s: the step can't be stored: %v", id, err)
				return
			}
			if stored.Id != len(steps) {
				v("instance %s: step number %d of the instance has the identifier %d", id, len(steps), stored.Id)
				return
			}
			if now := Canon(e.Step); now != e.JSON {
				v("instance %s: step %d changed after it was recorded, from %s to %s", id, stored.Id, e.JSON, now)
				return
			}
			steps = append(steps, stored)
			if m.conc || last == nil {
				continue
			}
			live := snapForm(last)
			last = nil
			n := len(steps)
			if n > 30 && n%7 != 0 && live.Main.Status < flowEnded {
				continue
			}
			before := Canon(steps)
			built := state.StepsToSnapshot(id, steps)
			x.Feat("states rebuilt", 1)
			x.Feat("steps replayed", n)
			if len(live.Subs) > 0 {
				x.Feat("rebuilt with live subflow", 1)
			}
			if len(live.Queue) > 1 {
				x.Feat("rebuilt with several pending", 1)
			}
			if d := diffForm(live, snapForm(built)); d != "" {
				v("instance %s, after step %d: %s", id, stored.Id, d)
				return
			}
			if after := Canon(steps); after != before {
				v("instance %s: rebuilding the state after step %d modified the recorded steps", id, stored.Id)
				return
			}
			if again := state.StepsToSnapshot(id, steps); diffForm(live, snapForm(again)) != "" {
				v("instance %s: rebuilding the state after step %d again gives another state", id, stored.Id)
				return
			}
		}
		if len(steps) == 0 {
			v("instance %s: no step was recorded", id)
		}
	}
	if !m.conc {
		x.judgePending(w, per, v)
	}
}

// scribble modifies the data that the instance still refers to.
func scribble(b *state.SnapshotBase) {
	if b == nil {
		return
	}
	for _, v := range b.Attrs {
		switch v := v.(type) {
		case map[string]interface{}:
			v["scribble"] = true
		case []interface{}:
			if len(v) > 0 {
				v[0] = "scribble"
			}
		}
	}
}

// judgePending: what is executed next was pending.
func (x *X) judgePending(w *World, per map[string][]*RecEv, v func(string, ...interface{})) {
	for i := range w.Log {
		e := &w.Log[i]
		if e.K != "start" || e.Host == "" {
			continue
		}
		id, sub := e.Host, 0
		if per[id] == nil {
			if j := strings.LastIndex(id, "-"); j > 0 {
				sub, _ = strconv.Atoi(id[j+1:])
				id = id[:j]
			}
		}
		var s *state.Snapshot
		for _, r := range per[id] {
			if r.At > i {
				break
			}
			if r.K == "snap" {
				s = r.Snap
			}
		}
		if s == nil {
			v("activity %s executed by %s before a state was recorded", e.Task, e.Host)
			return
		}
		ok := false
		for _, q := range s.WorkQueue {
			if q.SubflowId == sub && q.TaskId == e.Task {
				ok = true
			}
		}
		if !ok {
			v("activity %s of %s was executed, the state recorded last has pending %s", e.Task, e.Host, Canon(s.WorkQueue))
			return
		}
	}
}

func init() {
	general := Profile{Prio: 20, Flows: 3, Tasks: 6, MinTasks: 1, Fail: 7, EH: 35, Sub: 25, Det: 5, Loop: 12, Retry: 8, Ret: 4, Reply: 2, BadMap: 2, BadLink: 3, BadLoop: 6, ErrLink: 12, Refs: 3, Any: 3, Runs: 2, Lat: 25, Dup: 3, Empty: 2, NoID: 20, Event: 20, Width: 15}
	register(&Check{ID: "C11", Real: realAll, Stub: stubAll + ", state recorder service",
		Classes: []Class{{Recorder: true, Mode: "full", SM: true}},
		Gen: withObs(prof("C11", general), func(o *Obs, class int, r *Rng) {
			o.Recorder, o.Mode, o.SM = true, "full", true
			if r.P(20) {
				o.RecFail = uint32(50000 + r.N(300000))
			}
			if r.P(20) {
				o.RecLat = int64(1+r.N(50)) * 1000000
			}
		}),
		Exec:    ObsExec(func(x *X, w *World, m *Model, o *Watch) { x.judgeSteps(w, m, o) }),
		Rule:    "generated flows executed with recorded steps and snapshots, the state rebuilt after every step; non-trivial: the state was rebuilt while a subflow was live or several activities were pending",
		NonTriv: feat("rebuilt with live subflow", "rebuilt with several pending"),
		Faults:  obsFaults(),
	})
}
