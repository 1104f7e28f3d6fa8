package h

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/project-flogo/core/app/resource"
)

// setts are settings as the activity has to see them.
type setts struct{ s1, s2 string }

func (s setts) String() string { return s.s1 + " " + s.s2 }

func settsOf(t *Task, v int) setts {
	return setts{Canon(fmt.Sprintf("v%d:%s", v, t.ID)), Canon(v)}
}

// doc is the definition of flow i the n-th reconfiguration brings.
func (rc *Reconf) doc(sc *Scenario, n int, uri func(int) string) []byte {
	if rc.Doc == "bad" {
		return []byte(`{"tasks": [{"id": 7`)
	}
	var d map[string]interface{}
	if err := json.Unmarshal(sc.Def(rc.Flow, uri), &d); err != nil {
		panic(err)
	}
	change := func(o map[string]interface{}) {
		var out []interface{}
		ts, _ := o["tasks"].([]interface{})
		for _, e := range ts {
			to := e.(map[string]interface{})
			id := to["id"].(string)
			t := sc.Flows[rc.Flow].task(id)
			if ac := to["activity"].(map[string]interface{}); ac["ref"] == WorkRef || ac["ref"] == LegacyRef {
				st := t.settings(n)
				ac["settings"] = st
				switch rc.Tasks[id] {
				case "expr":
					st["s2"] = fmt.Sprintf("=h.fail(%q)", id)
				case "conv":
					st["s2"] = "many"
				case "noact":
					delete(to, "activity")
				case "null":
					out = append(out, nil)
					continue
				case "gone":
					continue
				case "s1", "s2":
					delete(st, rc.Tasks[id])
				}
			}
			out = append(out, to)
		}
		if n%2 == 0 {
			out = append(out, map[string]interface{}{"id": "unknown", "activity": map[string]interface{}{"ref": WorkRef, "settings": map[string]interface{}{"s1": "unknown"}}})
		}
		o["tasks"] = out
	}
	change(d)
	if eh, ok := d["errorHandler"].(map[string]interface{}); ok {
		change(eh)
	}
	b, err := json.Marshal(d)
	if err != nil {
		panic(err)
	}
	return b
}

// accepted settings of a task, valid from the event From on; those before
// may be seen until Until.
type accepted struct {
	from, until int
	s           setts
}

func reconfExec(x *X) {
	if !x.Deploy() {
		return
	}
	w := NewWorld(x.Sc)
	cur := -1
	w.Reconf = func(task string, s map[string]interface{}) error {
		hold()
		n := cur
		e := Ev{K: "reconf", Run: -1, Task: task, Data: canonMap(s), X: n}
		var rc *Reconf
		if n >= 0 {
			rc = x.Sc.Reconf[n]
		}
		release()
		w.Add(e)
		if rc != nil && rc.Lat > 0 {
			time.Sleep(time.Duration(rc.Lat))
		}
		if rc != nil && rc.Tasks[task] == "refuse" {
			return plainErr("E:refused")
		}
		return nil
	}
	ok := x.RunAll(w, nil, func() {
		go func() {
			for n, rc := range x.Sc.Reconf {
				time.Sleep(time.Duration(rc.At))
				hold()
				cur = n
				release()
				id := fmt.Sprintf("flow:%s_f%d", x.base, rc.Flow)
				if rc.Doc == "other" {
					id += "x"
				}
				b := rc.doc(x.Sc, n+1, x.URI)
				w.Add(Ev{K: "rbegin", Run: -1, X: n})
				err := proc.rm.ReconfigureResources([]*resource.Config{{ID: id, Data: b}})
				w.Add(Ev{K: "rend", Run: -1, X: n, Err: errStr(err), IsErr: err != nil})
			}
		}()
	})
	if !ok {
		return
	}
	x.judgeReconf(w)
	full := w.Log
	w.Log = nil
	for _, e := range full {
		switch e.K {
		case "reconf", "accept", "rbegin", "rend", "cfg":
		default:
			w.Log = append(w.Log, e)
		}
	}
	x.Judge(w, NewModel(x.Sc))
	if len(x.Res.Viols) > 0 {
		x.Res.Trace = Pretty(full)
	}
	x.cleanup(w)
}

func (x *X) judgeReconf(w *World) {
	tasks := map[string]*Task{} // those of the deployed flows that have settings
	flowOf := map[string]int{}
	for i, f := range x.Sc.Flows {
		for _, g := range []*Graph{f.Body, f.EH} {
			if g == nil {
				continue
			}
			for _, t := range g.Tasks {
				if t.Kind != "sub" && t.Kind != "det" {
					tasks[t.ID] = t
					flowOf[t.ID] = i
				}
			}
		}
	}
	acc := map[string][]accepted{}
	for id, t := range tasks {
		acc[id] = []accepted{{-1, -1, settsOf(t, 0)}}
	}
	last := func(id string) *accepted { return &acc[id][len(acc[id])-1] }
	open := -1
	begin := 0
	got := map[string]int{}
	for i := range w.Log {
		e := &w.Log[i]
		switch e.K {
		case "rbegin":
			open, begin = e.X.(int), i
			got = map[string]int{}
			x.Feat("reconfigured", 1)
		case "reconf":
			t := tasks[e.Task]
			if open < 0 || t == nil {
				x.V("C23", "activity %s reconfigured although nothing is to be", e.Task)
				continue
			}
			got[e.Task]++
			want := last(e.Task).s
			rc := x.Sc.Reconf[open]
			nw := settsOf(t, open+1)
			if rc.Tasks[e.Task] != "s1" {
				want.s1 = nw.s1
			}
			if rc.Tasks[e.Task] != "s2" {
				want.s2 = nw.s2
			}
			if s := (setts{e.Data["s1"], e.Data["s2"]}); s != want || len(e.Data) != 3 || e.Data["kind"] != Canon(t.Kind) {
				x.V("C23", "activity %s is reconfigured with the settings %s, not %v", e.Task, canonRaw(e.Data), want)
			}
		case "accept":
			if t := tasks[e.Task]; t != nil && open >= 0 {
				want := last(e.Task).s
				nw := settsOf(t, open+1)
				rc := x.Sc.Reconf[open]
				if rc.Tasks[e.Task] != "s1" {
					want.s1 = nw.s1
				}
				if rc.Tasks[e.Task] != "s2" {
					want.s2 = nw.s2
				}
				acc[e.Task] = append(acc[e.Task], accepted{from: i, until: -1, s: want})
			}
		case "rend":
			rc := x.Sc.Reconf[open]
			clean := true
			for id := range tasks {
				want := 1
				how := rc.Tasks[id]
				if flowOf[id] != rc.Flow || rc.Doc != "" {
					want = 0
				} else {
					switch how {
					case "expr", "conv", "noact", "null", "gone":
						want = 0
						x.Feat("task not reconfigurable: "+how, 1)
					case "refuse":
						x.Feat("settings refused", 1)
					}
					clean = clean && (how == "" || how == "gone" || how == "s1" || how == "s2")
				}
				if got[id] != want {
					x.V("C23", "reconfiguration %d: activity %s is reconfigured %d times instead of %d (%s%s)", open, id, got[id], want, rc.Doc, how)
				}
			}
			switch {
			case rc.Doc == "bad" && !e.IsErr:
				x.V("C23", "reconfiguration %d with something that isn't a definition succeeds", open)
			case rc.Doc != "bad" && clean && e.IsErr:
				x.V("C23", "reconfiguration %d fails: %s", open, e.Err)
			}
			if rc.Doc == "bad" {
				x.Feat("reconfiguration refused", 1)
			}
			for id := range tasks { // who asks may be told either until the end
				if a := last(id); a.from > begin {
					a.until = i
				}
			}
			open = -1
		}
	}
	if open >= 0 {
		x.V("C23", "reconfiguration %d doesn't end", open)
		for id := range tasks {
			if a := last(id); a.from > begin {
				a.until = len(w.Log)
			}
		}
	}
	// what executions have seen
	for _, e := range w.Log {
		if e.K != "cfg" {
			continue
		}
		t := tasks[e.Task]
		if t == nil {
			continue
		}
		at := e.X.([5]int)
		as := acc[e.Task]
		if len(as) > 1 {
			x.Feat("executions of reconfigured activities", 1)
		}
		if !t.Legacy {
			// the activity uses what it was given
			k := 0
			for k+1 < len(as) && as[k+1].from < at[0] {
				k++
			}
			if s := as[k].s; e.Data["s1"] != s.s1 || e.Data["s2"] != s.s2 {
				x.V("C23", "%s: an execution with the settings %v sees %s", e.Exec, s, canonRaw(e.Data))
			}
			continue
		}
		for j, key := range []string{"s1", "s2"} {
			val := func(a *accepted) string {
				if j == 0 {
					return a.s.s1
				}
				return a.s.s2
			}
			var want []string // the values at any time between the two points
			ok := false
			for k := range as {
				if as[k].from < at[2*j+2] && (k+1 == len(as) || as[k+1].until < 0 || as[k+1].until >= at[2*j+1]) {
					want = append(want, val(&as[k]))
					ok = ok || e.Data[key] == val(&as[k])
				}
			}
			if !ok {
				x.V("C23", "%s: the setting %s is %s, not %s", e.Exec, key, e.Data[key], strings.Join(want, " or "))
			}
		}
	}
}

// cleanup disposes of the deployed flows.
func (x *X) cleanup(w *World) {
	n := len(w.Log)
	W = w
	proc.rm.CleanupResources()
	got := map[string]int{}
	for _, e := range w.Log[n:] {
		if e.K == "cleanup" {
			got[e.Name+" "+e.Task]++
		}
	}
	for _, f := range x.Sc.Flows {
		for _, g := range []*Graph{f.Body, f.EH} {
			if g == nil {
				continue
			}
			for _, t := range g.Tasks {
				k := f.Name + " " + t.ID
				want := 1
				if t.Kind == "sub" || t.Kind == "det" || t.Legacy {
					want = 0
				}
				if got[k] != want {
					x.V("C23", "the activity of task %s is disposed of %d times instead of %d", t.ID, got[k], want)
				}
				delete(got, k)
			}
		}
	}
	for k := range got {
		x.V("C23", "an activity that isn't one of the flows' is disposed of: %s", k)
	}
}

func reconfGen(p Profile) func(uint64, int) *Scenario {
	return func(seed uint64, class int) *Scenario {
		q := p
		sc := Gen("C23", seed, &q)
		r := NewRng(seed ^ 0xC23C23)
		sc.tasks(func(_ *Flow, _ *Graph, t *Task) {
			if t.Kind != "sub" && t.Kind != "det" {
				t.Legacy = r.P(35)
			}
		})
		for n := 1 + r.N(6); n > 0; n-- {
			rc := &Reconf{Flow: r.N(len(sc.Flows)), Tasks: map[string]string{}}
			if r.P(80) {
				rc.At = int64(r.N(60)) * 1e6 / 4
			}
			switch {
			case r.P(10):
				rc.Doc = "bad"
			case r.P(5):
				rc.Doc = "other"
			}
			if r.P(40) {
				rc.Lat = int64(1+r.N(20)) * 1e6
			}
			odd := []int{0, 15, 50}[r.N(3)]
			for _, g := range []*Graph{sc.Flows[rc.Flow].Body, sc.Flows[rc.Flow].EH} {
				if g == nil {
					continue
				}
				for _, t := range g.Tasks {
					if t.Kind != "sub" && t.Kind != "det" && r.P(odd) {
						rc.Tasks[t.ID] = r.Pick("expr", "conv", "refuse", "noact", "null", "gone", "s1", "s2")
					}
				}
			}
			sc.Reconf = append(sc.Reconf, rc)
		}
		return sc
	}
}

func reconfShrink(s *Scenario) []*Scenario {
	var out []*Scenario
	for i := range s.Reconf {
		if len(s.Reconf) == 1 {
			break
		}
		c := s.Clone()
		c.Reconf = append(c.Reconf[:i:i], c.Reconf[i+1:]...)
		out = append(out, c)
	}
	for i, rc := range s.Reconf {
		for id := range rc.Tasks {
			c := s.Clone()
			delete(c.Reconf[i].Tasks, id)
			out = append(out, c)
		}
		if rc.At != 0 || rc.Lat != 0 {
			c := s.Clone()
			c.Reconf[i].At, c.Reconf[i].Lat = 0, 0
			out = append(out, c)
		}
	}
	return out
}

func init() {
	register(&Check{ID: "C23", Warm: 8, Real: realAll + ", core's resource manager", Stub: stubAll,
		Gen: reconfGen(Profile{Conc: 40, Prio: 10, Flows: 3, Tasks: 5, MinTasks: 1, Fail: 8, EH: 45, Sub: 20, Loop: 20, Retry: 10, Ret: 3, BadMap: 2, ErrLink: 15,
			Refs: 1, Runs: 4, Lat: 60, NoID: 20, Event: 10, Width: 25}),
		Exec:    reconfExec,
		Shrink:  reconfShrink,
		Rule:    "generated flows reconfigured while their instances run; non-trivial: an activity was executed whose settings have been changed",
		NonTriv: feat("executions of reconfigured activities"),
		Faults: append([]string{"reconfiguration refused", "settings refused", "task not reconfigurable: expr", "task not reconfigurable: conv", "task not reconfigurable: noact",
			"task not reconfigurable: null"}, faultFeats...),
	})
}
