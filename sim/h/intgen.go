package h

import (
	"fmt"
	"strings"
)

// genInterceptors: flows, some of whose instances have interceptors.
func genInterceptors(seed uint64, class int) *Scenario {
	r := NewRng(seed ^ 0x18)
	p := Profile{Conc: 25, Prio: 20, Flows: 3, Tasks: 6, MinTasks: 1, Fail: 5, EH: 35, Sub: 20, Det: 4, Loop: 12, Retry: 6, Ret: 4, Reply: 2, BadMap: 2, BadLink: 3, BadLoop: 3, ErrLink: 15, Refs: 2, Any: 3, Runs: 3, Lat: 25, Dup: 3, Empty: 2, NoID: 20, Width: 15, Schema: -1}
	same := r.P(35)
	if same {
		p.Any = 0
	}
	sc := Gen("C18", seed, &p)
	sc.ClassIx = class
	if same { // tasks of different flows have the same names
		j := string(sc.JSON())
		for f := 1; f < len(sc.Flows); f++ {
			for _, k := range []string{"t", "h"} {
				j = strings.ReplaceAll(j, fmt.Sprintf("f%d%s", f, k), "f0"+k)
			}
		}
		s, err := ParseScenario([]byte(j))
		if err != nil {
			panic(err)
		}
		sc = s
	}
	noFail := false // which of a failure and a concurrent Return comes first can't be observed
	sc.tasks(func(_ *Flow, _ *Graph, t *Task) { noFail = noFail || sc.Conc && t.Kind == "ret" })
	sc.Cover = r.P(60)
	sc.CoverIO = r.P(50)
	for i := range sc.Runs {
		if r.P(30) {
			continue
		}
		used := map[string]bool{}
		for fi, f := range sc.Flows {
			for _, g := range []*Graph{f.Body, f.EH} {
				if g == nil {
					continue
				}
				for _, t := range g.Tasks {
					if t.Loop != nil && (t.Loop.Kind == "whilego" || t.Loop.Kind == "whileout") {
						continue
					}
					if r.P(10) && !used[t.ID] && !sc.badTarget(t.ID) {
						used[t.ID] = true
						k := r.Pick("skip", "inputs")
						if noFail && k == "skip" {
							continue
						}
						pd, _ := sc.passed(-1, t.ID)
						if k == "skip" && (sc.Conc && sc.selUsed(-1, t.ID) || pd) {
							continue
						}
						s := &IntSpec{Run: i, Flow: fi, Task: t.ID, Kind: k}
						if k == "inputs" {
							if t.Kind == "sub" || t.Kind == "det" {
								continue
							}
							s.Outs = map[string]string{"lit": "OV:" + t.ID}
						}
						sc.Interc = append(sc.Interc, s)
					}
					if !r.P(22) {
						continue
					}
					s := &IntSpec{Run: i, Flow: fi, Task: t.ID, Kind: r.Pick("mock", "mock", "mock", "mocknil", "mockerr", "mockerr", "over", "failafter", "assert", "assert", "assertx")}
					if noFail && hasStr([]string{"mock", "mocknil", "mockerr", "failafter"}, s.Kind) {
						continue
					}
					if sc.Conc { // when a mocked activity fails can't be observed
						switch {
						case s.Kind == "mockerr":
							continue
						case s.Kind == "mocknil" && sc.selUsed(fi, t.ID):
							continue
						}
					}
					passed, only := sc.passed(fi, t.ID)
					if !only && (s.Kind == "mock" || s.Kind == "mocknil") {
						continue
					}
					if s.Kind == "mocknil" && passed {
						continue
					}
					switch s.Kind {
					case "mock", "over":
						s.Outs = map[string]string{}
						if t.Kind == "sub" {
							for _, o := range sc.Flows[t.Flow].Outs {
								if passed || r.P(80) {
									s.Outs[o.Name] = "MK:" + t.ID + ":" + o.Name
								}
							}
						} else {
							if passed || r.P(80) {
								s.Outs["val"] = "MK:" + t.ID
							}
							if passed || r.P(80) || sc.Conc && sc.selUsed(fi, t.ID) {
								s.Sel, s.Text = 1+r.N(3), r.P(40)
							}
						}
					case "failafter", "mockerr":
						if s.Kind == "failafter" && (t.Kind == "ret" || t.Kind == "reply") {
							continue
						}
						s.Outs = map[string]string{"message": "M:" + t.ID + ";"}
						if r.P(60) {
							s.Outs["data"] = "MD:" + t.ID
						}
					case "assert":
						s.Expr = r.Pick("true", "false", "sel", "sel", "bad", "unparsable")
						if s.Expr == "sel" {
							s.Sel = r.N(3)
							if t.Kind != "work" || t.Loop != nil && t.Loop.Acc {
								s.Expr = "true"
							}
						}
					case "assertx":
						s.Expr = r.Pick("true", "false", "bad", "unparsable")
					}
					if strings.HasPrefix(s.Kind, "assert") && r.P(25) {
						s.Empty = 1 + r.N(2)
					}
					sc.Interc = append(sc.Interc, s)
				}
			}
			if r.P(25) {
				s := &IntSpec{Run: i, Flow: fi, Task: "_flowOutput", Kind: r.Pick("assert", "assert", "assertx"), Expr: r.Pick("true", "false")}
				if s.Kind == "assert" && r.P(25) {
					s.Expr = r.Pick("bad", "unparsable")
				}
				if s.Kind == "assert" && len(f.Outs) > 0 && r.P(60) {
					o := f.Outs[r.N(len(f.Outs))]
					s.Expr = "out"
					s.Outs = map[string]string{"name": o.Name, "value": o.Def}
				}
				if r.P(25) {
					s.Empty = 1
				}
				sc.Interc = append(sc.Interc, s)
			}
		}
	}
	return sc
}

// badTarget: some task of that name can't be skipped.
func (sc *Scenario) badTarget(id string) bool {
	bad := false
	sc.tasks(func(_ *Flow, _ *Graph, t *Task) {
		if t.ID == id && t.Loop != nil && (t.Loop.Kind == "whilego" || t.Loop.Kind == "whileout") {
			bad = true
		}
	})
	return bad
}

// selUsed: some link depends on the output of the task.
func (sc *Scenario) selUsed(fi int, id string) bool {
	used := false
	for i, f := range sc.Flows {
		for _, g := range []*Graph{f.Body, f.EH} {
			if g == nil || fi >= 0 && i != fi {
				continue
			}
			for _, l := range g.Links {
				if l.From == id && l.Type == "expression" {
					used = true
				}
			}
		}
	}
	return used
}

// passed: some output of the task is passed to a subflow.
func (sc *Scenario) passed(fi int, id string) (used, only bool) {
	only = true
	for i, f := range sc.Flows {
		for _, g := range []*Graph{f.Body, f.EH} {
			if g == nil || fi >= 0 && i != fi {
				continue
			}
			for _, t := range g.Tasks {
				if t.In0 != nil && t.In0.T == id {
					used = true
					if t.In0.F == "n" {
						only = false
					}
				}
			}
		}
	}
	return used, only
}
