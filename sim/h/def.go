package h

import (
	"encoding/json"
	"fmt"
	"strings"

	"verif/sim/lwork"
)

const (
	WorkRef    = "verif/sim/h"
	SubflowRef = "github.com/project-flogo/flow/activity/subflow"
	PSubRef    = "verif/sim/psub"
	LegacyRef  = lwork.Ref
)

// FlowURI is the address flow i of the scenario is deployed under.
func FlowURI(base string, i int) string { return fmt.Sprintf("res://flow:%s_f%d", base, i) }

func (r *Ref) expr() string {
	switch r.K {
	case "act":
		return fmt.Sprintf("$activity[%s].%s", r.T, r.F)
	case "acc":
		return fmt.Sprintf("$activity[%s]", r.T)
	case "var":
		return "$flow." + r.F
	case "err":
		return "$error." + r.F
	case "errt":
		if r.F == "" {
			return fmt.Sprintf("$error[%s]", r.T)
		}
		return fmt.Sprintf("$error[%s].%s", r.T, r.F)
	case "iter":
		if r.F == "value.x" {
			return "$iteration[value].x"
		}
		return fmt.Sprintf("$iteration[%s]", r.F)
	case "ctx":
		return fmt.Sprintf("$flowctx[%s]", r.F)
	case "lit":
		return fmt.Sprintf("%q", r.F)
	case "fail":
		return fmt.Sprintf("h.fail(%q)", r.F)
	case "panic":
		return fmt.Sprintf("h.panic(%q)", r.F)
	}
	panic("ref kind " + r.K)
}

// taskName is the name of the task with this ID.
func taskName(id string) string { return "n_" + id }

// taskOf is the ID of the task with this name.
func taskOf(name string) string {
	if !strings.HasPrefix(name, "n_") {
		return "?" + name
	}
	return name[2:]
}

type obj = map[string]interface{}

func (t *Task) inExpr() string {
	fn := "h.in"
	if t.Kind == "sub" || t.Kind == "det" {
		fn = "h.tk"
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "=%s(h.enter($flow.tok, %q)", fn, t.ID)
	for _, r := range t.Refs {
		sb.WriteString(", ")
		sb.WriteString(r.expr())
	}
	sb.WriteString(")")
	return sb.String()
}

func (l *Link) value(from *Task) string {
	switch l.Expr {
	case "true":
		return "1 == 1"
	case "false":
		return "1 == 2"
	case "bad":
		return fmt.Sprintf("h.fail(%q)", l.tag())
	case "panic":
		return fmt.Sprintf("h.panic(%q)", l.tag())
	}
	if len(l.Sels) == 0 {
		return fmt.Sprintf("$activity[%s].sel == 99", l.From)
	}
	var parts []string
	for _, s := range l.Sels {
		parts = append(parts, fmt.Sprintf("$activity[%s].sel == %d", l.From, s))
	}
	return strings.Join(parts, " || ")
}

func (l *Link) tag() string { return "badlink_" + l.From + "_" + l.To }

func (g *Graph) task(id string) *Task {
	for _, t := range g.Tasks {
		if t.ID == id {
			return t
		}
	}
	return nil
}

// typ is the type of the task.
func (t *Task) typ() string {
	switch {
	case t.Loop == nil:
		return ""
	case isWhile(t.Loop):
		return "doWhile"
	}
	return "iterator"
}

// ref is what the task's activity is registered as.
func (t *Task) ref() string {
	switch {
	case (t.Kind == "sub" || t.Kind == "det") && t.Post:
		return PSubRef
	case t.Kind == "sub" || t.Kind == "det":
		return SubflowRef
	case t.Legacy:
		return LegacyRef
	}
	return WorkRef
}

func (t *Task) def(sc *Scenario, uri func(int) string) obj {
	o := obj{"id": t.ID, "name": taskName(t.ID)}
	settings := obj{}
	if l := t.Loop; l != nil {
		lc := obj{}
		if l.Delay > 0 {
			lc["delay"] = l.Delay
			switch hash("delay"+t.ID+fmt.Sprint(sc.Seed)) % 4 {
			case 0:
				lc["delay"] = fmt.Sprint(l.Delay)
			case 1:
				lc["delay"] = fmt.Sprintf("=$env[SIM_DELAY_%d]", l.Delay)
			}
		}
		if l.Acc {
			lc["accumulate"] = true
		}
		typ := "iterator"
		key := "iterateOn"
		num := fmt.Sprint(l.N)
		if l.Vary {
			num = fmt.Sprintf("h.vary(%d, $flow.tok, %q)", l.N, t.ID)
		}
		switch l.Kind {
		case "count":
			if l.Style == 1 || l.Vary {
				lc[key] = fmt.Sprintf("=h.num(%s)", num)
				if l.Typ != "" {
					lc[key] = fmt.Sprintf("=h.cnt(%q, %s)", l.Typ, num)
				}
			} else if l.Typ == "str" {
				lc[key] = fmt.Sprint(l.N)
			} else {
				lc[key] = l.N
			}
		case "list":
			if l.Style == 0 && !l.Vary && l.Typ == "" {
				a := []interface{}{}
				for i := 0; i < l.N; i++ {
					a = append(a, fmt.Sprintf("L:%s:%d", t.ID, i))
				}
				lc[key] = a
			} else {
				lc[key] = fmt.Sprintf("=h.list(%q, %s, %q)", t.ID, num, l.Typ)
			}
		case "map":
			if l.Style == 0 && !l.Vary {
				a := obj{}
				for i := 0; i < l.N; i++ {
					a[fmt.Sprintf("k%d", i)] = fmt.Sprintf("M:%s:k%d", t.ID, i)
				}
				lc[key] = a
			} else {
				lc[key] = fmt.Sprintf("=h.map(%q, %s)", t.ID, num)
			}
		case "baditer":
			lc[key] = fmt.Sprintf("=h.bad(h.enter($flow.tok, %q))", t.ID)
			if l.Typ != "" {
				lc[key] = fmt.Sprintf("=h.bad(h.enter($flow.tok, %q), %q)", t.ID, l.Typ)
			}
		case "while":
			typ = "doWhile"
			lc["condition"] = fmt.Sprintf("$iteration[index] < %s", num)
		case "whilego":
			typ = "doWhile"
			lc["condition"] = fmt.Sprintf("$activity[%s].go == true", t.ID)
		case "whileout":
			typ = "doWhile"
			lc["condition"] = fmt.Sprintf("$activity[%s].%s == \"never\"", t.ID, l.F)
		case "badcond":
			typ = "doWhile"
			lc["condition"] = fmt.Sprintf("h.fail(%q)", "badcond_"+t.ID)
		case "paniccond":
			typ = "doWhile"
			lc["condition"] = fmt.Sprintf("h.panic(%q)", "badcond_"+t.ID)
		default:
			panic("loop kind " + l.Kind)
		}
		o["type"] = t.typ()
		_, isStr := lc[key].(string)
		_, isMap := lc[key].(obj)
		if l.Style == 2 && l.Kind != "baditer" && !isMap {
			// deprecated notation, directly in the settings
			if v, ok := lc[key]; ok {
				settings["iterate"] = v
				delete(lc, key)
			}
			for k, v := range lc {
				settings[k] = v
			}
		} else if typ == "doWhile" && l.Style == 1 {
			settings["doWhile"] = lc
		} else {
			settings["loopConfig"] = lc
		}
		_ = isStr
	}
	if r := t.Retry; r != nil {
		rc := obj{"count": r.Count, "interval": r.Interval}
		if r.Expr {
			rc = obj{"count": fmt.Sprintf("=h.num(%d)", r.Count), "interval": fmt.Sprintf("=h.num(%d)", r.Interval)}
		}
		if r.Vary {
			rc = obj{"count": fmt.Sprintf("=h.vary(%d, $flow.tok, %q)", r.Count, t.ID), "interval": fmt.Sprintf("=h.vary(%d, $flow.tok, %q)", r.Interval, t.ID)}
		}
		if r.Bad != "" {
			rc[r.Bad] = fmt.Sprintf("=h.fail(%q)", "retry_"+t.ID)
		}
		for _, k := range []string{"count", "interval"} { // by default 0
			if rc[k] == 0 && hash(k+t.ID)%2 == 0 {
				delete(rc, k)
			}
		}
		settings["retryOnError"] = rc
	}
	if t.BadSet != "" {
		settings["note"] = fmt.Sprintf("=h.setfail(h.enter($flow.tok, %q), %q, %q)", t.ID, t.ID, t.BadSet)
	}
	if len(settings) > 0 {
		o["settings"] = settings
	}
	act := obj{}
	switch t.Kind {
	case "sub", "det":
		act["ref"] = t.ref()
		st := obj{"flowURI": uri(t.Flow)}
		if t.Kind == "det" {
			st["detached"] = true
		}
		act["settings"] = st
		in := obj{"tok": t.inExpr()}
		if t.In0 != nil {
			if t.In0.K == "lit" {
				in["in0"] = t.In0.F
			} else {
				in["in0"] = "=" + t.In0.expr()
			}
		}
		act["input"] = in
	default:
		act["ref"] = t.ref()
		if t.Legacy {
			act["output"] = obj{"dflt": "O:" + t.ID}
		}
		act["settings"] = obj{"kind": t.Kind}
		if len(sc.Reconf) > 0 {
			act["settings"] = t.settings(0)
		}
		act["input"] = obj{"in": t.inExpr(), "lit": "lit:" + t.ID}
	}
	if len(t.Sch) > 0 {
		act["schemas"] = t.schemas()
	}
	o["activity"] = act
	return o
}

// settings of version v of the task's activity.
func (t *Task) settings(v int) obj {
	o := obj{"kind": t.Kind, "s1": fmt.Sprintf("v%d:%s", v, t.ID), "s2": v}
	switch (hash(t.ID) + uint64(v)) % 4 {
	case 0:
		o["s2"] = fmt.Sprint(v)
	case 1:
		o["s2"] = fmt.Sprintf("=h.num(%d)", v)
	}
	return o
}

func (g *Graph) defs(sc *Scenario, uri func(int) string) ([]obj, []obj) {
	tasks, links := []obj{}, []obj{}
	for _, t := range g.Tasks {
		tasks = append(tasks, t.def(sc, uri))
	}
	for i, l := range g.Links {
		typ := l.Type
		switch (len(g.Links) + i) % 4 { // the other spellings of the type
		case 0:
			typ = map[string]string{"dependency": "0", "expression": "1", "label": "2", "error": "3", "exprOtherwise": "4"}[typ]
		case 1:
			if typ == "dependency" {
				typ = "default"
			}
		case 2:
			if typ == "dependency" {
				typ = ""
			}
		}
		lo := obj{"from": l.From, "to": l.To, "type": typ, "label": fmt.Sprintf("%s_%s_%d", l.From, l.To, i)}
		if l.Type == "expression" {
			lo["value"] = l.value(g.task(l.From))
		}
		links = append(links, lo)
	}
	return tasks, links
}

// Def is the JSON definition of flow i.
func (sc *Scenario) Def(i int, uri func(int) string) []byte {
	f := sc.Flows[i]
	tasks, links := f.Body.defs(sc, uri)
	outs := []obj{}
	for _, o := range f.Outs {
		oo := obj{"name": o.Name, "type": "any"}
		if o.Def != "" {
			oo["value"] = o.Def
		}
		outs = append(outs, oo)
	}
	in0 := obj{"name": "in0", "type": "any"}
	if f.InDef != "" {
		in0["value"] = f.InDef
	}
	d := obj{
		"name":     f.Name,
		"metadata": obj{"input": []obj{{"name": "tok", "type": "any"}, in0}, "output": outs},
		"tasks":    tasks,
		"links":    links,
	}
	if f.Model {
		d["model"] = "flogo-simple"
	}
	if f.EH != nil {
		et, el := f.EH.defs(sc, uri)
		d["errorHandler"] = obj{"tasks": et, "links": el}
	}
	b, err := json.Marshal(d)
	if err != nil {
		panic(err)
	}
	return b
}
