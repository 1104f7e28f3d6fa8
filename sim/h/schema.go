package h

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data/schema"
)

// Validation of the activities' inputs and outputs (C24).

// Schema is the schema declared for an input or output of a task.
type Schema struct {
	Out bool   `json:"out,omitempty"`
	F   string `json:"f"`
	// Rej are the ends of the values that do not conform; "" rejects any
	Rej []string `json:"rej,omitempty"`
	Ref bool     `json:"ref,omitempty"` // a shared schema: accepts or rejects any value
	// Panic: the validation of such a value panics
	Panic bool `json:"panic,omitempty"`
}

// simSchema rejects values with certain ends.
type simSchema struct {
	value string
	Msg   string
	Rej   []string
	Panic bool
}

func (*simSchema) Type() string    { return "sim" }
func (s *simSchema) Value() string { return s.value }

func (s *simSchema) Validate(v interface{}) error {
	if l, ok := v.([]interface{}); ok && len(l) > 0 {
		v = l[0]
	}
	str, ok := v.(string)
	if !ok {
		str = Canon(v)
	}
	for _, r := range s.Rej {
		if strings.HasSuffix(str, r) {
			if s.Panic {
				panic(s.Msg)
			}
			return schema.NewValidationError(s.Msg, nil)
		}
	}
	return nil
}

type schemaFactory struct{}

func (schemaFactory) New(d *schema.Def) (schema.Schema, error) {
	s := &simSchema{value: d.Value}
	if err := json.Unmarshal([]byte(d.Value), s); err != nil {
		return nil, err
	}
	return s, nil
}

func initSchemas() {
	schema.Enable()
	if err := schema.RegisterFactory("sim", schemaFactory{}); err != nil {
		panic(err)
	}
	for _, id := range []string{"none", "any"} {
		s := &Schema{Ref: true}
		if id == "any" {
			s.Rej = []string{""}
		}
		if _, err := schema.Register(id, &schema.Def{Type: "sim", Value: s.value(nil)}); err != nil {
			panic(err)
		}
	}
}

func (s *Schema) msg(t *Task) string {
	if s.Ref {
		return "schema_any"
	}
	return "schema_" + t.ID
}

func (s *Schema) value(t *Task) string {
	b, _ := json.Marshal(obj{"Msg": s.msg(t), "Rej": s.Rej, "Panic": s.Panic})
	return string(b)
}

// def is the schema as stated in the definition.
func (s *Schema) def(t *Task) interface{} {
	if s.Ref {
		if len(s.Rej) > 0 {
			return "schema://any"
		}
		return "schema://none"
	}
	return obj{"type": "sim", "value": s.value(t)}
}

// schemas of the task as stated in the definition.
func (t *Task) schemas() obj {
	in, out := obj{}, obj{}
	for _, s := range t.Sch {
		if s.Out {
			out[s.F] = s.def(t)
		} else {
			in[s.F] = s.def(t)
		}
	}
	o := obj{}
	if len(in) > 0 {
		o["input"] = in
	}
	if len(out) > 0 {
		o["output"] = out
	}
	return o
}

// rejected are the schemas that values of an execution violate.
func (t *Task) rejected(out bool, val func(f string) (string, bool)) (l []*Schema) {
	for _, s := range t.Sch {
		if s.Out != out {
			continue
		}
		v, ok := val(s.F)
		if !ok {
			continue
		}
		for _, r := range s.Rej {
			if strings.HasSuffix(v, r) {
				l = append(l, s)
				break
			}
		}
	}
	return l
}

// schemaFails: the inputs, or the outputs, of the execution do not conform.
func (m *Model) schemaFails(t *mTask, out bool) bool {
	if len(t.t.Sch) == 0 || t.noRun {
		return false
	}
	var outs map[string]mVal
	if out {
		outs = m.outputs(t)
	}
	l := t.t.rejected(out, func(f string) (string, bool) {
		if out {
			v, ok := outs[f]
			return strings.TrimSuffix(v.v, `"`), ok
		}
		switch f {
		case "in", "tok":
			return t.exec, true
		case "lit":
			return "lit:" + t.t.ID, t.t.Kind != "sub" && t.t.Kind != "det"
		}
		return "", false
	})
	if len(l) == 0 {
		m.Feat["schema: conforming"]++
		return false
	}
	if out {
		m.Feat["schema: output rejected"]++
	} else {
		m.Feat["schema: input rejected"]++
		t.inst.root.busy = ""
		t.rejected = true
	}
	es := &errSet{}
	for _, s := range l { // any of them may be reported
		typ := "unknown"
		if s.Panic {
			typ = "unhandled"
			m.Feat["schema: validation panicked"]++
		}
		es.c = append(es.c, &errInfo{exec: t.exec, msg: s.msg(t.t), types: []string{typ}, acts: []string{t.t.ID}, code: `""`, data: "null"})
	}
	m.attemptFail(t, es)
	return true
}

// checkSchemas: the activity is told the schemas.
func (w *World) checkSchemas(ctx activity.Context, t *Task, exec string) {
	if len(t.Sch) == 0 {
		return
	}
	hs, ok := ctx.(schema.HasSchemaIO)
	if !ok {
		w.fault("%s: the activity can't get the schemas", exec)
		return
	}
	for _, out := range []bool{false, true} {
		for _, f := range []string{"in", "lit", "val", "sel", "other"} {
			var s *Schema
			for _, x := range t.Sch {
				if x.Out == out && x.F == f {
					s = x
				}
			}
			get := hs.GetInputSchema
			if out {
				get = hs.GetOutputSchema
			}
			got := get(f)
			if (got == nil) != (s == nil) || s != nil && (got.Type() != "sim" || got.Value() != s.value(t)) {
				w.fault("%s: the schema of %s (output: %v) is %v", exec, f, out, got)
			}
		}
	}
}

// schemas chooses the schemas of a task.
func (g *gen) schemas(t *Task) {
	n := 1 + g.N(2)
	for k := 0; k < n; k++ {
		s := &Schema{Out: g.P(55)}
		if t.Kind == "ret" || t.Kind == "reply" || t.Kind == "det" || t.Kind == "sub" && len(g.sc.Flows[t.Flow].Outs) == 0 {
			s.Out = false
		}
		sub := t.Kind == "sub" || t.Kind == "det"
		switch {
		case s.Out && sub:
			os := g.sc.Flows[t.Flow].Outs
			s.F = os[g.N(len(os))].Name
		case s.Out:
			s.F = g.Pick("val", "val", "sel", "sel", "other")
		case sub:
			s.F = g.Pick("tok", "tok", "tok", "other")
		default:
			s.F = g.Pick("in", "in", "lit", "other")
		}
		if len(t.Sch) > 0 && t.Sch[0].F == s.F && t.Sch[0].Out == s.Out {
			continue
		}
		s.Ref = g.P(20)
		switch {
		case !g.failing() || g.P(35): // conforms
			if !s.Ref {
				s.Rej = []string{"~"}
			}
		case s.Ref || g.P(15) || s.Out && sub || s.F == "lit":
			if !(g.conc && s.Out && sub) { // what the flow returns may be unknown
				s.Rej = []string{""}
			}
		case s.F == "sel":
			s.Rej = []string{fmt.Sprint(g.N(3))}
		default: // some executions
			s.Rej = []string{fmt.Sprintf("#%d", g.N(3))}
		}
		s.Panic = !s.Ref && g.P(10)
		t.Sch = append(t.Sch, s)
	}
}
