package h

import (
	"context"

	"github.com/project-flogo/core/support/trace"
	"github.com/project-flogo/flow/state"
)

// Recorder is the simulated state recorder service.
type Recorder struct{}

// Rec, if set, receives what the recorder is told.
var Rec interface {
	Start(s *state.FlowState) error
	Snapshot(s *state.Snapshot) error
	Step(s *state.Step) error
	Done(s *state.FlowState) error
}

func (r *Recorder) Name() string { return "sim-recorder" }
func (r *Recorder) Start() error { return nil }
func (r *Recorder) Stop() error  { return nil }
func (r *Recorder) RecordStart(s *state.FlowState) error {
	if Rec == nil {
		return nil
	}
	return Rec.Start(s)
}
func (r *Recorder) RecordSnapshot(s *state.Snapshot) error {
	if Rec == nil {
		return nil
	}
	return Rec.Snapshot(s)
}
func (r *Recorder) RecordStep(s *state.Step) error {
	if Rec == nil {
		return nil
	}
	return Rec.Step(s)
}
func (r *Recorder) RecordDone(s *state.FlowState) error {
	if Rec == nil {
		return nil
	}
	return Rec.Done(s)
}

// Tracer is the simulated tracer.
type Tracer struct{}

// Trc, if set, receives what the tracer is told.
var Trc interface {
	StartSpan(c trace.Config, parent trace.TracingContext) (trace.TracingContext, error)
	FinishSpan(c trace.TracingContext, err error) error
}

type nopSpan struct{}

func (nopSpan) TraceObject() interface{}            { return nil }
func (nopSpan) SetTags(map[string]interface{}) bool { return true }
func (nopSpan) SetTag(string, interface{}) bool     { return true }
func (nopSpan) LogKV(map[string]interface{}) bool   { return true }
func (nopSpan) TraceID() string                     { return "t" }
func (nopSpan) SpanID() string                      { return "s" }
func (t *Tracer) Name() string                      { return "sim-tracer" }
func (t *Tracer) Start() error                      { return nil }
func (t *Tracer) Stop() error                       { return nil }
func (t *Tracer) Extract(trace.CarrierFormat, interface{}) (trace.TracingContext, error) {
	return nil, nil
}
func (t *Tracer) Inject(trace.TracingContext, trace.CarrierFormat, interface{}) error { return nil }
func (t *Tracer) StartTrace(c trace.Config, parent trace.TracingContext) (trace.TracingContext, error) {
	if Trc == nil {
		return nopSpan{}, nil
	}
	return Trc.StartSpan(c, parent)
}
func (t *Tracer) FinishTrace(c trace.TracingContext, err error) error {
	if Trc == nil {
		return nil
	}
	return Trc.FinishSpan(c, err)
}

var _ context.Context
