// Package lwork is an activity of the deprecated kind: one instance shared by
// all tasks, which asks for its settings when it is executed.
package lwork

import "github.com/project-flogo/core/activity"

// Ref is what it is registered as.
const Ref = "verif/sim/lwork"

// Activity is the activity.
type Activity struct{}

// What it does.
var (
	Md          *activity.Metadata
	Eval        func(ctx activity.Context) (bool, error)
	Reconfigure func(settings map[string]interface{}) error
)

func (*Activity) Metadata() *activity.Metadata                      { return Md }
func (*Activity) Eval(ctx activity.Context) (bool, error)           { return Eval(ctx) }
func (*Activity) Reconfigure(settings map[string]interface{}) error { return Reconfigure(settings) }
func (*Activity) Cleanup() error                                    { panic("shared activity disposed of") }

// Register makes it available.
func Register() error { return activity.LegacyRegister(Ref, &Activity{}) }
