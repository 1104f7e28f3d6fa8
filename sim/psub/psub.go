// Package psub is a subflow activity with something left to do when its
// subflow has ended (an activity.AsyncActivity).
package psub

import (
	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/flow/activity/subflow"
)

// PSub is the activity.
type PSub struct{ *subflow.SubFlowActivity }

// Post is what it does when its subflow has ended.
var Post func(ctx activity.Context) (bool, error)

func New(ctx activity.InitContext) (activity.Activity, error) {
	a, err := subflow.New(ctx)
	if err != nil {
		return nil, err
	}
	return &PSub{a.(*subflow.SubFlowActivity)}, nil
}

func (p *PSub) PostEval(ctx activity.Context, userData interface{}) (bool, error) { return Post(ctx) }

func init() {
	_ = activity.Register(&PSub{&subflow.SubFlowActivity{}}, New)
}
