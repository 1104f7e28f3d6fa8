// Package zzdemo demonstrates a defect of the flow engine (added to the
// repository through 'go test -overlay').
package zzdemo

import (
	"context"
	"fmt"
	"os"
	"regexp"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/project-flogo/core/action"
	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/app/resource"
	_ "github.com/project-flogo/core/data/expression/script"
	"github.com/project-flogo/core/support/service"
	"github.com/project-flogo/core/trigger"
	flow "github.com/project-flogo/flow"
	"github.com/project-flogo/flow/instance"
)

var _ = flow.FlowAction{}

// Act is the activity every task of the demonstration runs.
type Act struct{}

type Out struct {
	V interface{} `md:"v"`
}

func (o *Out) ToMap() map[string]interface{} { return map[string]interface{}{"v": o.V} }
func (o *Out) FromMap(m map[string]interface{}) error {
	o.V = m["v"]
	return nil
}

type fn func(ctx activity.Context) (bool, error)

var (
	mu   sync.Mutex
	ran  []string
	acts = map[string]fn{}
)

var md = activity.ToMetadata(&Out{}, &Out{})

func (a *Act) Metadata() *activity.Metadata { return md }
func (a *Act) Eval(ctx activity.Context) (bool, error) {
	mu.Lock()
	ran = append(ran, ctx.Name())
	f := acts[ctx.Name()]
	mu.Unlock()
	if f != nil {
		return f(ctx)
	}
	return true, nil
}

// log returns the names of the tasks that ran since the last call.
func log() string {
	mu.Lock()
	defer mu.Unlock()
	s := strings.Join(ran, " ")
	ran = nil
	return s
}

type initCtx struct {
	rm *resource.Manager
	sm *service.Manager
}

func (c *initCtx) ResourceManager() *resource.Manager      { return c.rm }
func (c *initCtx) ServiceManager() *service.Manager        { return c.sm }
func (c *initCtx) RuntimeSettings() map[string]interface{} { return settings }

var (
	resources = map[string]*resource.Resource{}
	settings  = map[string]interface{}{}
	services  []service.Service
	ictx      *initCtx
	once      sync.Once
)

const ref = "github.com/project-flogo/flow"

func setup(t *testing.T) {
	once.Do(func() {
		os.Setenv("FLOGO_LOG_LEVEL", "ERROR")
		_ = activity.Register(&Act{})
		ictx = &initCtx{resource.NewManager(resources), service.NewServiceManager()}
		for _, s := range services {
			_ = ictx.sm.RegisterService(s)
		}
		if err := action.GetFactory(ref).Initialize(ictx); err != nil {
			t.Fatal(err)
		}
	})
}

// deploy deploys a flow; in its definition "ACT" stands for the activity of the demonstration.
func deploy(t *testing.T, name, def string) {
	setup(t)
	def = strings.ReplaceAll(def, `"ACT"`, `{"ref":"github.com/project-flogo/flow/zzdemo"}`)
	def = strings.ReplaceAll(def, `"REF"`, `"github.com/project-flogo/flow/zzdemo"`)
	def = regexp.MustCompile(`\{"id":"(\w+)",`).ReplaceAllString(def, `{"id":"$1","name":"$1",`)
	r, err := resource.GetLoader("flow").LoadResource(&resource.Config{ID: "flow:" + name, Data: []byte(def)})
	if err != nil {
		t.Fatal(err)
	}
	ictx.rm.SetResource("flow:"+name, r)
}

type handler struct {
	mu      sync.Mutex
	results []string
	done    int
	end     chan struct{}
}

func (h *handler) HandleResult(r map[string]interface{}, err error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if err != nil {
		h.results = append(h.results, "error: "+err.Error())
	} else {
		h.results = append(h.results, fmt.Sprintf("%v", r))
	}
}
func (h *handler) Done() {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.done++
	if h.done == 1 {
		close(h.end)
	}
}

var eventID string

// runEvent runs a flow for an event with the id.
func runEvent(t *testing.T, name, id string) string {
	eventID = id
	defer func() { eventID = "" }()
	return run(t, name, nil)
}

// start starts a flow.
func start(t *testing.T, name string, in map[string]interface{}, ro *instance.RunOptions) *handler {
	a, err := action.GetFactory(ref).New(&action.Config{Settings: map[string]interface{}{"flowURI": "res://flow:" + name}})
	if err != nil {
		t.Fatal(err)
	}
	if in == nil {
		in = map[string]interface{}{}
	}
	if ro != nil {
		in["_run_options"] = ro
	}
	h := &handler{end: make(chan struct{})}
	ctx := context.Background()
	if eventID != "" {
		ctx = trigger.NewContextWithEventId(ctx, eventID)
	}
	if err := a.(action.AsyncAction).Run(ctx, in, h); err != nil {
		h.results = append(h.results, "refused: "+err.Error())
		h.Done()
	}
	return h
}

// wait waits for the end of the flow and returns what its caller was told.
func (h *handler) wait(t *testing.T) string {
	select {
	case <-h.end:
	case <-time.After(20 * time.Second):
		return "no end"
	}
	time.Sleep(20 * time.Millisecond)
	h.mu.Lock()
	defer h.mu.Unlock()
	return fmt.Sprintf("%s done:%d", strings.Join(h.results, "|"), h.done)
}

func run(t *testing.T, name string, in map[string]interface{}) string {
	return start(t, name, in, nil).wait(t)
}

func expect(t *testing.T, what, got, want string) {
	t.Helper()
	if got != want {
		t.Errorf("%s: got %q, want %q", what, got, want)
	}
}
