// Command vsim explores, confirms, minimises and reports: it drives worker
// processes, each of which executes simulated runs one after another.
package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type info struct {
	ID      string
	Classes int
	Env     [][]string
	Weights []int
	Rule    string
	Faults  []string
	Real    string
	Stub    string
	Secs    int
	Seg     float64 // length of a segment in seconds
}

type viol struct {
	Rule string `json:"rule"`
	Msg  string `json:"msg"`
}

type result struct {
	Viols     []viol            `json:"viols"`
	Decisions []json.RawMessage `json:"decisions,omitempty"`
	LogFull   bool              `json:"logFull,omitempty"`
	Hash      uint64            `json:"hash"`
	Shape     uint64            `json:"shape"`
	Trace     []string          `json:"trace,omitempty"`
	Invalid   string            `json:"invalid,omitempty"`
	crash     string
}

type probe struct{ Seed, Hash, Shape uint64 }

type summary struct {
	Runs, NonTriv  int
	Feat           map[string]int
	SimNS          int64
	Yields         uint64
	Switches       uint64
	Picks, Multi   uint64
	Slow, Timers   uint64
	Gor            uint64
	Sims           int
	Hashes, Shapes []uint64
	Sample         json.RawMessage
	WallMS         int64
	Last           uint64
	Known          map[string]int
	Probes         []probe
}

var (
	root    = os.Getenv("VERIF_ROOT")
	work    = os.Getenv("VERIF_WORK")
	worker  = filepath.Join(work, "worker")
	infos   = map[string]*info{}
	known   = filepath.Join(root, "known-findings.json")
	started = time.Now()
)

func die(f string, a ...interface{}) {
	fmt.Printf("ERROR "+f+"\n", a...)
	os.Exit(2)
}

func envFor(check string, class int) []string {
	var e []string
	for _, v := range os.Environ() {
		if strings.HasPrefix(v, "FLOGO_") || strings.HasPrefix(v, "GO") || strings.HasPrefix(v, "HTTP") || strings.HasPrefix(v, "http") || strings.HasPrefix(v, "TZ=") {
			continue
		}
		e = append(e, v)
	}
	e = append(e, "GOMAXPROCS=1", "FLOGO_LOG_LEVEL=ERROR", "FLOGO_HOST_NAME=simhost", "TZ=UTC", "GOTRACEBACK=single")
	if i := infos[check]; i != nil && class < len(i.Env) {
		e = append(e, i.Env[class]...)
	}
	return e
}

func cmd(check string, class int, args ...string) *exec.Cmd {
	c := exec.Command(worker, append([]string{"-known", known}, args...)...)
	c.Env = envFor(check, class)
	c.Dir = work
	return c
}

// tail keeps the beginning of what a process writes to stderr.
type headBuf struct {
	b bytes.Buffer
	sync.Mutex
}

func (h *headBuf) Write(p []byte) (int, error) {
	h.Lock()
	defer h.Unlock()
	if h.b.Len() < 1<<16 {
		h.b.Write(p)
	}
	return len(p), nil
}

var (
	reCrash = regexp.MustCompile(`(?m)^(panic: .*|fatal error: .*|runtime: goroutine stack exceeds.*|unexpected fault address.*|\[signal .*)$`)
	reHex   = regexp.MustCompile(`0x[0-9a-f]+`)
)

func crashLine(stderr string) string {
	m := reCrash.FindString(stderr)
	if m == "" {
		return ""
	}
	return reHex.ReplaceAllString(m, "0x")
}

// exec1 executes one scenario in a fresh process.
func exec1(check string, class int, sc []byte) (*result, error) {
	f, err := os.CreateTemp(work, "sc*.json")
	if err != nil {
		return nil, err
	}
	defer os.Remove(f.Name())
	if _, err := f.Write(sc); err != nil {
		return nil, err
	}
	f.Close()
	c := cmd(check, class, "-exec", f.Name())
	var out bytes.Buffer
	var errb headBuf
	c.Stdout, c.Stderr = &out, &errb
	if err := c.Start(); err != nil {
		return nil, err
	}
	t := time.AfterFunc(90*time.Second, func() { c.Process.Kill() })
	err = c.Wait()
	if !t.Stop() {
		return nil, fmt.Errorf("an execution did not end within 90 s")
	}
	for _, l := range strings.Split(out.String(), "\n") {
		if strings.HasPrefix(l, "R ") {
			r := &result{}
			if e := json.Unmarshal([]byte(l[2:]), r); e != nil {
				return nil, e
			}
			return r, nil
		}
		if strings.HasPrefix(l, "ERROR") {
			return nil, fmt.Errorf("%s", l)
		}
	}
	if cl := crashLine(errb.b.String()); cl != "" {
		return &result{Viols: []viol{{"CRASH", "the process crashed: " + cl}}, crash: errb.b.String()}, nil
	}
	return nil, fmt.Errorf("worker ended without a result (%v): %.500s", err, errb.b.String())
}

type found struct {
	class    int
	start    uint64
	stride   uint64
	seed     uint64
	scenario []byte
	res      *result
}

// segment runs a worker for a while.
func segment(check string, class int, start, stride uint64, secs float64, kill <-chan struct{}) (*summary, *found, error) {
	c := cmd(check, class, "-check", check, "-class", strconv.Itoa(class), "-start", fmt.Sprint(start), "-stride", fmt.Sprint(stride), "-secs", fmt.Sprint(secs))
	var errb headBuf
	c.Stderr = &errb
	p, err := c.StdoutPipe()
	if err != nil {
		return nil, nil, err
	}
	if err := c.Start(); err != nil {
		return nil, nil, err
	}
	var mu sync.Mutex
	last := time.Now()
	stalled, killed := false, false
	done := make(chan struct{})
	go func() {
		tk := time.NewTicker(time.Second)
		defer tk.Stop()
		for {
			select {
			case <-done:
				return
			case <-kill:
				mu.Lock()
				killed = true
				mu.Unlock()
				c.Process.Kill()
				return
			case <-tk.C:
				mu.Lock()
				st := time.Since(last) > 60*time.Second
				if st {
					stalled = true
				}
				mu.Unlock()
				if st {
					c.Process.Kill()
					return
				}
			}
		}
	}()
	var sum *summary
	var fd *found
	cur, any := uint64(0), false
	var perr error
	rd := bufio.NewReaderSize(p, 1<<20)
	for {
		l, err := rd.ReadString('\n')
		if strings.HasPrefix(l, "S ") {
			cur, _ = strconv.ParseUint(strings.TrimSpace(l[2:]), 10, 64)
			any = true
			mu.Lock()
			last = time.Now()
			mu.Unlock()
		} else if strings.HasPrefix(l, "V {") {
			var v struct {
				Seed     uint64          `json:"seed"`
				Scenario json.RawMessage `json:"scenario"`
				Result   *result         `json:"result"`
			}
			if e := json.Unmarshal([]byte(l[2:]), &v); e != nil {
				perr = e
			} else {
				fd = &found{class, start, stride, v.Seed, v.Scenario, v.Result}
			}
		} else if strings.HasPrefix(l, "E {") {
			sum = &summary{}
			if e := json.Unmarshal([]byte(l[2:]), sum); e != nil {
				perr = e
			}
		} else if strings.HasPrefix(l, "ERROR") {
			perr = fmt.Errorf("%s", strings.TrimSpace(l))
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			break
		}
	}
	err = c.Wait()
	close(done)
	mu.Lock()
	defer mu.Unlock()
	if killed {
		return nil, nil, nil
	}
	if stalled {
		return nil, nil, fmt.Errorf("check %s class %d seed %d: no progress for 60 s", check, class, cur)
	}
	if perr != nil {
		return nil, nil, perr
	}
	if sum == nil {
		cl := crashLine(errb.b.String())
		if !any {
			cur = start
		}
		if cl == "" {
			return nil, nil, fmt.Errorf("worker failed (%v) at seed %d: %.800s", err, cur, errb.b.String())
		}
		return nil, &found{class, start, stride, cur, nil, &result{Viols: []viol{{"CRASH", "the process crashed: " + cl}}, crash: errb.b.String()}}, nil
	}
	return sum, fd, nil
}

func genScenario(check string, class int, seed uint64) ([]byte, error) {
	c := cmd(check, class, "-check", check, "-class", strconv.Itoa(class), "-start", fmt.Sprint(seed), "-gen")
	out, err := c.Output()
	if err != nil {
		return nil, err
	}
	for _, l := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(l, "G ") {
			return []byte(l[2:]), nil
		}
	}
	return nil, fmt.Errorf("no scenario generated")
}

type stats struct {
	sum       summary
	hashes    map[uint64]bool
	shapes    map[uint64]bool
	samples   []json.RawMessage
	workerSec float64
	segs      int
	probes    []probeAt
	classRuns map[int]int
}

type probeAt struct {
	probe
	class int
}

func (s *stats) add(x *summary, class int) {
	s.segs++
	s.classRuns[class] += x.Runs
	s.sum.Runs += x.Runs
	s.sum.NonTriv += x.NonTriv
	for k, v := range x.Feat {
		s.sum.Feat[k] += v
	}
	for k, v := range x.Known {
		s.sum.Known[k] += v
	}
	s.sum.SimNS += x.SimNS
	s.sum.Yields += x.Yields
	s.sum.Switches += x.Switches
	s.sum.Picks += x.Picks
	s.sum.Multi += x.Multi
	s.sum.Slow += x.Slow
	s.sum.Timers += x.Timers
	s.sum.Gor += x.Gor
	s.sum.Sims += x.Sims
	for _, h := range x.Hashes {
		s.hashes[h] = true
	}
	for _, h := range x.Shapes {
		s.shapes[h] = true
	}
	if x.Sample != nil && string(x.Sample) != "null" && len(s.samples) < 3 {
		s.samples = append(s.samples, x.Sample)
	}
	s.workerSec += float64(x.WallMS) / 1000
	for _, p := range x.Probes {
		s.probes = append(s.probes, probeAt{p, class})
	}
}

func explore(check string, base uint64, secs float64) (*stats, *found) {
	in := infos[check]
	st := &stats{hashes: map[uint64]bool{}, shapes: map[uint64]bool{}, classRuns: map[int]int{}}
	st.sum.Feat = map[string]int{}
	st.sum.Known = map[string]int{}
	const nw = 8
	// the classes in turn, as often as their weight says
	var order []int
	for c := 0; c < in.Classes; c++ {
		w := 1
		if c < len(in.Weights) {
			w = in.Weights[c]
		}
		for i := 0; i < w; i++ {
			order = append(order, c)
		}
	}
	seg := 12.0
	if in.Seg > 0 {
		seg = in.Seg
	}
	nseg := nw * int((secs+seg-0.1)/seg)
	if in.Classes > 1 && nseg < 2*len(order) {
		nseg = 2 * len(order)
	}
	nseg = (nseg + nw - 1) / nw * nw
	per := secs * nw / float64(nseg)
	kill := make(chan struct{})
	var once sync.Once
	var mu sync.Mutex
	var fd *found
	var ferr error
	jobs := make(chan int, nseg)
	for i := 0; i < nseg; i++ {
		jobs <- i
	}
	close(jobs)
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				select {
				case <-kill:
					return
				default:
				}
				cl := order[j%len(order)]
				s, f, err := segment(check, cl, base+uint64(j)*1000003, 1, per, kill)
				mu.Lock()
				if err != nil && ferr == nil {
					ferr = err
				}
				if s != nil {
					st.add(s, cl)
				}
				if f != nil && fd == nil {
					fd = f
				}
				stop := err != nil || f != nil
				mu.Unlock()
				if stop {
					once.Do(func() { close(kill) })
				}
			}
		}()
	}
	wg.Wait()
	if fd == nil && ferr != nil {
		die("%v", ferr)
	}
	return st, fd
}

// ---- confirmation and minimisation ----

var reNum = regexp.MustCompile(`\b[frthi]\d+[\w/#]*|\d+|"[^"]*"`)

func kindOf(v viol) string { return v.Rule + " " + reNum.ReplaceAllString(v.Msg, "#") }

func has(r *result, want viol, exact bool) bool {
	if r == nil || r.Invalid != "" {
		return false
	}
	for i, v := range r.Viols {
		if exact && kindOf(v) == kindOf(want) && i == 0 {
			return true
		}
		if !exact && v.Rule == want.Rule {
			return true
		}
	}
	return false
}

type obj = map[string]json.RawMessage

func setField(sc []byte, k string, v interface{}) []byte {
	var o obj
	if json.Unmarshal(sc, &o) != nil {
		return sc
	}
	b, _ := json.Marshal(v)
	o[k] = b
	b, _ = json.Marshal(o)
	return b
}

func shrinks(check string, class int, sc []byte) [][]byte {
	f := filepath.Join(work, "shrink.json")
	if os.WriteFile(f, sc, 0o600) != nil {
		return nil
	}
	out, err := cmd(check, class, "-shrink", f).Output()
	if err != nil {
		return nil
	}
	var l [][]byte
	for _, s := range bytes.Split(out, []byte("\n")) {
		if bytes.HasPrefix(s, []byte("C ")) {
			l = append(l, append([]byte(nil), s[2:]...))
		}
	}
	return l
}

func policy(sc []byte) int {
	var x struct {
		Sched struct {
			Policy    int               `json:"policy"`
			Decisions []json.RawMessage `json:"decisions"`
		} `json:"sched"`
	}
	json.Unmarshal(sc, &x)
	if x.Sched.Policy == 2 && len(x.Sched.Decisions) == 0 {
		return 3
	}
	return x.Sched.Policy
}

// minimise returns a simpler scenario with the same kind of violation.
func minimise(check string, class int, sc []byte, r *result, until time.Time) ([]byte, *result) {
	want := r.Viols[0]
	tried := map[[32]byte]bool{}
	try := func(cands [][]byte) ([]byte, *result, int) {
		type ans struct {
			i int
			r *result
		}
		var todo []int
		for i, c := range cands {
			h := sha256.Sum256(c)
			if !tried[h] {
				tried[h] = true
				todo = append(todo, i)
			}
		}
		for at := 0; at < len(todo); at += 8 {
			if time.Now().After(until) {
				return nil, nil, -1
			}
			end := at + 8
			if end > len(todo) {
				end = len(todo)
			}
			ch := make(chan ans, 8)
			for _, i := range todo[at:end] {
				go func(i int) {
					x, err := exec1(check, class, cands[i])
					if err != nil {
						x = nil
					}
					ch <- ans{i, x}
				}(i)
			}
			best := ans{-1, nil}
			for range todo[at:end] {
				if a := <-ch; has(a.r, want, true) && (best.i < 0 || a.i < best.i) {
					best = a
				}
			}
			if best.i >= 0 {
				return cands[best.i], best.r, best.i
			}
		}
		return nil, nil, -1
	}
	reduce := func() {
		for !time.Now().After(until) {
			cands := shrinks(check, class, sc)
			var more [][]byte
			if p := policy(sc); p == 0 || p == 1 || p == 4 {
				// the same simplification under other schedules
				for _, c := range cands {
					more = append(more, c)
					for k := uint64(1); k <= 3; k++ {
						more = append(more, setField(c, "seed", 7919*k+13))
					}
				}
			} else {
				more = cands
			}
			c, x, _ := try(more)
			if c == nil {
				return
			}
			sc, r = c, x
		}
	}
	reduce()
	if p := policy(sc); (p == 0 || p == 1 || p == 4) && len(r.Decisions) > 0 && !r.LogFull {
		// the schedule as the list of its deviations from the default one
		sched := map[string]interface{}{"policy": 2, "yieldPPM": 0, "mapPPM": 0, "changePPM": 0, "slowPPM": 0, "decisions": r.Decisions}
		c, x, _ := try([][]byte{setField(sc, "sched", sched)})
		if c != nil {
			sc, r = c, x
			reduce()
		}
	}
	return sc, r
}

type replay struct {
	Property  string          `json:"property"`
	Class     int             `json:"class"`
	Seed      uint64          `json:"seed"`
	VerifSeed uint64          `json:"verif_seed"`
	Mode      string          `json:"mode"` // scenario, or campaign: the seeds start..seed in one process
	Start     uint64          `json:"start,omitempty"`
	Viols     []viol          `json:"violations"`
	Trace     []string        `json:"trace,omitempty"`
	Crash     string          `json:"crash,omitempty"`
	Scenario  json.RawMessage `json:"scenario,omitempty"`
	Original  json.RawMessage `json:"original,omitempty"`
}

func confirm(check string, fd *found, vseed uint64, minTime time.Duration) *replay {
	sc := fd.scenario
	if sc == nil {
		var err error
		if sc, err = genScenario(check, fd.class, fd.seed); err != nil {
			die("%v", err)
		}
	}
	rp := &replay{Property: check, Class: fd.class, Seed: fd.seed, VerifSeed: vseed, Mode: "scenario"}
	r, err := exec1(check, fd.class, sc)
	if err != nil {
		die("seed %d: %v", fd.seed, err)
	}
	if has(r, fd.res.Viols[0], false) {
		rp.Original = sc
		rp.Scenario, r = minimise(check, fd.class, sc, r, time.Now().Add(minTime))
		rp.Viols, rp.Trace, rp.Crash = r.Viols, r.Trace, r.crash
		return rp
	}
	// it needs what earlier runs of the process left behind
	lo := fd.seed
	for back := uint64(1); ; back *= 2 {
		if lo = fd.seed - back; back > fd.seed-fd.start || fd.seed < back {
			lo = fd.start
		}
		_, f2, err := campaign(check, fd.class, lo, fd.seed)
		if err != nil {
			die("%v", err)
		}
		if f2 != nil && has(f2.res, fd.res.Viols[0], false) {
			rp.Mode, rp.Start, rp.Scenario = "campaign", lo, sc
			rp.Viols, rp.Trace, rp.Crash = f2.res.Viols, f2.res.Trace, f2.res.crash
			return rp
		}
		if lo == fd.start {
			break
		}
	}
	die("check %s class %d seed %d: %s: %s is not reproducible", check, fd.class, fd.seed, fd.res.Viols[0].Rule, fd.res.Viols[0].Msg)
	return nil
}

func campaign(check string, class int, start, seed uint64) (*summary, *found, error) {
	c := cmd(check, class, "-check", check, "-class", strconv.Itoa(class), "-start", fmt.Sprint(start), "-secs", "0", "-max", fmt.Sprint(seed-start+1))
	var out bytes.Buffer
	var errb headBuf
	c.Stdout, c.Stderr = &out, &errb
	if err := c.Start(); err != nil {
		return nil, nil, err
	}
	t := time.AfterFunc(240*time.Second, func() { c.Process.Kill() })
	c.Wait()
	if !t.Stop() {
		return nil, nil, fmt.Errorf("a repeated campaign did not end")
	}
	ended := false
	cur := uint64(0)
	for _, l := range strings.Split(out.String(), "\n") {
		if strings.HasPrefix(l, "S ") {
			cur, _ = strconv.ParseUint(l[2:], 10, 64)
		}
		if strings.HasPrefix(l, "V {") {
			var v struct {
				Seed     uint64          `json:"seed"`
				Scenario json.RawMessage `json:"scenario"`
				Result   *result         `json:"result"`
			}
			if e := json.Unmarshal([]byte(l[2:]), &v); e == nil {
				return nil, &found{class, start, 1, v.Seed, v.Scenario, v.Result}, nil
			}
		}
		ended = ended || strings.HasPrefix(l, "E {")
	}
	if !ended {
		if cl := crashLine(errb.b.String()); cl != "" {
			return nil, &found{class, start, 1, cur, nil, &result{Viols: []viol{{"CRASH", "the process crashed: " + cl}}, crash: errb.b.String()}}, nil
		}
	}
	return nil, nil, nil
}

// ---- reporting ----

func top(m map[string]int) map[string]int { return m }

func writeEvidence(check, tier string, vseed, base uint64, st *stats, violations int, probesSame, probesDone int) {
	in := infos[check]
	wall := time.Since(started).Seconds()
	faults := map[string]int{}
	for _, f := range in.Faults {
		faults[f] = st.sum.Feat[f]
	}
	faults["time advanced although work was ready (slow or stalled goroutine)"] = int(st.sum.Slow)
	faults["goroutine preempted at a statement"] = int(st.sum.Switches)
	perHour := 0.0
	if st.workerSec > 0 {
		perHour = float64(st.sum.Runs) / (st.workerSec / 8) * 3600
	}
	var samples []interface{}
	for _, s := range st.samples {
		samples = append(samples, s)
	}
	if len(samples) == 0 {
		samples = append(samples, fmt.Sprintf("check %s class 0 seed %d", check, base))
	}
	cov := map[string]interface{}{
		"evaluations":         st.sum.Runs,
		"distinct_nontrivial": len(st.hashes),
		"rule":                in.Rule + "; distinct: the hash of the whole schedule (every goroutine switch, its place and time) differs",
		"samples":             samples,
		"simulations":         st.sum.Sims,
		"distinct_histories":  len(st.shapes),
		"nontrivial_runs":     st.sum.NonTriv,
		"runs_per_hour":       int(perHour),
		"seeds":               fmt.Sprintf("%d.. in %d segments of consecutive seeds, 1000003 apart, over %d configuration classes", base, st.segs, in.Classes),
		"runs_per_class":      st.classRuns,
		"simulated_time_s":    float64(st.sum.SimNS) / 1e9,
		"faults_injected":     faults,
		"reached":             st.sum.Feat,
		"scheduling": map[string]interface{}{"statement_yield_points": st.sum.Yields, "preemptions": st.sum.Switches, "scheduler_picks": st.sum.Picks,
			"picks_with_a_choice": st.sum.Multi, "timer_advances": st.sum.Timers, "early_time_advances": st.sum.Slow, "goroutines": st.sum.Gor},
		"replay_probes":  map[string]int{"repeated_in_another_process": probesDone, "identical_schedule_and_history": probesSame},
		"components":     map[string]string{"real": in.Real, "stub": in.Stub},
		"known_findings": st.sum.Known,
	}
	ev := map[string]interface{}{
		"property": check, "tier": tier, "seed": vseed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"sampling: seeded search, not exhaustive",
			"preemption at statements of the repository's packages, at map writes and at every blocking operation of the Go runtime; not inside a statement or inside other packages' statements",
			"sequentially consistent memory (one goroutine runs at a time)",
		},
		"wall_s": wall, "violations": violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", check+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}

func checkCmd(check, tier string) int {
	in := infos[check]
	if in == nil {
		die("unknown check %q", check)
	}
	vseed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			die("VERIF_SEED: %v", err)
		}
		vseed = v
	}
	secs, minTime := 25.0, 60*time.Second
	if in.Secs > 0 {
		secs = float64(in.Secs)
	}
	if tier == "thorough" {
		secs, minTime = 600, 180*time.Second
	}
	if s := os.Getenv("VERIF_SECS"); s != "" {
		if v, err := strconv.ParseFloat(s, 64); err == nil {
			secs = v
		}
	}
	base := vseed * 1000000000
	fmt.Printf("check %s tier %s VERIF_SEED %d: seeds from %d, %.0f s\n", check, tier, vseed, base, secs)
	st, fd := explore(check, base, secs)
	if fd == nil {
		// repeat a few of the runs in processes of their own
		same, n := 0, 0
		if len(st.probes) > 0 {
			sort.Slice(st.probes, func(i, j int) bool { return st.probes[i].Seed < st.probes[j].Seed })
			for k := 0; k < 8 && k < len(st.probes); k++ {
				p := st.probes[k*len(st.probes)/8%len(st.probes)]
				sc, err := genScenario(check, p.class, p.Seed)
				if err != nil {
					die("%v", err)
				}
				r, err := exec1(check, p.class, sc)
				if err != nil {
					die("%v", err)
				}
				n++
				if r.Hash == p.Hash && r.Shape == p.Shape {
					same++
				}
			}
		}
		writeEvidence(check, tier, vseed, base, st, 0, same, n)
		for _, l := range knownLines(check) {
			fmt.Println(l)
		}
		fmt.Printf("%s: %d runs, %d distinct non-trivial, %.0f s simulated, %d/%d replay probes identical, no violation\n", check, st.sum.Runs, len(st.hashes), float64(st.sum.SimNS)/1e9, same, n)
		return 0
	}
	v := fd.res.Viols[0]
	fmt.Printf("seed %d class %d: %s: %s\n", fd.seed, fd.class, v.Rule, v.Msg)
	rp := confirm(check, fd, vseed, minTime)
	os.MkdirAll(filepath.Join(root, "replays"), 0o755)
	path := filepath.Join(root, "replays", fmt.Sprintf("%s-%d-%d.json", check, vseed, fd.seed))
	b, err := json.MarshalIndent(rp, "", " ")
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	writeEvidence(check, tier, vseed, base, st, 1, 0, 0)
	for _, v := range rp.Viols {
		fmt.Printf("  %s: %s\n", v.Rule, v.Msg)
	}
	for _, t := range rp.Trace {
		fmt.Println("   ", t)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", check, path)
	return 1
}

func knownLines(check string) []string {
	b, err := os.ReadFile(known)
	if err != nil {
		return nil
	}
	var f struct {
		Findings []struct{ Property, Status, What string }
	}
	if err := json.Unmarshal(b, &f); err != nil {
		die("%s: %v", known, err)
	}
	var l []string
	for _, k := range f.Findings {
		if k.Status == "known" && k.Property == check {
			l = append(l, fmt.Sprintf("KNOWN-FINDING: property=%s %s", check, k.What))
		}
	}
	return l
}

func replayCmd(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	rp := &replay{}
	if err := json.Unmarshal(b, rp); err != nil {
		die("%v", err)
	}
	var r *result
	if rp.Mode == "campaign" {
		_, fd, err := campaign(rp.Property, rp.Class, rp.Start, rp.Seed)
		if err != nil {
			die("%v", err)
		}
		r = &result{}
		if fd != nil {
			r = fd.res
		}
	} else {
		if r, err = exec1(rp.Property, rp.Class, rp.Scenario); err != nil {
			die("%v", err)
		}
	}
	for _, t := range r.Trace {
		fmt.Println("   ", t)
	}
	for _, v := range r.Viols {
		fmt.Printf("  %s: %s\n", v.Rule, v.Msg)
	}
	x, _ := json.Marshal(r.Viols)
	y, _ := json.Marshal(rp.Viols)
	if len(r.Viols) == 0 {
		fmt.Println("replay: no violation")
		return 0
	}
	if bytes.Equal(x, y) {
		fmt.Println("replay: the same violations as recorded")
	} else {
		fmt.Println("replay: other violations than recorded")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, file)
	return 1
}

// selftest executes seeds of every check twice, in processes of their own and
// within a campaign, and compares schedule and history.
func selftest(n int) int {
	bad := 0
	var ids []string
	for id := range infos {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		for cl := 0; cl < infos[id].Classes; cl++ {
			type hs struct{ a, b uint64 }
			sem := make(chan bool, 8)
			var mu sync.Mutex
			var wg sync.WaitGroup
			diff := 0
			for k := 0; k < n; k++ {
				wg.Add(1)
				sem <- true
				go func(k int) {
					defer func() { <-sem; wg.Done() }()
					sc, err := genScenario(id, cl, uint64(500000+k))
					if err != nil {
						die("%v", err)
					}
					var got []hs
					for i := 0; i < 2; i++ {
						r, err := exec1(id, cl, sc)
						if err != nil {
							die("%s class %d seed %d: %v", id, cl, 500000+k, err)
						}
						got = append(got, hs{r.Hash, r.Shape})
					}
					if got[0] != got[1] {
						mu.Lock()
						diff++
						fmt.Printf("%s class %d seed %d differs\n", id, cl, 500000+k)
						mu.Unlock()
					}
				}(k)
			}
			wg.Wait()
			fmt.Printf("%s class %d: %d seeds twice, %d differ\n", id, cl, n, diff)
			bad += diff
		}
	}
	if bad > 0 {
		return 2
	}
	return 0
}

func main() {
	if len(os.Args) < 2 || root == "" || work == "" {
		die("usage: check ID [quick|thorough] | replay FILE | setup | selftest [N]")
	}
	c := exec.Command(worker, "-info")
	c.Env = envFor("", 0)
	out, err := c.Output()
	if err != nil {
		die("worker -info: %v", err)
	}
	var l []*info
	if !bytes.HasPrefix(out, []byte("I ")) || json.Unmarshal(out[2:], &l) != nil {
		die("worker -info: %.200s", out)
	}
	for _, i := range l {
		infos[i.ID] = i
	}
	switch os.Args[1] {
	case "setup":
		fmt.Println("built,", len(l), "checks")
	case "replay":
		if len(os.Args) < 3 {
			die("replay FILE")
		}
		os.Exit(replayCmd(os.Args[2]))
	case "selftest":
		n := 20
		if len(os.Args) > 2 {
			n, _ = strconv.Atoi(os.Args[2])
		}
		os.Exit(selftest(n))
	default:
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 2 {
			tier = os.Args[2]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(checkCmd(os.Args[1], tier))
	}
}
