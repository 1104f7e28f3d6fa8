package h

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/project-flogo/core/action"
	"github.com/project-flogo/flow/instance"
)

// Flows published at a file or web location (C14).

// Remote: where the definition of a flow is published and what goes wrong when it is read.
type Remote struct {
	Kind   string   `json:"kind"` // file, http; never readable: badhttp, badscheme, nofile
	Gz     bool     `json:"gz,omitempty"`
	Style  int      `json:"style,omitempty"`  // how it is compressed
	Faults []*Fetch `json:"faults,omitempty"` // http: by request; file: successive contents
	After  string   `json:"after,omitempty"`  // file: its content once it has been loaded
	Addr   string   `json:"addr,omitempty"`   // query, case: only these distinguish its location from those of others
}

// Fetch is what one request encounters, or what the file contains until At.
type Fetch struct {
	// refused, timeout, reset, cut, short, garbage, empty, null, array, html, status, flag, badmeta, badtask, gone,
	// moved, ok
	Kind  string `json:"kind"`
	Pos   uint32 `json:"pos,omitempty"`
	Val   uint32 `json:"val,omitempty"`
	Delay int64  `json:"delay,omitempty"`
	At    int64  `json:"at,omitempty"`
}

func (f *Fetch) good() bool { return f.Kind == "ok" || f.Kind == "moved" }

// content is what is delivered: the published bytes, those of something else, or part of it.
func (rm *Remote) content(def []byte, f *Fetch) []byte {
	pack := func(b []byte) []byte {
		if !rm.Gz {
			return b
		}
		var buf bytes.Buffer
		lvl := []int{gzip.DefaultCompression, gzip.BestSpeed, gzip.NoCompression, gzip.HuffmanOnly}[rm.Style%4]
		zw, err := gzip.NewWriterLevel(&buf, lvl)
		if err != nil {
			panic(err)
		}
		if rm.Style&4 != 0 {
			zw.Name, zw.Comment, zw.ModTime = "flow.json", "published", time.Unix(1500000000, 0)
		}
		if rm.Style&8 != 0 && len(b) > 2 { // in several pieces
			_, _ = zw.Write(b[:len(b)/2])
			_ = zw.Flush()
			_, _ = zw.Write(b[len(b)/2:])
		} else if rm.Style&16 != 0 && len(b) > 2 { // of several members
			_, _ = zw.Write(b[:len(b)/3])
			_ = zw.Close()
			zw.Reset(&buf)
			_, _ = zw.Write(b[len(b)/3:])
		} else {
			_, _ = zw.Write(b)
		}
		_ = zw.Close()
		if rm.Kind == "http" {
			return []byte(base64.StdEncoding.EncodeToString(buf.Bytes()))
		}
		return buf.Bytes()
	}
	switch f.Kind {
	case "null":
		return pack([]byte("null"))
	case "array":
		return pack([]byte(`[{"name":"x"}]`))
	case "html":
		return pack([]byte("<html><body>Not the flow</body></html>"))
	case "badmeta", "badtask", "other":
		var m map[string]interface{}
		if err := json.Unmarshal(def, &m); err != nil {
			panic(err)
		}
		switch f.Kind {
		case "badmeta":
			m["metadata"] = map[string]interface{}{"input": []interface{}{nil}}
		case "badtask":
			m["tasks"] = []interface{}{map[string]interface{}{"id": "x", "activity": map[string]interface{}{"ref": "nosuch/activity"}}}
		default:
			m = map[string]interface{}{"name": "other", "tasks": []interface{}{}}
		}
		b, _ := json.Marshal(m)
		return pack(b)
	case "empty":
		return nil
	}
	b := pack(def)
	switch f.Kind {
	case "short", "cut", "reset":
		return b[:int(f.Pos)%len(b)]
	case "garbage":
		p := int(f.Pos) % len(b)
		if rm.Gz {
			n := append([]byte{}, b...)
			if rm.Kind == "http" {
				n[p] = "ABcd01+/"[f.Val%8]
			} else {
				n[p] ^= byte(1 + f.Val%255)
			}
			if rm.reads(n, def) {
				return b[:len(b)/2] // it can't be noticed
			}
			return n
		}
		n := append(append(append([]byte{}, b[:p]...), []string{"\x00", "\xff\"", "]}", "{{"}[f.Val%4]...), b[p:]...)
		if json.Valid(n) { // it can't be noticed
			n[p] = 0
		}
		return n
	case "flag": // the compressed one announced as plain or the other way round
		return b
	}
	return b
}

// reads: b is still the compressed form of def.
func (rm *Remote) reads(b, def []byte) bool {
	if rm.Kind == "http" {
		d := make([]byte, len(b))
		n, _ := base64.StdEncoding.Decode(d, b)
		b = d[:n]
	}
	zr, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return false
	}
	o, err := io.ReadAll(zr)
	return err == nil && bytes.Equal(o, def)
}

// server is the simulated network.
type server struct {
	x    *X
	w    *World
	path map[string]int
	n    map[int]int // requests so far
	bad  []string
}

var errRefused = errors.New("connection refused")

func snooze(ctx context.Context, d int64) error {
	if d <= 0 {
		return ctx.Err()
	}
	t := time.NewTimer(time.Duration(d))
	defer t.Stop()
	select {
	case <-t.C:
		return ctx.Err()
	case <-ctx.Done():
		return ctx.Err()
	}
}

// req is one request in progress.
type req struct {
	s   *server
	id  int
	i   int
	end bool
}

func (q *req) done() {
	if !q.end {
		q.end = true
		q.s.w.Add(Ev{K: "resp", Run: -1, X: q.id, Kind: fmt.Sprint(q.i)})
	}
}

type respBody struct {
	q   *req
	ctx context.Context
	b   []byte
	f   *Fetch
	mid int
	err error
}

func (b *respBody) Read(p []byte) (int, error) {
	if len(b.b) <= b.mid && b.f.Delay > 0 && b.f.Val%2 == 1 {
		d := b.f.Delay
		b.mid = -1
		if err := snooze(b.ctx, d); err != nil {
			b.q.done()
			return 0, err
		}
	}
	if len(b.b) == 0 {
		b.q.done()
		return 0, b.err
	}
	n := len(b.b)
	if b.mid > 0 && n > b.mid {
		n -= b.mid
	}
	if n > 700 {
		n = 700
	}
	n = copy(p, b.b[:n])
	b.b = b.b[n:]
	return n, nil
}

func (b *respBody) Close() error {
	b.q.done()
	return nil
}

func (s *server) RoundTrip(r *http.Request) (*http.Response, error) {
	hold()
	i, ok := s.path[r.URL.RequestURI()]
	f := &Fetch{Kind: "ok"}
	n := 0
	moved := strings.HasPrefix(r.URL.Path, "/m")
	if moved {
		i, ok = s.path[r.URL.RequestURI()[2:]]
	}
	if ok && !moved {
		n = s.n[i]
		s.n[i]++
		if fs := s.x.Sc.Flows[i].Remote.Faults; n < len(fs) {
			f = fs[n]
		}
	}
	q := &req{s: s, i: i, id: n}
	release()
	if !ok || r.Method != "GET" || r.URL.Scheme != "http" || r.URL.Host != "flows.test" {
		s.w.fault("unexpected request %s %s", r.Method, r.URL)
		return nil, errRefused
	}
	if !moved {
		ev := Ev{K: "req", Run: -1, X: n, Kind: fmt.Sprint(i)}
		if !f.good() {
			ev.IsErr, ev.Err = true, f.Kind
		}
		s.w.Add(ev)
	} else {
		q.end = true
	}
	if f.Val%2 == 0 {
		if err := snooze(r.Context(), f.Delay); err != nil {
			q.done()
			return nil, err
		}
	}
	rm := s.x.Sc.Flows[i].Remote
	resp := &http.Response{Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: r}
	if rm.Gz != (f.Kind == "flag") {
		resp.Header.Set("flow-compressed", []string{"true", "True", "TRUE"}[rm.Style%3])
	} else if rm.Style&4 != 0 {
		resp.Header.Set("flow-compressed", "false")
	}
	switch f.Kind {
	case "refused", "timeout":
		q.done()
		return nil, errRefused
	case "status":
		c := []int{300, 304, 400, 401, 403, 404, 408, 410, 429, 500, 502, 503, 504}[f.Pos%13]
		resp.StatusCode, resp.Status = c, fmt.Sprintf("%d X", c)
	case "moved":
		resp.StatusCode, resp.Status = 302, "302 Found"
		resp.Header.Set("Location", "/m"+r.URL.RequestURI())
	}
	b := rm.content(s.x.pubs[i], f)
	resp.ContentLength = int64(len(b))
	body := &respBody{q: q, ctx: r.Context(), b: b, f: f, mid: len(b) / 2, err: io.EOF}
	switch f.Kind {
	case "cut":
		resp.ContentLength = int64(len(rm.content(s.x.pubs[i], &Fetch{Kind: "ok"})))
		body.err = io.ErrUnexpectedEOF
	case "reset":
		resp.ContentLength = -1
		body.err = errors.New("connection reset by peer")
	case "moved":
		body.b = nil
		resp.ContentLength = 0
	}
	resp.Body = body
	return resp, nil
}

// remoteURI is where flow i is published; it is another one in each execution, as loaded flows are kept by the process.
func (x *X) remoteURI(i int) string {
	rm := x.Sc.Flows[i].Remote
	name := fmt.Sprintf("%s_%06d_f%d", x.base, x.exec, i)
	if rm.Addr == "case" {
		b := []byte("flow")
		for k := range b {
			if i>>k&1 == 1 {
				b[k] -= 'a' - 'A'
			}
		}
		name = fmt.Sprintf("%s_%06d_%s", x.base, x.exec, b)
	}
	switch rm.Kind {
	case "file", "nofile":
		return "file:///proc/self/cwd/" + name + ".json" // always the same path

	case "http":
		if rm.Addr == "query" {
			return fmt.Sprintf("http://flows.test/%s_%06d?id=f%d", x.base, x.exec, i)
		}
		return "http://flows.test/" + name
	case "badhttp":
		return "http://flows.test:no port/" + name
	}
	return "ftp://flows.test/" + name
}

// put changes the file of flow i.
func (x *X) put(w *World, i int, f *Fetch) {
	p := filepath.Join(x.dir, filepath.Base(x.remoteURI(i)))
	if f.Kind == "gone" {
		_ = os.Remove(p)
	} else {
		if err := os.WriteFile(p+".new", x.Sc.Flows[i].Remote.content(x.pubs[i], f), 0600); err != nil {
			w.fault("harness: %v", err)
		}
		if err := os.Rename(p+".new", p); err != nil {
			w.fault("harness: %v", err)
		}
	}
	e := Ev{K: "file", Run: -1, Kind: fmt.Sprint(i)}
	if f.Kind != "ok" {
		e.IsErr, e.Err = true, f.Kind
	}
	w.Add(e)
}

var (
	execNo int
)

// RemoteExec executes the scenario, whose flows are loaded from where they are published.
func RemoteExec(x *X) {
	execNo++
	x.exec = execNo
	cwd, err := os.Getwd()
	if err == nil {
		x.dir, err = os.MkdirTemp(os.Getenv("VERIF_WORK"), "vsim")
	}
	if err == nil {
		err = os.Chdir(x.dir)
	}
	if err != nil {
		panic(err)
	}
	defer func() {
		_ = os.Chdir(cwd)
		_ = os.RemoveAll(x.dir)
	}()
	w := NewWorld(x.Sc)
	srv := &server{x: x, w: w, path: map[string]int{}, n: map[int]int{}}
	for i, f := range x.Sc.Flows {
		x.pubs = append(x.pubs, x.Sc.Def(i, x.URI))
		if f.Remote == nil {
			continue
		}
		if f.Remote.Kind == "http" {
			srv.path[strings.TrimPrefix(x.remoteURI(i), "http://flows.test")] = i
		}
	}
	old := http.DefaultTransport
	http.DefaultTransport = srv
	defer func() { http.DefaultTransport = old }()
	W = w
	loaded := map[int]bool{}
	failed := false
	x.Sim(func() {
		for i, f := range x.Sc.Flows {
			if f.Remote == nil || f.Remote.Kind != "file" {
				continue
			}
			i, f := i, f
			fs := append(append([]*Fetch{}, f.Remote.Faults...), &Fetch{Kind: "ok"})
			x.put(w, i, fs[0])
			if len(fs) > 1 {
				go func() {
					for k := 1; k < len(fs); k++ {
						time.Sleep(time.Duration(fs[k-1].At))
						hold()
						if !loaded[i] {
							x.put(w, i, fs[k])
						}
						release()
					}
				}()
			}
		}
		if !x.Deploy() {
			failed = true
			return
		}
		for i := range x.Sc.Runs {
			i := i
			go func() {
				if at := x.Sc.Runs[i].At; at > 0 {
					time.Sleep(time.Duration(at))
				}
				x.startRemote(w, i, loaded)
			}()
		}
	})
	if failed || x.Res.Hung {
		x.Res.Trace = Pretty(w.Log)
		return
	}
	x.judgeLoads(w)
	var rest []Ev
	for _, e := range w.Log {
		if e.Run >= 0 && e.Run < len(x.Sc.Runs) && e.K != "load" && x.refusals[e.Run] {
			continue
		}
		rest = append(rest, e)
	}
	full := w.Log
	w.Log = rest
	x.Judge(w, NewModel(x.Sc))
	if len(x.Res.Viols) > 0 {
		x.Res.Trace = Pretty(full)
	}
}

func (x *X) startRemote(w *World, i int, loaded map[int]bool) {
	r := x.Sc.Runs[i]
	w.Add(Ev{K: "load", Run: i})
	a, err := func() (a action.Action, err error) {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("panic: %v", p)
				w.Add(Ev{K: "loadpanic", Run: i, Err: err.Error(), IsErr: true})
			}
		}()
		return action.GetFactory(FlowRef).New(&action.Config{Settings: map[string]interface{}{"flowURI": x.URI(r.Flow)}})
	}()
	if err != nil {
		w.Add(Ev{K: "refused", Run: i, Err: err.Error(), IsErr: true})
		return
	}
	hold()
	if rm := x.Sc.Flows[r.Flow].Remote; !loaded[r.Flow] && rm != nil && rm.Kind == "file" && rm.After != "" {
		x.put(w, r.Flow, &Fetch{Kind: rm.After})
	}
	loaded[r.Flow] = true
	release()
	w.Add(Ev{K: "loaded", Run: i})
	x.StartRun(w, i, a.(action.AsyncAction), func(ro *instance.RunOptions) {})
}

// judgeLoads compares refusals with what happened when the definitions were read.
func (x *X) judgeLoads(w *World) {
	type fetch struct {
		flow       int
		g          uint32
		start, end int
		bad        bool
	}
	var fs []*fetch
	open := map[string]*fetch{}
	state := map[int]bool{} // files: bad
	x.refusals = map[int]bool{}
	begun := map[int]int{}
	loadedAt := map[int]int{}
	fetched := map[int]int{}
	answered := map[int]bool{}
	type fstate struct {
		at  int
		bad bool
	}
	files := map[int][]fstate{}
	for k := range w.Log {
		e := &w.Log[k]
		flow := 0
		_, _ = fmt.Sscan(e.Kind, &flow)
		switch e.K {
		case "req":
			if at, ok := loadedAt[flow]; ok {
				x.V("C14", "flow %d is requested again at %d, it was loaded by %d", flow, k, at)
			}
			f := &fetch{flow: flow, g: e.G, start: k, end: len(w.Log), bad: e.IsErr}
			for _, o := range fs {
				if o.flow == flow && o.end > k && !o.bad && !f.bad {
					x.V("C14", "flow %d is requested twice at the same time", flow)
				}
			}
			fs = append(fs, f)
			open[fmt.Sprint(flow, e.X)] = f
			x.Feat("requests", 1)
			if e.IsErr {
				x.Feat("load fault: "+e.Err, 1)
			}
		case "resp":
			if f := open[fmt.Sprint(flow, e.X)]; f != nil {
				f.end = k
				if !f.bad {
					fetched[flow]++
					if fetched[flow] > 1 {
						x.V("C14", "flow %d was fetched %d times", flow, fetched[flow])
					}
				}
			}
		case "file":
			state[flow] = e.IsErr
			files[flow] = append(files[flow], fstate{k, e.IsErr})
			if e.IsErr {
				x.Feat("file fault: "+e.Err, 1)
			}
		case "load":
			begun[e.Run] = k
		case "loadpanic":
			x.V("C14", "run %d: loading the flow panics: %s", e.Run, e.Err)
		case "loaded":
			answered[e.Run] = true
			f := x.Sc.Runs[e.Run].Flow
			rm := x.Sc.Flows[f].Remote
			x.Feat("loads", 1)
			if _, ok := loadedAt[f]; !ok && rm != nil {
				ok := rm.Kind == "http" && fetched[f] > 0
				if rm.Kind == "file" {
					for j, s := range files[f] {
						ok = ok || !s.bad && (j+1 == len(files[f]) || files[f][j+1].at > begun[e.Run])
					}
				}
				if !ok {
					x.V("C14", "run %d starts although flow %d could not be read", e.Run, f)
				}
			}
			if _, ok := loadedAt[f]; !ok {
				loadedAt[f] = k
			}
		case "refused":
			answered[e.Run] = true
			x.refusals[e.Run] = true
			f := x.Sc.Runs[e.Run].Flow
			rm := x.Sc.Flows[f].Remote
			x.Feat("start refused", 1)
			ok := rm != nil && (rm.Kind == "badhttp" || rm.Kind == "badscheme" || rm.Kind == "nofile")
			if rm != nil && rm.Kind == "file" {
				for j, s := range files[f] {
					ok = ok || s.bad && (j+1 == len(files[f]) || files[f][j+1].at > begun[e.Run])
				}
			}
			for _, o := range fs {
				ok = ok || o.bad && o.end > begun[e.Run] && (o.flow == f || o.g == e.G)
			}
			if at, l := loadedAt[f]; l && at < begun[e.Run] {
				ok = false
			}
			if !ok {
				x.V("C14", "run %d is refused although flow %d can be read: %s", e.Run, f, e.Err)
			}
		}
	}
	for i := range x.Sc.Runs {
		if _, ok := begun[i]; ok && !answered[i] {
			x.V("C14", "run %d: loading the flow never ends", i)
			x.refusals[i] = true
		}
	}
	for i := range x.Sc.Runs {
		if _, ok := begun[i]; !ok {
			x.V("C14", "run %d never begins", i)
		}
	}
}

// loadFails: the flow invoked by the execution that just read its inputs can't be loaded.
func (m *Model) loadFails(e *Ev, flow int) bool {
	rm := m.sc.Flows[flow].Remote
	if rm == nil {
		return false
	}
	switch rm.Kind {
	case "badhttp", "badscheme", "nofile":
		return true
	case "file":
		return false
	}
	bad := false
	for k := m.i + 1; k < len(m.log); k++ {
		o := &m.log[k]
		if o.G != e.G {
			continue
		}
		switch o.K {
		case "req":
			if o.Kind == fmt.Sprint(flow) {
				bad = o.IsErr
			}
		case "resp", "file":
		default:
			return bad && !m.seen(e.Exec+"/")
		}
	}
	return bad && !m.seen(e.Exec+"/")
}

// seen: something happens in the instance (another start may have loaded its flow in the meantime).
func (m *Model) seen(prefix string) bool {
	for k := m.i + 1; k < len(m.log); k++ {
		if strings.HasPrefix(m.log[k].Exec, prefix) {
			return true
		}
	}
	return false
}

// genRemote: flows published at files and web locations that are read with faults.
func genRemote(seed uint64, class int) *Scenario {
	p := Profile{Conc: 25, Prio: 20, Flows: 4, Tasks: 4, MinTasks: 1, Fail: 5, EH: 35, Sub: 35, Det: 6, Loop: 10, Retry: 8, Ret: 3, ErrLink: 20, Refs: 2, Runs: 5, Lat: 30, Empty: 3, NoID: 30, Event: 20, Width: 15}
	sc := Gen("C14", seed, &p)
	sc.ClassIx = class
	r := NewRng(seed ^ 0x14)
	invoked := map[int]bool{}
	sc.tasks(func(_ *Flow, _ *Graph, t *Task) {
		if t.Kind == "sub" || t.Kind == "det" {
			invoked[t.Flow] = true
		}
	})
	span := int64(1 + r.N(4000))
	for _, run := range sc.Runs {
		run.ID = ""
		run.RetID = true
		if r.P(60) {
			run.At = int64(r.N(3)) * span * int64(time.Millisecond) / 2
		}
	}
	failing := !sc.Conc || !hasReturn(sc)
	addr := r.Pick("", "query", "case")
	for i, f := range sc.Flows {
		if r.P(15) {
			continue
		}
		rm := &Remote{Kind: r.Pick("file", "http", "http"), Gz: r.P(50), Style: r.N(32), Addr: addr}
		f.Remote = rm
		if r.P(4) && (!invoked[i] || failing) {
			rm.Kind = r.Pick("badhttp", "badscheme", "nofile")
			continue
		}
		if rm.Kind == "file" {
			rm.After = r.Pick("", "gone", "other", "null", "short")
			if invoked[i] {
				rm.After = ""
				continue
			}
		} else if invoked[i] && !failing {
			continue
		}
		if r.P(20) {
			continue
		}
		for n := 1 + r.N(3); n > 0; n-- {
			ft := &Fetch{Pos: uint32(r.N(1 << 20)), Val: uint32(r.N(1 << 20))}
			if rm.Kind == "file" {
				ft.Kind = r.Pick("gone", "short", "short", "garbage", "garbage", "empty", "null", "array", "html", "badmeta", "badtask")
				ft.At = int64(r.N(3)) * span * int64(time.Millisecond) / 2
			} else {
				ft.Kind = r.Pick("refused", "timeout", "reset", "cut", "short", "garbage", "garbage", "empty", "null", "array", "html", "status", "status", "flag", "badmeta", "badtask", "moved", "ok")
				if r.P(50) {
					ft.Delay = int64(r.N(1500)) * int64(time.Millisecond)
				}
				if ft.Kind == "timeout" {
					ft.Delay = int64(10+r.N(600)) * int64(time.Second)
				}
				if ft.Kind == "flag" && rm.Gz {
					ft.Pos = 0
				}
			}
			if ft.Kind == "badtask" && len(f.Body.Tasks) == 0 {
				// whether it was read again by another instance couldn't be seen, see loadFails
				ft.Kind = "garbage"
			}
			rm.Faults = append(rm.Faults, ft)
			if ft.good() {
				break
			}
		}
	}
	return sc
}

func hasReturn(sc *Scenario) bool {
	ret := false
	sc.tasks(func(_ *Flow, _ *Graph, t *Task) { ret = ret || t.Kind == "ret" })
	return ret
}
