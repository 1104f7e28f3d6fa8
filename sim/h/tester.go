package h

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"regexp"
	"strings"
	"time"

	"github.com/project-flogo/core/support/service"
	"github.com/project-flogo/flow/tester"
)

// ---- network ----

// simNet is the network between the clients and the service.
type simNet struct {
	l *simListener
}

type simListener struct {
	addr   string
	in     chan net.Conn
	done   chan struct{}
	closed bool
}

func (n *simNet) listen(network, addr string) (net.Listener, error) {
	if n.l != nil && !n.l.closed {
		return nil, errors.New("address already in use")
	}
	n.l = &simListener{addr: addr, in: make(chan net.Conn), done: make(chan struct{})}
	return n.l, nil
}

func (l *simListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.in:
		return c, nil
	case <-l.done:
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l, Err: net.ErrClosed}
	}
}
func (l *simListener) Close() error {
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l, Err: net.ErrClosed}
	}
	l.closed = true
	close(l.done)
	return nil
}
func (l *simListener) Addr() net.Addr  { return l }
func (l *simListener) Network() string { return "tcp" }
func (l *simListener) String() string  { return l.addr }

// simConn is the service's end of a connection.
type simConn struct {
	net.Conn
	addr simAddr
}

// clientConn is the client's end; what it is sent is buffered.
type clientConn struct {
	net.Conn
	ch   chan []byte
	rest []byte
}

func (c *clientConn) pump() {
	b := make([]byte, 4096)
	for {
		n, err := c.Conn.Read(b)
		if n > 0 {
			c.ch <- append([]byte{}, b[:n]...)
		}
		if err != nil {
			close(c.ch)
			return
		}
	}
}

func (c *clientConn) Read(p []byte) (int, error) {
	if len(c.rest) == 0 {
		b, ok := <-c.ch
		if !ok {
			return 0, io.EOF
		}
		c.rest = b
	}
	n := copy(p, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

func (c *simConn) LocalAddr() net.Addr  { return simAddr("10.0.0.1:9190") }
func (c *simConn) RemoteAddr() net.Addr { return c.addr }

var errNoConn = errors.New("connection refused")

func (n *simNet) dial(i int) (net.Conn, error) {
	if n.l == nil || n.l.closed {
		return nil, errNoConn
	}
	a, b := net.Pipe()
	select {
	case n.l.in <- &simConn{b, simAddr(fmt.Sprintf("10.0.0.2:%d", 40000+i))}:
		c := &clientConn{Conn: a, ch: make(chan []byte, 1000)}
		go c.pump()
		return c, nil
	case <-n.l.done:
		return nil, errNoConn
	}
}

// ---- requests ----

// HTTPReq is one request to the tester service.
type HTTPReq struct {
	Conn  int    `json:"conn"`           // connection; its requests follow each other
	At    int64  `json:"at,omitempty"`   // pause before
	Kind  string `json:"kind"`           // start restart resume status options badpath badmethod
	Run   int    `json:"run"`            // start: run (-1: none)
	Body  string `json:"body,omitempty"` // what is wrong with it
	Send  string `json:"send,omitempty"` // how it is transmitted
	Pos   uint32 `json:"pos,omitempty"`
	Val   uint32 `json:"val,omitempty"`
	Stall int64  `json:"stall,omitempty"`
}

// TesterSpec is the check-specific part of a scenario.
type TesterSpec struct {
	Reqs []*HTTPReq `json:"reqs"`
	Stop int64      `json:"stop,omitempty"` // the service is stopped at this time
}

type httpRes struct {
	q        *HTTPReq
	i        int
	refused  bool // no connection
	sent     int
	body     []byte
	all      bool // completely sent
	over     bool // on a connection used before; the service was stopped before it was answered
	late     bool // sent after the service had been stopped, on a connection used before
	quit     bool // the client doesn't wait for the response
	status   int
	resp     []byte
	begun    bool
	fin      bool
	err      string // no (valid) response
	sentAt   int64
	skipped  bool
	original string
}

type testerRun struct {
	x              *X
	w              *World
	o              *Watch
	c              *crasher
	sp             *TesterSpec
	net            *simNet
	svc            service.Service
	res            []*httpRes
	extra          []*httpRes // continued instances
	conns          []net.Conn
	n              int
	stop, stopping bool // Stop has returned, was called
	state          [][]byte
	ended          bool
	probe          string
	hang           chan bool
}

var reTok = regexp.MustCompile(`\br(\d+)`)

func (t *testerRun) runBody(run int, key string) map[string]interface{} {
	r := t.x.Sc.Runs[run]
	in := map[string]interface{}{"tok": fmt.Sprintf("r%d", run)}
	if r.In0 != "" {
		in["in0"] = r.In0
	}
	m := map[string]interface{}{"flowUri": t.x.URI(r.Flow), key: in}
	if ic := t.x.Sc.interceptor(run); ic != nil {
		m["interceptor"] = ic
	}
	return m
}

// wildState is the state of an instance with damages; what it executes isn't predicted.
func (t *testerRun) wildState(q *HTTPReq) interface{} {
	if len(t.state) == 0 {
		return map[string]interface{}{}
	}
	b := reTok.ReplaceAll(t.state[int(q.Val>>8)%len(t.state)], []byte("w$1"))
	def := map[string]interface{}{}
	_ = json.Unmarshal(b, &def)
	if id, _ := def["id"].(string); len(id) > 1 { // not that of the real one
		b = bytes.ReplaceAll(b, []byte(id), []byte("w"+id[1:]))
		def = map[string]interface{}{}
		_ = json.Unmarshal(b, &def)
	}
	if q.Body == "damaged" {
		damage(def, &OnDemand{Fault: []string{"value", "drop", "dup", "swap"}[q.Val%4], Pos: q.Pos, Val: q.Val >> 2})
	}
	return def
}

// body of a request
func (t *testerRun) body(q *HTTPReq) []byte {
	var v interface{}
	switch q.Kind {
	case "start":
		m := map[string]interface{}{"flowUri": t.x.URI(0), "attrs": map[string]interface{}{"tok": "w9"}}
		if q.Run >= 0 {
			key := "data"
			if q.Val%2 == 0 {
				key = "attrs"
			}
			m = t.runBody(q.Run, key)
		}
		switch q.Body {
		case "unknownflow":
			m["flowUri"] = "res://flow:nothere"
		case "noflow":
			delete(m, "flowUri")
		case "emptyflow":
			m["flowUri"] = ""
		case "badscheme":
			m["flowUri"] = "nothing"
		case "wrongtype":
			k := []string{"flowUri", "attrs", "interceptor", "patch"}[q.Val>>1%4]
			m[k] = 17
		case "badintc":
			i := map[string]interface{}{"id": "f0t0", "type": 1 + q.Val%4, "skip": true, "skipExecution": true,
				"inputs":     map[string]interface{}{"in": []interface{}{"w9/x"}},
				"outputs":    map[string]interface{}{"val": "w"},
				"assertions": []interface{}{map[string]interface{}{"id": 1, "name": "a", "type": 1, "expression": "=$activity[f0t0].val == 1"}}}
			m["interceptor"] = map[string]interface{}{"tasks": []interface{}{i}, "coverage": map[string]interface{}{}, "collectIO": true}
			m["patch"] = map[string]interface{}{"tasks": []interface{}{map[string]interface{}{"id": "f0t0", "input": map[string]interface{}{"in": "=1"}}}}
			root := map[string]interface{}{"interceptor": m["interceptor"], "patch": m["patch"]}
			damage(root, &OnDemand{Fault: []string{"value", "drop", "dup", "swap"}[q.Val>>2%4], Pos: q.Pos, Val: q.Val >> 4})
			m["interceptor"], m["patch"] = root["interceptor"], root["patch"]
		}
		v = m
	case "restart", "resume":
		key := map[string]string{"restart": "initialState", "resume": "state"}[q.Kind]
		m := map[string]interface{}{}
		switch q.Body {
		case "nostate":
		case "nullstate":
			m[key] = nil
		case "emptystate":
			m[key] = map[string]interface{}{}
		case "unknownflow":
			m[key] = map[string]interface{}{"id": "w0", "status": 100, "flowUri": "res://flow:nothere"}
		case "noid":
			st := map[string]interface{}{"status": 100, "flowUri": t.x.URI(0)}
			if q.Val%2 == 0 {
				st["id"] = ""
			}
			m[key] = st
		case "wrongtype":
			m[key] = []interface{}{17, "x", []interface{}{}, true}[q.Val%4]
		default:
			m[key] = t.wildState(q)
		}
		v = m
	default:
		return nil
	}
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	switch q.Body {
	case "empty":
		b = nil
	case "null":
		b = []byte("null")
	case "array":
		b = []byte("[]")
	case "trunc":
		b = b[:int(q.Pos)%len(b)]
	case "garbage":
		p := int(q.Pos) % (len(b) - 1)
		b = append(append(append([]byte{}, b[:p]...), []string{"\x00", "\xff\"", "]}", "{{"}[q.Val%4]...), b[p:]...)
	}
	return b
}

func (q *HTTPReq) target() (method, path string) {
	switch q.Kind {
	case "start", "restart", "resume":
		return "POST", "/flow/" + q.Kind
	case "options":
		return "OPTIONS", []string{"/flow/start", "/flow/restart", "/flow/resume", "/status"}[q.Val%4]
	case "badpath":
		return "POST", []string{"/flow/stop", "/", "/flow/start/x", "/flow"}[q.Val%4]
	case "badmethod":
		return "GET", []string{"/flow/start", "/flow/restart", "/flow/resume"}[q.Val%3]
	}
	return "GET", "/status"
}

// send transmits the request; false: the connection isn't usable any more.
func (t *testerRun) send(c net.Conn, r *httpRes) bool {
	q := r.q
	m, p := q.target()
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: tester\r\n", m, p)
	if r.body != nil {
		b.WriteString("Content-Type: application/json\r\n")
	}
	head := 0
	if q.Send == "chunked" && len(r.body) > 0 {
		b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		head = b.Len()
		k := 1 + int(q.Pos)%len(r.body)
		for i := 0; i < len(r.body); i += k {
			e := i + k
			if e > len(r.body) {
				e = len(r.body)
			}
			fmt.Fprintf(&b, "%x\r\n%s\r\n", e-i, r.body[i:e])
		}
		b.WriteString("0\r\n\r\n")
	} else {
		if m == "POST" {
			fmt.Fprintf(&b, "Content-Length: %d\r\n", len(r.body))
		}
		b.WriteString("\r\n")
		head = b.Len()
		b.Write(r.body)
	}
	raw := b.Bytes()
	write := func(p []byte) bool {
		n, err := c.Write(p)
		r.sent += n
		return err == nil
	}
	ok := true
	switch q.Send {
	case "cut":
		ok = write(raw[:1+int(q.Pos)%(len(raw)-1)])
		if q.Stall > 0 {
			time.Sleep(time.Duration(q.Stall))
		}
		r.quit = true
	case "stall":
		k := 1 + int(q.Pos)%(len(raw)-1)
		ok = write(raw[:k])
		time.Sleep(time.Duration(q.Stall))
		ok = ok && write(raw[k:])
	case "hang": // until nothing else happens
		k := 1 + int(q.Pos)%(len(raw)-1)
		ok = write(raw[:k])
		hold()
		t.w.Add(Ev{K: "hanging", Run: -1, Kind: fmt.Sprintf("#%d %s", r.i, r.q.Kind)})
		release()
		<-t.hang
		ok = ok && write(raw[k:])
	case "slow":
		k := 1 + len(raw)/(2+int(q.Pos)%6)
		for i := 0; i < len(raw) && ok; i += k {
			e := i + k
			if e > len(raw) {
				e = len(raw)
			}
			ok = write(raw[i:e])
			time.Sleep(time.Duration(q.Stall))
		}
	default:
		ok = write(raw)
		r.quit = q.Send == "leave"
	}
	r.all = r.sent == len(raw)
	if r.sent > head {
		r.sent -= head
	} else {
		r.sent = 0
	}
	if r.quit {
		if q.Send == "leave" && q.Stall > 0 {
			time.Sleep(time.Duration(q.Stall))
		}
		c.Close()
		return false
	}
	return true // there may be a response although the rest of the request isn't read
}

// receive reads the response.
func (t *testerRun) receive(br *bufio.Reader, r *httpRes) bool {
	m, _ := r.q.target()
	resp, err := http.ReadResponse(br, &http.Request{Method: m})
	if err != nil {
		r.err = err.Error()
		return false
	}
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		r.err = err.Error()
		return false
	}
	r.status, r.resp = resp.StatusCode, b
	hold()
	t.w.Add(Ev{K: "response", Run: -1, Kind: fmt.Sprintf("#%d %s %d", r.i, r.q.Kind, r.status), Exec: strings.TrimSpace(string(b))})
	release()
	return !resp.Close
}

// client sends the requests of one connection.
func (t *testerRun) client(reqs []*httpRes) {
	var c net.Conn
	var br *bufio.Reader
	used := false
	for _, r := range reqs {
		if r.q.At > 0 {
			time.Sleep(time.Duration(r.q.At))
		}
		r.body = t.body(r.q)
		if c == nil {
			hold()
			stop := t.stop
			t.n++
			n := t.n
			release()
			nc, err := t.net.dial(n)
			hold()
			if err != nil {
				r.refused = true
				if !t.net.l.closed {
					t.x.V("C19", "request %d: %v although the service is running", r.i, err)
				}
				release()
				continue
			}
			if stop {
				t.x.V("C19", "request %d: the service accepts a connection after it was stopped", r.i)
			}
			t.conns = append(t.conns, nc)
			release()
			c, br, used = nc, bufio.NewReader(nc), false
		}
		hold()
		r.begun = true
		r.late = t.stop && used
		r.sentAt = int64(len(t.w.Log))
		// a request that is complete is executed, even if the client doesn't wait
		if r.q.Kind == "start" && r.q.Run >= 0 && r.q.Body == "" && r.q.Send != "cut" && r.q.Send != "leave" && !r.late && !t.net.l.closed {
			t.w.Add(Ev{K: "begin", Run: r.q.Run})
		}
		release()
		ok := t.send(c, r)
		if ok {
			ok = t.receive(br, r) && r.all
		}
		hold()
		r.fin = true
		r.over = (used || r.q.Send == "hang") && t.stopping
		release()
		used = true
		if !ok {
			c.Close()
			c = nil
		}
	}
	if c != nil && len(reqs) > 0 && reqs[len(reqs)-1].q.Val%3 == 0 {
		// stays open, until the end
		return
	}
	if c != nil {
		c.Close()
	}
}

// post continues a lost instance by a request.
func (t *testerRun) post(p *CrashPt, id string, run int, b []byte, data map[string]interface{}) bool {
	key := map[string]string{"restart": "initialState", "resume": "state"}[p.Op]
	r := &httpRes{q: &HTTPReq{Kind: p.Op}, i: 1000 + len(t.extra), original: id}
	body := map[string]interface{}{key: json.RawMessage(b)}
	if data != nil {
		body["data"] = data
	}
	if run >= 0 {
		if ic := t.x.Sc.interceptor(run); ic != nil {
			body["interceptor"] = ic
			t.x.Feat("interceptor supplied again", 1)
		}
	}
	r.body, _ = json.Marshal(body)
	hold()
	t.n++
	n := t.n
	release()
	c, err := t.net.dial(n)
	if err != nil {
		return false
	}
	hold()
	t.conns = append(t.conns, c)
	t.extra = append(t.extra, r)
	t.x.Feat("continued by request", 1)
	release()
	if t.send(c, r) {
		t.receive(bufio.NewReader(c), r)
	}
	c.Close()
	return true
}

// hung: nothing happens any more, except that some requests haven't been transmitted completely.
func (t *testerRun) hung() {
	for _, r := range t.res {
		if r.begun && !r.fin && r.q.Send != "hang" {
			t.probe = fmt.Sprintf("request %d (%s %s) isn't answered while other requests are being transmitted", r.i, r.q.Kind, r.q.Body)
		}
	}
	t.x.atEnd = t.end
	close(t.hang)
}

// end: nothing happens any more; the service must still answer, and then stop.
func (t *testerRun) end() {
	if !t.stop {
		r := &httpRes{q: &HTTPReq{Kind: "status"}, i: 2000}
		hold()
		t.n++
		n := t.n
		release()
		c, err := t.net.dial(n)
		if err != nil {
			t.probe = "the service doesn't accept connections any more"
		} else {
			if t.send(c, r) {
				t.receive(bufio.NewReader(c), r)
			}
			c.Close()
			if r.status != 200 || !strings.Contains(string(r.resp), `"ok"`) {
				t.probe = fmt.Sprintf("the service doesn't answer any more: %d %s %s", r.status, r.resp, r.err)
			}
		}
		if err := t.svc.Stop(); err != nil {
			t.probe = fmt.Sprintf("stopping the service fails: %v", err)
		}
	}
	for _, c := range t.conns {
		c.Close()
	}
	t.ended = true
}

func testerExec(x *X) {
	sp := &TesterSpec{}
	if err := json.Unmarshal(x.Sc.Extra, sp); err != nil {
		x.Res.Invalid = err.Error()
		return
	}
	if !x.Deploy() {
		return
	}
	w := NewWorld(x.Sc)
	w.Stray = func(tok string) bool { return !strings.HasPrefix(tok, "r") }
	o := NewWatch(w, x.Sc.Obs)
	t := &testerRun{x: x, w: w, o: o, sp: sp, net: &simNet{}}
	t.c = newCrasher(x, w, o)
	t.c.post = t.post
	t.c.peek = func(b []byte) { t.state = append(t.state, b) }
	var err error
	t.svc, err = (&tester.FlowTesterFactory{}).NewService(&service.Config{Settings: map[string]interface{}{"port": 9190}})
	if err != nil {
		x.V("C19", "no service: %v", err)
		return
	}
	conns := map[int][]*httpRes{}
	var order []int
	seen := map[int]bool{}
	for i, q := range sp.Reqs {
		if q.Kind == "start" && q.Run >= 0 {
			if q.Run >= len(x.Sc.Runs) || seen[q.Run] {
				x.Res.Invalid = "run"
				return
			}
			seen[q.Run] = true
		}
		r := &httpRes{q: q, i: i}
		t.res = append(t.res, r)
		if conns[q.Conn] == nil {
			order = append(order, q.Conn)
		}
		conns[q.Conn] = append(conns[q.Conn], r)
	}
	for _, r := range x.Sc.Runs {
		if !r.HTTP {
			x.Res.Invalid = "run"
			return
		}
	}
	net.SimListen = t.net.listen
	defer func() { net.SimListen = nil }()
	o.Attach()
	defer o.Detach()
	W = w
	t.hang = make(chan bool)
	x.atEnd = t.hung
	x.Sim(func() {
		if err := t.svc.Start(); err != nil {
			x.V("C19", "the service doesn't start: %v", err)
			return
		}
		for _, k := range order {
			go t.client(conns[k])
		}
		if sp.Stop > 0 {
			time.Sleep(time.Duration(sp.Stop))
			hold()
			t.stopping = true
			release()
			if err := t.svc.Stop(); err != nil {
				x.V("C19", "stopping the service fails: %v", err)
			}
			hold()
			t.stop = true
			t.w.Add(Ev{K: "stopped", Run: -1})
			release()
		}
	})
	t.judge()
}

func (t *testerRun) judge() {
	x, w := t.x, t.w
	full := append([]Ev{}, w.Log...)
	defer func() {
		if len(x.Res.Viols) > 0 {
			x.Res.Trace = Pretty(full)
			for _, r := range append(append([]*httpRes{}, t.res...), t.extra...) {
				x.Res.Trace = append(x.Res.Trace, fmt.Sprintf("request %d %s: %.1500s -> %d %.300s %s", r.i, Canon(r.q), r.body, r.status, r.resp, r.err))
			}
		}
	}()
	v := func(f string, a ...interface{}) { x.V("C19", f, a...) }
	if t.probe != "" {
		v("%s", t.probe)
	}
	if !t.ended && !x.Res.Hung {
		v("the service doesn't come to rest")
	}
	// instances started
	starts := map[string]int{}
	for _, e := range t.o.Rec {
		if e.K == "start" {
			starts[e.Inst]++
		}
	}
	hosts := map[string]string{} // token -> instance
	ran := map[int]bool{}
	for _, e := range w.Log {
		if e.Tok != "" {
			ran[e.Run] = true
		}
		if e.K == "start" && !strings.Contains(e.Tok, "/") && hosts[e.Tok] == "" {
			hosts[e.Tok] = e.Host
		}
	}
	mayRun := map[int]bool{}
	claimed := map[string]int{}
	for _, r := range append(append([]*httpRes{}, t.res...), t.extra...) {
		q := r.q
		x.Feat("requests", 1)
		x.Feat("request: "+q.Kind, 1)
		if q.Kind == "start" && q.Run >= 0 && x.Sc.interceptor(q.Run) != nil {
			x.Feat("interceptor supplied", 1)
		}
		if q.Body != "" {
			x.Feat("request fault: "+q.Body, 1)
		}
		if q.Send != "" {
			x.Feat("request sent: "+q.Send, 1)
		}
		if r.refused {
			x.Feat("refused after stop", 1)
			continue
		}
		name := fmt.Sprintf("request %d (%s %s)", r.i, q.Kind, q.Body)
		if r.late {
			x.Feat("request after stop", 1)
			if r.status != 0 {
				v("%s: accepted after the service was stopped", name)
			}
			continue
		}
		// is what was sent a request?
		complete := r.all
		if !complete && q.Kind == "start" {
			sent := r.body
			if r.sent < len(sent) {
				sent = sent[:r.sent]
			}
			complete = json.NewDecoder(bytes.NewReader(sent)).Decode(new(interface{})) == nil
		}
		if q.Kind == "start" && q.Run >= 0 && q.Body == "" && complete {
			mayRun[q.Run] = r.status != 0 || !r.over || ran[q.Run]
		}
		if r.quit {
			x.Feat("client left", 1)
			if r.status == 0 {
				continue
			}
		}
		if r.status == 0 {
			if r.over || t.sp.Stop > 0 && !r.all {
				continue
			}
			v("%s: no response (%s)", name, r.err)
			continue
		}
		x.Feat(fmt.Sprintf("response %d", r.status), 1)
		want := 400
		switch q.Kind {
		case "status", "options":
			want = 200
		case "start", "restart", "resume":
			switch q.Body {
			case "":
				want = 200
			case "damaged", "badintc", "state":
				want = 0
			case "garbage", "trunc":
				if json.NewDecoder(bytes.NewReader(r.body)).Decode(new(interface{})) == nil {
					want = 0
				}
			}
		}
		switch {
		case want == 200 && r.status != 200:
			v("%s: response %d %.200s", name, r.status, r.resp)
		case want == 400 && (r.status < 400 || r.status > 499):
			v("%s: response %d %.200s, expected a client error", name, r.status, r.resp)
		case want == 0 && r.status != 200 && (r.status < 400 || r.status > 499):
			v("%s: response %d %.200s", name, r.status, r.resp)
		}
		if r.status != 200 {
			continue
		}
		switch q.Kind {
		case "status":
			var s struct{ Status string }
			if json.Unmarshal(r.resp, &s) != nil || s.Status != "ok" {
				v("%s: response %.200s", name, r.resp)
			}
		case "start", "restart", "resume":
			var s struct{ ID string }
			if json.Unmarshal(r.resp, &s) != nil || s.ID == "" {
				v("%s: success reported without an instance: %.200q", name, r.resp)
				continue
			}
			if starts[s.ID] == 0 {
				v("%s: success reported with instance %q, which wasn't started", name, s.ID)
			}
			if q.Kind != "resume" {
				claimed[s.ID]++
				if claimed[s.ID] > 1 {
					v("%s: instance %q is reported for several requests", name, s.ID)
				}
			}
			if q.Kind == "start" && q.Run >= 0 && q.Body == "" {
				if h := hosts[fmt.Sprintf("r%d", q.Run)]; h != "" && h != s.ID && len(t.c.lives) == 0 {
					v("%s: instance %q reported, %q executes the request", name, s.ID, h)
				}
			}
			if r.original != "" && q.Kind == "resume" && s.ID != r.original {
				v("%s: instance %q resumed, %q reported", name, r.original, s.ID)
			}
		}
	}
	for _, r := range t.extra {
		var s struct{ ID string }
		if r.q.Kind == "restart" && r.status == 200 && json.Unmarshal(r.resp, &s) == nil && s.ID != "" {
			t.c.alias[s.ID] = t.c.origin(r.original, r.original)
		}
	}
	// what the engine did with the accepted ones
	var log []Ev
	began := map[int]bool{}
	for _, e := range w.Log {
		switch e.K {
		case "crash", "response", "stopped", "hanging":
			continue
		case "begin":
			if !mayRun[e.Run] {
				continue
			}
		}
		if e.Tok != "" && !mayRun[e.Run] {
			v("%s executes although its request isn't valid", e.Exec)
			break
		}
		began[e.Run] = true
		e.Args = append([]string{}, e.Args...)
		for id, old := range t.c.alias {
			if e.K == "start" && strings.HasPrefix(e.Host, id) {
				e.Host = t.c.origin(e.Host, id)
				for _, a := range e.Args {
					if strings.Contains(a, old) {
						v("%s: reads %s, which is the ID of the instance it is restarted from", e.Exec, a)
					}
				}
			}
			for i, a := range e.Args {
				e.Args[i] = strings.Replace(a, id, old, 1)
			}
		}
		log = append(log, e)
	}
	w.Log = log
	m := NewModel(x.Sc)
	x.Judge(w, m)
	w.Log = full
	for k, n := range t.o.n {
		x.Feat(k, n)
	}
}

func testerGen(seed uint64, class int) *Scenario {
	r := NewRng(seed ^ 0xC19)
	p := Profile{Conc: 20, Flows: 2, Tasks: 4, MinTasks: 1, Fail: 6, EH: 25, Sub: 15, Det: 3, Loop: 10, Retry: 5, Ret: 4, Reply: 2, BadMap: 2, ErrLink: 10, Refs: 2, Any: 3, Runs: 4, Lat: 30, NoID: 100, Width: 15}
	sc := Gen("C19", seed, &p)
	intc := r.P(20)
	if intc {
		sc = genInterceptors(seed, class)
		sc.Check = "C19"
	}
	sc.ClassIx = class
	sc.Obs = Obs{Recorder: true, Mode: "full"}
	wild := true
	for _, f := range sc.Flows {
		for _, g := range []*Graph{f.Body, f.EH} {
			if g == nil {
				continue
			}
			for _, t := range g.Tasks {
				if t.Loop != nil && isWhile(t.Loop) { // it could be made endless
					wild = false
				}
			}
		}
	}
	sp := &TesterSpec{}
	ms := func(n int) int64 { return int64(r.N(n)) * 1000000 }
	for i, run := range sc.Runs {
		run.HTTP, run.ID, run.Event, run.RetID, run.At = true, "", "", false, 0
		q := &HTTPReq{Conn: r.N(3), Kind: "start", Run: i, Val: uint32(r.N(1 << 20)), Pos: uint32(r.N(1 << 20))}
		if r.P(50) {
			q.At = ms(100)
		}
		sp.Reqs = append(sp.Reqs, q)
	}
	for n := r.N(6); n > 0; n-- {
		q := &HTTPReq{Conn: r.N(5), Kind: r.Pick("start", "start", "restart", "restart", "resume", "resume", "status", "options", "badpath", "badmethod"), Run: -1, Val: uint32(r.N(1 << 20)), Pos: uint32(r.N(1 << 20))}
		if r.P(50) {
			q.At = ms(200)
		}
		switch q.Kind {
		case "start":
			q.Body = r.Pick("unknownflow", "noflow", "emptyflow", "badscheme", "wrongtype", "empty", "null", "array", "trunc", "garbage", "badintc")
			if q.Body == "badintc" && !wild {
				q.Body = "null"
			}
		case "restart", "resume":
			q.Body = r.Pick("nostate", "nullstate", "emptystate", "unknownflow", "wrongtype", "empty", "null", "array", "trunc", "garbage", "state", "state")
			if q.Kind == "resume" && q.Body == "nullstate" {
				q.Body = "noid"
			}
			if !wild && (q.Body == "state" || q.Body == "garbage" || q.Body == "trunc") {
				q.Body = "nullstate"
			}
			if sc.Conc && q.Body != "wrongtype" {
				q.Body = "nullstate"
			}
		}
		sp.Reqs = append(sp.Reqs, q)
	}
	for i := len(sp.Reqs) - 1; i > 0; i-- {
		j := r.N(i + 1)
		sp.Reqs[i], sp.Reqs[j] = sp.Reqs[j], sp.Reqs[i]
	}
	for _, q := range sp.Reqs {
		if r.P(45) {
			q.Send = r.Pick("cut", "stall", "slow", "chunked", "leave", "hang")
			if r.P(70) {
				q.Stall = ms(300)
			}
		}
	}
	if r.P(25) {
		sp.Stop = 1 + ms(400)
	}
	if !sc.Conc {
		for n, k := 0, r.N(6); k > 0; k-- {
			n += 1 + r.N(6)
			c := &CrashPt{N: n, Op: r.Pick("peek", "peek", "restart", "resume")}
			if r.P(60) {
				c.Delay = ms(500)
			}
			c.Data = r.P(40)
			sc.Crash = append(sc.Crash, c)
		}
	}
	sc.Extra, _ = json.Marshal(sp)
	return sc
}

func testerShrink(s *Scenario) []*Scenario {
	var out []*Scenario
	mod := func(f func(sp *TesterSpec)) {
		sp := &TesterSpec{}
		if json.Unmarshal(s.Extra, sp) != nil {
			return
		}
		f(sp)
		c := s.Clone()
		c.Extra, _ = json.Marshal(sp)
		out = append(out, c)
	}
	sp := &TesterSpec{}
	_ = json.Unmarshal(s.Extra, sp)
	for i, q := range sp.Reqs {
		i := i
		mod(func(sp *TesterSpec) { sp.Reqs = append(sp.Reqs[:i], sp.Reqs[i+1:]...) })
		if q.Send != "" {
			mod(func(sp *TesterSpec) { sp.Reqs[i].Send, sp.Reqs[i].Stall = "", 0 })
		}
		if q.At != 0 {
			mod(func(sp *TesterSpec) { sp.Reqs[i].At = 0 })
		}
	}
	if sp.Stop != 0 {
		mod(func(sp *TesterSpec) { sp.Stop = 0 })
	}
	return append(out, restartShrink(s)...)
}

func init() {
	register(&Check{ID: "C19", Seg: 2, Warm: 12, Real: "flow tester service, net/http server and client codec, " + realAll, Stub: "activities' work (simulated activity), clients, network, state recorder service, engine bootstrap (init context)",
		Classes: []Class{{Recorder: true, Mode: "full"}},
		Gen:     testerGen,
		Exec:    testerExec,
		Shrink:  testerShrink,
		Rule:    "requests to the tester service on several connections: valid, malformed, cut, stalled, with damaged states, and lost instances continued by requests; non-trivial: a request was answered with an error, cut or came from a client that left, while valid ones were executed",
		NonTriv: feat("response 400", "response 404", "response 405", "client left", "continued by request", "request after stop", "refused after stop"),
		Faults:  []string{"request sent: cut", "request sent: stall", "request sent: slow", "request sent: leave", "request sent: hang", "request sent: chunked", "request fault: trunc", "request fault: garbage", "request fault: damaged", "request fault: badintc", "request fault: unknownflow", "crash", "continued by request"},
	})
}
