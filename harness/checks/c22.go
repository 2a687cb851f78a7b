package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"net/http"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/coder/websocket"
	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// op22 is one step. Everything a step leads to on the connections which are not affected is there at once, without
// time passing.
type op22 struct {
	K   string
	C   int    `json:",omitempty"` // connection
	T   string `json:",omitempty"` // connect: transport
	P   string `json:",omitempty"` // connect: protocol
	G   int    `json:",omitempty"` // group
	N   int    `json:",omitempty"`
	To  int    `json:",omitempty"` // connection
	Sz  int    `json:",omitempty"`
	B   bool   `json:",omitempty"` // connect: OnConnected does not return. close: OnDisconnected does not return
	How string `json:",omitempty"`
}

type sc22 struct {
	Hub   string // transient perconn
	Cap   int    // StreamBufferCapacity
	Web   bool   // there is a HTTP server
	Ops   []op22
	Yield uint64 `json:",omitempty"`
}

type conn22 struct {
	n      int
	id     string
	t, p   string
	raw    *Raw // pipe
	srv    *End
	mem    *MemConn // the server's end of the connection the server writes to
	cli    *MemConn
	ws     *WS
	sse    *SSE
	mx     sync.Mutex
	buf    []byte // net: what was received
	post   func(p []byte) error
	off    int
	state  string // good bad gone
	next   int    // invocation id
	joined map[int]bool
}

type x22 struct {
	c       *eng.C
	b       *B
	s       sc22
	srv     signalr.Server
	web     *Web
	rec     *Rec
	conns   []*conn22
	mx      sync.Mutex
	onStop  map[string]bool // lifecycle events which do not return
	offStop map[string]bool
	block   chan struct{}
	notes   int
	stuck   int             // requests whose answers are not read
	facStop map[string]bool // whose hubs are not made
	noted   bool            // notes are sent to good connections while others are bad
}

type hub22 struct {
	signalr.Hub
	x *x22
}

func (h *hub22) stop(m map[string]bool, id string) {
	h.x.mx.Lock()
	s := m[id]
	h.x.mx.Unlock()
	if s {
		<-h.x.block
	}
}

func (h *hub22) OnConnected(id string) {
	h.x.rec.Add("on", id)
	h.stop(h.x.onStop, id)
}
func (h *hub22) OnDisconnected(id string) {
	h.x.rec.Add("off", id)
	h.stop(h.x.offStop, id)
}
func (h *hub22) Echo(s string) string { return s }
func (h *hub22) Fail() error          { return errors.New("failed") }
func (h *hub22) Pull(n int) <-chan int {
	ch := make(chan int)
	go func() {
		defer close(ch)
		for i := 0; i < n; i++ {
			select {
			case ch <- i:
			case <-h.x.block:
				return
			}
		}
	}()
	return ch
}
func (h *hub22) Push(ch <-chan int) int {
	n := 0
	for range ch {
		n++
	}
	return n
}
func (h *hub22) Hold(ch <-chan int) { <-h.x.block }
func (h *hub22) Block(s string) string {
	h.x.rec.Add("block", h.ConnectionID(), s)
	<-h.x.block
	return s
}
func (h *hub22) Endless(n int) <-chan string {
	ch := make(chan string)
	go func() {
		defer close(ch)
		for {
			select {
			case ch <- strings.Repeat("x", n):
				time.Sleep(10 * time.Millisecond)
			case <-h.x.block:
				return
			}
		}
	}()
	return ch
}
func (h *hub22) Join(g string)                       { h.Groups().AddToGroup(g, h.ConnectionID()) }
func (h *hub22) Leave(g string)                      { h.Groups().RemoveFromGroup(g, h.ConnectionID()) }
func (h *hub22) ToAll(n int, s string)               { h.Clients().All().Send("Note", n, s) }
func (h *hub22) ToGroup(g string, n int, s string)   { h.Clients().Group(g).Send("Note", n, s) }
func (h *hub22) ToClient(id string, n int, s string) { h.Clients().Client(id).Send("Note", n, s) }
func (h *hub22) ToCaller(n int, s string)            { h.Clients().Caller().Send("Note", n, s) }
func (h *hub22) AddOther(g string, id string)        { h.Groups().AddToGroup(g, id) }

func (x *x22) httpFor(got func(c, s *MemConn)) *http.Client {
	tr := &http.Transport{DisableCompression: true, DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) {
		c, s, err := x.web.DialBoth(ctx)
		if err != nil {
			return nil, err
		}
		got(c, s)
		return c, nil
	}}
	x.b.Cleanup(tr.CloseIdleConnections)
	return &http.Client{Transport: tr}
}

// connect opens a connection without shaking hands.
func (x *x22) connect(o op22) (*conn22, error) {
	cn := &conn22{n: len(x.conns), t: o.T, p: o.P, joined: map[int]bool{}, state: "good"}
	b := x.b
	switch o.T {
	case "pipe":
		cn.id = fmt.Sprintf("c%d", cn.n)
		s, c := NewPipe(b.Ctx, cn.id, cn.id+"-peer")
		cn.raw, cn.srv = &Raw{End: c, Proto: o.P}, s
	case "net":
		cn.mem, cn.cli = nil, nil
		s, c := NewMemPipe()
		cn.mem, cn.cli = s, c
		conn := signalr.NewNetConnection(b.Ctx, s)
		cn.id = conn.ConnectionID()
		go func() {
			p := make([]byte, 1<<14)
			for {
				n, err := c.Read(p)
				cn.mx.Lock()
				cn.buf = append(cn.buf, p[:n]...)
				cn.mx.Unlock()
				if err != nil {
					return
				}
			}
		}()
		b.Cleanup(func() { _ = c.Close() })
		x.prepare(cn, o)
		Serve(x.srv, conn)
		return cn, nil
	case "ws", "sse":
		if x.web == nil {
			return nil, eng.Discard
		}
		st, body, _, err := x.web.Request(b.Ctx, "POST", "/hub/negotiate", nil, nil)
		var n struct{ ConnectionID string }
		if err != nil || st != 200 || json.Unmarshal(body, &n) != nil {
			return nil, eng.Errf("negotiation: %d %v %s", st, err, body)
		}
		cn.id = n.ConnectionID
		hc := x.httpFor(func(c, s *MemConn) { cn.cli, cn.mem = c, s })
		if o.T == "ws" {
			w := *x.web
			w.Client = hc
			ws, st, err := w.DialWS(b.Ctx, esc19(cn.id), nil, websocket.CompressionDisabled)
			if ws == nil {
				return nil, eng.Errf("WebSocket: %d %v", st, err)
			}
			cn.ws = ws
		} else {
			w := *x.web
			w.Client = hc
			sse, st, err := w.OpenSSE(b.Ctx, esc19(cn.id))
			if sse == nil {
				return nil, eng.Errf("event stream: %d %v", st, err)
			}
			cn.sse = sse
			b.Cleanup(sse.Close)
			pc := x.httpFor(func(c, s *MemConn) {})
			busy := make(chan struct{}, 1)
			cn.post = func(p []byte) error {
				w := *x.web
				w.Client = pc
				// one POST after the other
				go func() {
					busy <- struct{}{}
					_, _, _, _ = w.Request(b.Ctx, "POST", "/hub"+esc19(cn.id), nil, bytes.NewReader(p))
					<-busy
				}()
				return nil
			}
		}
	default:
		return nil, eng.Discard
	}
	x.prepare(cn, o)
	if o.T == "pipe" {
		Serve(x.srv, cn.srv)
		b.Cleanup(func() { cn.raw.CloseWith(nil) })
	}
	return cn, nil
}

func (x *x22) prepare(cn *conn22, o op22) {
	x.mx.Lock()
	switch {
	case o.K == "connectbad" && o.How == "factory":
		x.facStop[cn.id] = true
	case o.B:
		x.onStop[cn.id] = true
	}
	x.mx.Unlock()
}

func (cn *conn22) write(b *B, p []byte) {
	switch cn.t {
	case "pipe":
		_, _ = cn.raw.Write(p)
	case "net":
		_, _ = cn.cli.Write(p)
	case "ws":
		cn.writeWS(b, p)
	case "sse":
		_ = cn.post(p)
	}
	b.Wait()
	if cn.t == "sse" && cn.state == "good" {
		b.Sleep(60 * time.Millisecond)
	}
}

func (cn *conn22) writeWS(b *B, p []byte) {
	typ := websocket.MessageText
	if cn.p != "json" {
		typ = websocket.MessageBinary
	}
	go func() { _ = cn.ws.Conn.Write(b.Ctx, typ, p) }()
}

func (cn *conn22) send(b *B, ms ...Msg) {
	var p []byte
	for _, m := range ms {
		p = append(p, Encode(cn.p, m, Style{})...)
	}
	cn.write(b, p)
}

func (cn *conn22) got() ([]byte, error) {
	switch cn.t {
	case "pipe":
		cn.raw.Drain()
		return cn.raw.Received(), nil
	case "net":
		cn.mx.Lock()
		defer cn.mx.Unlock()
		return append([]byte{}, cn.buf...), nil
	case "ws":
		return cn.ws.Got()
	}
	return cn.sse.Got()
}

// news returns what a good connection received, without pings.
func (cn *conn22) news() ([]Msg, error) {
	p, err := cn.got()
	if err != nil {
		return nil, eng.Errf("the connection has ended: %v", err)
	}
	ms, rest, err := DecodeAll(cn.p, p[cn.off:])
	cn.off = len(p) - len(rest)
	if err != nil || len(rest) > 0 {
		return nil, eng.Errf("receives %q (%v)", clip(string(p)), err)
	}
	var l []Msg
	for _, m := range ms {
		if m.Type != 6 {
			m.Raw, m.At = nil, time.Time{}
			l = append(l, m)
		}
	}
	return l, nil
}

// settle compares what all good connections have received with what they should have.
func (x *x22) settle(what string, want map[int][]string) error {
	x.b.Wait()
	for _, cn := range x.conns {
		if cn.state != "good" {
			continue
		}
		ms, err := cn.news()
		if err != nil {
			return eng.Errf("%s: connection %d (%s): %v", what, cn.n, cn.t, err)
		}
		var got []string
		for _, m := range ms {
			switch m.Type {
			case 1:
				s, _ := m.Args[len(m.Args)-1].(string)
				if m.Target != "Note" || len(m.Args) != 2 {
					return eng.Errf("%s: connection %d (%s) receives %v", what, cn.n, cn.t, m)
				}
				got = append(got, fmt.Sprintf("note %v %d", num22(m.Args[0]), len(s)))
			case 2:
				got = append(got, fmt.Sprintf("item %s %v", m.ID, num22(m.Item)))
			case 3:
				got = append(got, fmt.Sprintf("done %s %v %q", m.ID, num22(m.Result), m.Error))
			default:
				return eng.Errf("%s: connection %d (%s) receives %v", what, cn.n, cn.t, m)
			}
		}
		w := append([]string{}, want[cn.n]...)
		sort.Strings(got)
		sort.Strings(w)
		if !reflect.DeepEqual(got, w) && len(got)+len(w) > 0 {
			return eng.Errf("%s: connection %d (%s %s, good) has received at once %s instead of %s", what, cn.n, cn.t, cn.p, clip(got), clip(w))
		}
	}
	return nil
}

func num22(v any) any {
	switch n := v.(type) {
	case string, nil:
		return v
	case json.Number:
		return n.String()
	default:
		return fmt.Sprint(n)
	}
}

func (x *x22) good() (l []*conn22) {
	for _, cn := range x.conns {
		if cn.state == "good" {
			l = append(l, cn)
		}
	}
	return
}

func (x *x22) bad() int {
	n := 0
	for _, cn := range x.conns {
		if cn.state == "bad" {
			n++
		}
	}
	return n
}

func (x *x22) count(method, id string) int {
	n := 0
	for _, c := range x.rec.Calls() {
		if c.Method == method && c.Conn == id {
			n++
		}
	}
	return n
}

func (x *x22) do(i int, o op22) error {
	b := x.b
	what := fmt.Sprintf("step %d (%+v), %d connections are stuck", i, o, x.bad())
	want := map[int][]string{}
	pick := func(n int, state string) *conn22 {
		var l []*conn22
		for _, cn := range x.conns {
			if cn.state == state {
				l = append(l, cn)
			}
		}
		if n < 0 || len(l) == 0 {
			return nil
		}
		return l[n%len(l)]
	}
	if o.N < 0 || o.N > 400 && o.K != "block" || o.N > 3000 || o.Sz < 0 || o.Sz > 100000 || o.G < 0 || o.G > 5 {
		return eng.Discard
	}
	group := fmt.Sprintf("g%d", o.G)
	pad := strings.Repeat("p", o.Sz)
	note := func(to []*conn22) int {
		x.notes++
		for _, cn := range to {
			want[cn.n] = append(want[cn.n], fmt.Sprintf("note %d %d", x.notes, len(pad)))
		}
		if len(to) > 0 && x.bad() > 0 {
			x.noted = true
		}
		return x.notes
	}
	members := func() (l []*conn22) {
		for _, cn := range x.good() {
			if cn.joined[o.G] {
				l = append(l, cn)
			}
		}
		return
	}
	invoke := func(cn *conn22, target, result string, args ...any) {
		cn.next++
		id := fmt.Sprint(cn.next)
		want[cn.n] = append(want[cn.n], fmt.Sprintf("done %s %v %q", id, result, ""))
		cn.send(b, Msg{Type: 1, ID: id, Target: target, Args: args})
	}
	switch o.K {
	case "connect", "connectbad":
		if o.P != "json" && (o.P != "messagepack" || o.T == "sse") || len(x.conns) > 300 {
			return eng.Discard
		}
		cn, err := x.connect(o)
		if err != nil {
			if err == eng.Discard {
				return err
			}
			return eng.Errf("%s: %v", what, err)
		}
		if o.K == "connectbad" {
			cn.state = "bad"
			x.conns = append(x.conns, cn)
			switch o.How {
			case "silent":
			case "factory":
				if x.s.Hub != "perconn" {
					return eng.Discard
				}
				cn.write(b, Handshake(o.P))
			case "half":
				cn.write(b, Handshake(o.P)[:10])
			case "stalled":
				x.stall(cn, 0)
				cn.write(b, Handshake(o.P))
			default:
				return eng.Discard
			}
			break
		}
		cn.write(b, Handshake(o.P))
		p, err := cn.got()
		if string(p) != "{}\x1e" {
			return eng.Errf("%s: the handshake of a new connection is answered with %q (%v)", what, p, err)
		}
		cn.off = len(p)
		b.Wait()
		if x.count("on", cn.id) != 1 {
			return eng.Errf("%s: OnConnected ran %d times for a new connection", what, x.count("on", cn.id))
		}
		x.conns = append(x.conns, cn)
	case "close":
		cn := pick(o.C, "good")
		if cn == nil {
			return nil
		}
		x.mx.Lock()
		if o.B {
			x.offStop[cn.id] = true
		}
		x.mx.Unlock()
		cn.state = "gone"
		x.kill(cn)
		b.Wait()
		if x.count("off", cn.id) != 1 {
			return eng.Errf("%s: connection %d (%s) has ended, OnDisconnected ran %d times", what, cn.n, cn.t, x.count("off", cn.id))
		}
	case "echo":
		if cn := pick(o.C, "good"); cn != nil {
			invoke(cn, "Echo", pad, pad)
		}
	case "fail":
		if cn := pick(o.C, "good"); cn != nil {
			cn.next++
			id := fmt.Sprint(cn.next)
			want[cn.n] = append(want[cn.n], fmt.Sprintf("done %s %v %q", id, nil, "failed"))
			cn.send(b, Msg{Type: 1, ID: id, Target: "Fail", Args: []any{}})
		}
	case "pull":
		if cn := pick(o.C, "good"); cn != nil {
			cn.next++
			id := fmt.Sprint(cn.next)
			for k := 0; k < o.N; k++ {
				want[cn.n] = append(want[cn.n], fmt.Sprintf("item %s %d", id, k))
			}
			want[cn.n] = append(want[cn.n], fmt.Sprintf("done %s %v %q", id, nil, ""))
			cn.send(b, Msg{Type: 4, ID: id, Target: "Pull", Args: []any{o.N}})
		}
	case "push":
		if cn := pick(o.C, "good"); cn != nil {
			cn.next++
			id := fmt.Sprint(cn.next)
			ms := []Msg{{Type: 1, ID: id, Target: "Push", Args: []any{}, StreamIDs: []string{"s" + id}}}
			for k := 0; k < o.N; k++ {
				ms = append(ms, Msg{Type: 2, ID: "s" + id, Item: k})
			}
			ms = append(ms, Msg{Type: 3, ID: "s" + id})
			want[cn.n] = append(want[cn.n], fmt.Sprintf("done %s %d %q", id, o.N, ""))
			cn.send(b, ms...)
		}
	case "block": // methods which do not return
		if cn := pick(o.C, "good"); cn != nil {
			var ms []Msg
			before := x.count("block", cn.id)
			for k := 0; k < o.N; k++ {
				cn.next++
				ms = append(ms, Msg{Type: 1, ID: fmt.Sprint(cn.next), Target: "Block", Args: []any{"x"}})
			}
			cn.send(b, ms...)
			if n := x.count("block", cn.id); n != before+o.N {
				return eng.Errf("%s: connection %d has invoked a method which takes long %d times, but it was called only %d times", what, cn.n, before+o.N, n)
			}
		}
	case "join", "leave":
		if cn := pick(o.C, "good"); cn != nil {
			cn.joined[o.G] = o.K == "join"
			invoke(cn, map[string]string{"join": "Join", "leave": "Leave"}[o.K], "<nil>", group)
		}
	case "joinbad": // somebody adds a stuck connection to a group
		cn, bad := pick(o.C, "good"), pick(o.To, "bad")
		if cn != nil && bad != nil {
			invoke(cn, "AddOther", "<nil>", group, bad.id)
		}
	case "all":
		if cn := pick(o.C, "good"); cn != nil {
			invoke(cn, "ToAll", "<nil>", note(x.good()), pad)
		}
	case "group":
		if cn := pick(o.C, "good"); cn != nil {
			invoke(cn, "ToGroup", "<nil>", group, note(members()), pad)
		}
	case "client":
		cn, to := pick(o.C, "good"), pick(o.To, "good")
		if cn != nil {
			invoke(cn, "ToClient", "<nil>", to.id, note([]*conn22{to}), pad)
		}
	case "clientbad":
		cn, to := pick(o.C, "good"), pick(o.To, "bad")
		if cn != nil && to != nil {
			invoke(cn, "ToClient", "<nil>", to.id, note(nil), pad)
		}
	case "caller":
		if cn := pick(o.C, "good"); cn != nil {
			invoke(cn, "ToCaller", "<nil>", note([]*conn22{cn}), pad)
		}
	case "server": // from outside of the hub
		done := make(chan struct{})
		cl := x.srv.HubClients()
		var n int
		var send func()
		switch o.How {
		case "group":
			n = note(members())
			send = func() { cl.Group(group).Send("Note", n, pad) }
		case "client":
			to := pick(o.To, "good")
			if to == nil {
				return nil
			}
			n = note([]*conn22{to})
			send = func() { cl.Client(to.id).Send("Note", n, pad) }
		case "clientbad":
			to := pick(o.To, "bad")
			if to == nil {
				return nil
			}
			n = note(nil)
			send = func() { cl.Client(to.id).Send("Note", n, pad) }
		default:
			n = note(x.good())
			send = func() { cl.All().Send("Note", n, pad) }
		}
		go func() { send(); close(done) }()
		b.Wait()
		select {
		case <-done:
		default:
			return eng.Errf("%s: Send does not return", what)
		}
	case "stall":
		if cn := pick(o.C, "good"); cn != nil {
			cn.state = "bad"
			x.stall(cn, o.N)
		}
	case "slow":
		if cn := pick(o.C, "good"); cn != nil && cn.t == "pipe" {
			cn.state = "bad"
			cn.srv.SetWriteCap(1 + o.N)
			go func() {
				for b.Ctx.Err() == nil {
					time.Sleep(100 * time.Millisecond)
					cn.raw.Drain()
				}
			}()
		}
	case "die": // in the middle of a write
		if cn := pick(o.C, "good"); cn != nil {
			cn.state = "bad"
			if cn.t == "pipe" {
				cn.srv.FailWriteAfter(o.N, errors.New("broken"))
			} else {
				x.stall(cn, o.N)
			}
		}
	case "broken": // a stuck connection ends
		if cn := pick(o.C, "bad"); cn != nil {
			cn.state = "gone"
			x.kill(cn)
		}
	case "unread": // a stream which nobody reads
		if cn := pick(o.C, "good"); cn != nil {
			cn.state = "bad"
			ms := []Msg{{Type: 1, ID: "h", Target: "Hold", Args: []any{}, StreamIDs: []string{"hs"}}}
			for k := 0; k < o.N; k++ {
				ms = append(ms, Msg{Type: 2, ID: "hs", Item: k})
			}
			cn.send(b, ms...)
		}
	case "endless": // a stream which does not end, to somebody who does not read
		if cn := pick(o.C, "good"); cn != nil {
			cn.state = "bad"
			cn.send(b, Msg{Type: 4, ID: "e", Target: "Endless", Args: []any{o.Sz}})
			x.stall(cn, o.N)
		}
	case "badcalls": // a stuck connection goes on sending
		if cn := pick(o.C, "bad"); cn != nil && cn.t != "ws" {
			var ms []Msg
			for k := 0; k < min(o.N, 100); k++ {
				x.notes++
				ms = append(ms, Msg{Type: 1, ID: fmt.Sprintf("b%d.%d", i, k), Target: "Echo", Args: []any{pad}})
			}
			cn.send(b, ms...)
		}
	case "request": // an HTTP request whose answer is not read, or which is not complete
		if x.web == nil {
			return eng.Discard
		}
		if err := x.request(o, pick(o.C, "good"), pick(o.To, "bad")); err != nil {
			if err == eng.Discard {
				return err
			}
			return eng.Errf("%s: %v", what, err)
		}
	case "sleep":
		b.Sleep(time.Duration(o.N) * 20 * time.Millisecond)
	default:
		return eng.Discard
	}
	return x.settle(what, want)
}

// request makes a HTTP request over a connection of its own, whose answer is not read, or which ends in the middle.
func (x *x22) request(o op22, good, bad *conn22) error {
	b := x.b
	id := ""
	if strings.HasSuffix(o.How, "+id") {
		st, body, _, err := x.web.Request(b.Ctx, "POST", "/hub/negotiate", nil, nil)
		var n struct{ ConnectionID string }
		if err != nil || st != 200 || json.Unmarshal(body, &n) != nil {
			return eng.Errf("negotiation: %d %v %s", st, err, body)
		}
		id = esc19(n.ConnectionID)
	}
	const upgrade = "Connection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: AAECAwQFBgcICQoLDA0ODw==\r\n"
	head, body := "", ""
	switch o.How {
	case "negotiate":
		head = "POST /hub/negotiate?negotiateVersion=1 HTTP/1.1\r\nContent-Length: 0\r\n"
	case "ws", "ws+id":
		head = "GET /hub" + id + " HTTP/1.1\r\n" + upgrade
	case "sse+id":
		head = "GET /hub" + id + " HTTP/1.1\r\nAccept: text/event-stream\r\n"
	case "post", "post+id":
		if o.How == "post" { // to somebody else's connection, nothing of it may arrive
			if bad == nil || bad.t != "sse" {
				return nil
			}
			id = esc19(bad.id)
		}
		body = "{\"protocol\":\"json\",\"version\":1}\x1e"
		head = fmt.Sprintf("POST /hub%s HTTP/1.1\r\nContent-Type: text/plain\r\nContent-Length: %d\r\n", id, len(body)+10)
	case "get":
		head = "GET /hub HTTP/1.1\r\n"
	default:
		return eng.Discard
	}
	all := head + "Host: test.local\r\n\r\n" + body
	c, s, err := x.web.DialBoth(b.Ctx)
	if err != nil {
		return err
	}
	s.SetCap(max(1, o.Sz%300))
	c.Stall(true)
	if o.B {
		all = all[:min(len(all), o.N)]
	}
	go func() { _, _ = c.Write([]byte(all)) }()
	b.Wait()
	if o.N%7 == 0 {
		_ = c.Close()
	}
	x.stuck++
	return nil
}

// stall lets the connection's peer stop reading, n more bytes can be written.
func (x *x22) stall(cn *conn22, n int) {
	if cn.t == "pipe" {
		cn.srv.SetWriteCap(max(1, n))
		return
	}
	cn.mem.SetCap(max(1, n))
	cn.cli.Stall(true)
}

func (x *x22) kill(cn *conn22) {
	if cn.t == "pipe" {
		cn.raw.CloseWith(nil)
	} else {
		_ = cn.cli.Close()
		if cn.sse != nil {
			cn.sse.Close()
		}
	}
}

func run22(c *eng.C, s sc22) error {
	if s.Hub != "transient" && s.Hub != "perconn" || s.Cap < 1 || s.Cap > 1000 || len(s.Ops) > 400 {
		return eng.Discard
	}
	return InBubble(c, func(b *B) error {
		x := &x22{c: c, b: b, s: s, rec: &Rec{}, onStop: map[string]bool{}, facStop: map[string]bool{}, offStop: map[string]bool{}, block: make(chan struct{})}
		b.Cleanup(func() { close(x.block) })
		var y *Yield
		if s.Yield != 0 {
			y = NewYield(s.Yield, 20)
		}
		opts := []func(signalr.Party) error{Quiet(y), signalr.TimeoutInterval(1000 * time.Hour), signalr.KeepAliveInterval(5 * time.Second), signalr.StreamBufferCapacity(uint(s.Cap)),
			signalr.MaximumReceiveMessageSize(1 << 20), signalr.MaxNegotiationConnections(0)}
		if s.Hub == "perconn" {
			opts = append(opts, signalr.PerConnectionHubFactory(func(id string) signalr.HubInterface {
				h := &hub22{x: x}
				h.stop(x.facStop, id)
				return h
			}))
		} else {
			opts = append(opts, signalr.HubFactory(func() signalr.HubInterface { return &hub22{x: x} }))
		}
		srv, err := signalr.NewServer(b.Ctx, opts...)
		if err != nil {
			return err
		}
		x.srv = srv
		if s.Web {
			x.web = b.Web(srv, nil)
		}
		kinds := map[string]bool{}
		for i, o := range s.Ops {
			bad := x.bad()
			if err := x.do(i, o); err != nil {
				return err
			}
			if k := o.K + map[bool]string{true: " " + o.How}[o.K == "request"]; (bad > 0 || x.stuck > 0) && !kinds[k] {
				kinds[k] = true
				c.Label("%s while connections are stuck", k)
			}
		}
		// everybody who is well still is
		for k := range x.good() {
			if err := x.do(len(s.Ops), op22{K: "echo", C: k, Sz: 3}); err != nil {
				return err
			}
		}
		if err := x.do(len(s.Ops), op22{K: "server", Sz: 1}); err != nil {
			return err
		}
		if x.noted {
			c.NonTrivial()
		}
		return nil
	})
}

func gen22(web bool) func(r *eng.R) sc22 {
	return func(r *eng.R) sc22 {
		s := sc22{Hub: eng.Pick(r, "transient", "transient", "perconn"), Cap: eng.Pick(r, 1, 10, 10, 100), Web: web}
		if r.P(0.3) {
			s.Yield = r.Uint64() | 1
		}
		connect := func() op22 {
			o := op22{K: "connect", P: protos[r.IntN(2)], T: eng.Pick(r, "pipe", "pipe", "pipe", "net"), B: r.P(0.15)}
			if web {
				o.T = eng.Pick(r, "ws", "ws", "sse", "net", "pipe")
			}
			if o.T == "sse" {
				o.P = "json"
			}
			return o
		}
		n := r.N(2, 6)
		many := r.P(0.15)
		if many {
			n = r.N(10, 90)
			if web {
				n = r.N(5, 20)
			}
		}
		for k := 0; k < n; k++ {
			s.Ops = append(s.Ops, connect())
			if r.P(0.5) {
				s.Ops = append(s.Ops, op22{K: "join", C: k, G: r.IntN(3)})
			}
		}
		size := func() int { return eng.Pick(r, 0, 5, 5, 50, 1000, 5000) }
		idx := func() int { return r.IntN(100) }
		bad := []string{"stall", "stall", "slow", "die", "unread", "endless", "connectbad"}
		only := ""
		if r.P(0.4) {
			only = bad[r.IntN(len(bad))]
		}
		if many {
			for k := r.N(2, n); k > 1; k-- {
				s.Ops = append(s.Ops, op22{K: eng.Pick(r, "stall", "die", "endless"), C: idx(), N: r.Heavy(300), Sz: size()})
			}
		}
		for k := 5 + r.Heavy(60); k > 0; k-- {
			o := op22{C: idx(), To: idx(), G: r.IntN(3), Sz: size()}
			switch r.Weighted(4, 2, 10, 4) {
			case 0:
				if o.K = bad[r.IntN(len(bad))]; only != "" {
					o.K = only
				}
				o.N = r.Heavy(300)
				if o.K == "connectbad" {
					z := connect()
					o.T, o.P, o.How = z.T, z.P, eng.Pick(r, "silent", "half", "stalled")
					if o.T == "ws" && o.How == "stalled" { // the upgrade itself is answered
						o.N = 0
					}
				}
				if web && r.P(0.4) {
					o.K, o.How, o.B = "request", eng.Pick(r, "negotiate", "ws", "ws", "ws+id", "sse+id", "post", "post+id", "get"), r.P(0.3)
				} else if o.K == "connectbad" && s.Hub == "perconn" && r.P(0.4) {
					o.How = "factory"
				}
				if o.K == "unread" {
					o.N = r.N(0, 30) + eng.Pick(r, 0, 100)
				}
			case 1:
				o.K = eng.Pick(r, "broken", "badcalls", "joinbad", "clientbad")
				o.N = r.Heavy(100)
			case 2:
				o.K = eng.Pick(r, "echo", "fail", "pull", "push", "join", "leave", "all", "all", "group", "group", "client", "caller", "server", "server", "block")
				o.N = r.N(0, 6)
				if o.K == "server" {
					o.How = eng.Pick(r, "", "group", "client", "clientbad")
				}
				if o.K == "block" {
					o.N = eng.Pick(r, 1, 2, 5, r.Heavy(300))
					if r.P(0.02) {
						o.N = r.N(1000, 3000)
					}
				}
			case 3:
				switch r.IntN(4) {
				case 0:
					o = connect()
				case 1:
					o.K, o.B = "close", r.P(0.3)
				default:
					o.K, o.N = "sleep", r.Heavy(400)
				}
			}
			s.Ops = append(s.Ops, o)
			switch o.K {
			case "all", "group", "server", "client", "clientbad":
				if r.P(0.05) { // the messages for stuck connections pile up
					o.Sz = min(o.Sz, 50)
					for k := r.N(5, 80); k > 0 && len(s.Ops) < 350; k-- {
						s.Ops = append(s.Ops, o)
					}
				}
			}
		}
		return s
	}
}

func init() {
	eng.Register(&eng.Check{
		ID:   "C22",
		Rule: "a case is non-trivial when messages are sent to good connections while others are stuck",
		Families: []eng.Family{
			eng.Fam("histories", 3000, 40000, gen22(false), run22),
			eng.Fam("web", 1500, 20000, gen22(true), run22),
		},
	})
}
