package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/coder/websocket"
	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// work24 is something which goes on when the connection ends.
type work24 struct {
	C int
	K string
	N int `json:",omitempty"`
}

type peer24 struct {
	T, P string
	Half bool `json:",omitempty"` // no handshake is made
}

type sc24 struct {
	Hub   string // transient perconn
	Peers []peer24
	Work  []work24
	E     int    // the connection which ends
	Cause string // how
	Also  string `json:",omitempty"` // another reason, at the same time
	At    int    // milliseconds
	Burst int    `json:",omitempty"` // invocations immediately before
	Stall bool   `json:",omitempty"` // the peer does not read any more
	Err   string `json:",omitempty"` // text of close messages
	Re    bool   `json:",omitempty"`
	Yield uint64 `json:",omitempty"`
	Log   int    `json:",omitempty"` // it ends after so many log events since the burst and so many additions
	Tune  int    `json:",omitempty"`
}

type conn24 struct {
	n       int
	peer    peer24
	id      string
	raw     *Raw
	srv     *End
	cancel  context.CancelFunc // net: ends the transport
	mem     *MemConn           // the server's end
	cli     *MemConn
	ws      *WS
	sse     *SSE
	served  *Served
	mx      sync.Mutex
	buf     []byte
	off     int
	post    func(p []byte)
	atEnd   int          // bytes received when Serve returned
	posts   atomic.Int64 // not yet answered
	pinging bool
}

type x24 struct {
	c     *eng.C
	b     *B
	s     sc24
	srv   signalr.Server
	web   *Web
	rec   *Rec
	conns []*conn24
	block chan struct{}
}

type hub24 struct {
	signalr.Hub
	x *x24
}

func (h *hub24) add(m string)             { h.x.rec.Add(m, h.ConnectionID()) }
func (h *hub24) OnConnected(id string)    { h.x.rec.Add("on", id) }
func (h *hub24) OnDisconnected(id string) { h.x.rec.Add("off", id) }
func (h *hub24) Echo(s string) string     { h.add("Echo"); return s }
func (h *hub24) Block(s string) string {
	h.add("Block")
	g, c, id, ctx := h.Groups(), h.Clients(), h.ConnectionID(), h.Context()
	<-h.x.block
	if ctx.Err() != nil {
		// late effects
		g.AddToGroup("late", id)
		c.Caller().Send("Late", s)
		c.Client(id).Send("Late", s)
		c.Group("late").Send("Late", s)
		_ = h.Close("late", true)
		h.Abort()
	}
	return s
}
func (h *hub24) Ctx() string {
	h.add("Ctx")
	defer h.add("end Ctx")
	<-h.Context().Done()
	return "x"
}
func (h *hub24) Items() <-chan int {
	h.add("Items")
	ch := make(chan int)
	go func() {
		defer close(ch)
		for i := 0; ; i++ {
			select {
			case ch <- i:
				time.Sleep(30 * time.Millisecond)
			case <-h.x.block:
				return
			}
		}
	}()
	return ch
}
func (h *hub24) Never() <-chan int { h.add("Never"); return make(chan int) }
func (h *hub24) Up(ch <-chan int) int {
	h.add("Up")
	defer h.add("end Up")
	n := 0
	for range ch {
		n++
	}
	return n
}
func (h *hub24) Hold(ch <-chan int) int { h.add("Hold"); <-h.x.block; return len(ch) }
func (h *hub24) Join(g string)          { h.Groups().AddToGroup(g, h.ConnectionID()) }
func (h *hub24) Notes(n int) {
	for k := 0; k < n; k++ {
		h.Clients().Caller().Send("Note", k)
		h.Clients().Group("g").Send("Note", k)
	}
}
func (h *hub24) Quit()                 { h.Abort() }
func (h *hub24) Bye(s string, re bool) { _ = h.Close(s, re) }
func (h *hub24) Panic()                { panic("p") }

func (cn *conn24) got() ([]byte, error) {
	switch cn.peer.T {
	case "pipe":
		return cn.raw.Received(), nil
	case "net":
		cn.mx.Lock()
		defer cn.mx.Unlock()
		return append([]byte{}, cn.buf...), nil
	case "ws":
		return cn.ws.Got()
	}
	return cn.sse.Got()
}

func (cn *conn24) write(b *B, p []byte) {
	switch cn.peer.T {
	case "pipe":
		_, _ = cn.raw.Write(p)
	case "net":
		_, _ = cn.cli.Write(p)
	case "ws":
		typ := websocket.MessageText
		if cn.peer.P != "json" {
			typ = websocket.MessageBinary
		}
		_ = cn.ws.Conn.Write(b.Ctx, typ, p)
	case "sse":
		cn.post(p)
	}
}

func (cn *conn24) send(b *B, ms ...Msg) {
	var p []byte
	for _, m := range ms {
		p = append(p, Encode(cn.peer.P, m, Style{})...)
	}
	cn.write(b, p)
}

func (x *x24) httpFor(got func(c, s *MemConn)) *http.Client {
	tr := &http.Transport{DisableCompression: true, DisableKeepAlives: true, DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) {
		c, s, err := x.web.DialBoth(ctx)
		if err != nil {
			return nil, err
		}
		got(c, s)
		return c, nil
	}}
	x.b.Cleanup(tr.CloseIdleConnections)
	return &http.Client{Transport: tr}
}

func (x *x24) open(n int, p peer24) (*conn24, error) {
	b := x.b
	cn := &conn24{n: n, peer: p}
	switch p.T {
	case "pipe":
		cn.id = fmt.Sprintf("c%d", n)
		s, c := NewPipe(b.Ctx, cn.id, cn.id+"-peer")
		cn.raw, cn.srv = &Raw{End: c, Proto: p.P}, s
		cn.served = &Served{Done: make(chan struct{})}
		go func() {
			cn.served.Err = x.srv.Serve(s)
			cn.atEnd = len(cn.raw.Received())
			close(cn.served.Done)
		}()
		cn.cancel = s.Cancel
	case "net":
		s, c := NewMemPipe()
		cn.mem, cn.cli = s, c
		ctx, cancel := context.WithCancel(b.Ctx)
		cn.cancel = cancel
		conn := signalr.NewNetConnection(ctx, s)
		cn.id = conn.ConnectionID()
		go func() {
			p := make([]byte, 1<<14)
			for {
				n, err := c.Read(p)
				cn.mx.Lock()
				cn.buf = append(cn.buf, p[:n]...)
				cn.mx.Unlock()
				if err != nil {
					return
				}
			}
		}()
		b.Cleanup(func() { _ = c.Close() })
		cn.served = Serve(x.srv, conn)
	case "ws", "sse":
		st, body, _, err := x.web.Request(b.Ctx, "POST", "/hub/negotiate", nil, nil)
		var neg struct{ ConnectionID string }
		if err != nil || st != 200 || json.Unmarshal(body, &neg) != nil {
			return nil, eng.Errf("negotiation: %d %v %s", st, err, body)
		}
		cn.id = neg.ConnectionID
		w := *x.web
		w.Client = x.httpFor(func(c, s *MemConn) { cn.cli, cn.mem = c, s })
		if p.T == "ws" {
			ws, st, err := w.DialWS(b.Ctx, esc19(cn.id), nil, websocket.CompressionDisabled)
			if ws == nil {
				return nil, eng.Errf("WebSocket: %d %v", st, err)
			}
			cn.ws = ws
		} else {
			sse, st, err := w.OpenSSE(b.Ctx, esc19(cn.id))
			if sse == nil {
				return nil, eng.Errf("event stream: %d %v", st, err)
			}
			cn.sse = sse
			b.Cleanup(sse.Close)
			pw := *x.web
			pw.Client = x.httpFor(func(c, s *MemConn) {})
			posts := make(chan []byte, 1000)
			go func() {
				for {
					select {
					case p := <-posts:
						_, _, _, _ = pw.Request(b.Ctx, "POST", "/hub"+esc19(cn.id), nil, bytes.NewReader(p))
						cn.posts.Add(-1)
					case <-b.Ctx.Done():
						return
					}
				}
			}()
			cn.post = func(p []byte) {
				cn.posts.Add(1)
				posts <- p
			}
		}
	}
	if !p.Half {
		cn.write(b, Handshake(p.P))
		b.Wait()
		if p.T == "sse" {
			b.Sleep(60 * time.Millisecond)
		}
		raw, err := cn.got()
		if err != nil || !bytes.HasPrefix(raw, []byte("{}\x1e")) {
			return nil, eng.Errf("handshake response %q (%v)", raw, err)
		}
		cn.off = 3
		cn.pinging = true
		go func() {
			for b.Ctx.Err() == nil {
				time.Sleep(1111 * time.Millisecond)
				cn.mx.Lock()
				on := cn.pinging
				cn.mx.Unlock()
				if !on {
					return
				}
				cn.send(b, Msg{Type: 6})
			}
		}()
	}
	return cn, nil
}

func (cn *conn24) stopPings() {
	cn.mx.Lock()
	cn.pinging = false
	cn.mx.Unlock()
}

// goid24 is the number of a goroutine.
func goid24(stack string) string {
	id, _, _ := strings.Cut(stack, " [")
	return id
}

// flush waits until everything is with the server. A request takes 50 ms.
func (cn *conn24) flush(b *B) {
	b.Wait()
	for k := 0; k < 1000 && cn.posts.Load() > 0; k++ {
		b.Sleep(10 * time.Millisecond)
	}
}

// drop ends the transport from the side of the peer.
func (cn *conn24) drop(err error) {
	switch cn.peer.T {
	case "pipe":
		cn.raw.CloseWith(err)
	default:
		_ = cn.cli.Close()
		if cn.sse != nil {
			cn.sse.Close()
		}
	}
}

// ended tells if the server has finished with the connection.
func (cn *conn24) ended() bool {
	if cn.served != nil {
		return cn.served.Ended()
	}
	_, err := cn.got()
	return err != nil
}

var (
	causes24 = []string{"abort", "stop", "timeout", "malformed", "unknown", "toolong", "close", "eof", "readerr", "halfeof", "cancel", "writefail", "bye"}
	// the peer has to be informed
	told24  = map[string]bool{"abort": true, "stop": true, "timeout": true, "malformed": true, "unknown": true, "toolong": true, "halfeof": true}
	works24 = []string{"block", "ctx", "items", "never", "chan", "up", "hold", "join", "echo", "notes", "panic", "partial"}
)

func (s sc24) valid() bool {
	if len(s.Peers) < 1 || len(s.Peers) > 5 || s.E < 0 || s.E >= len(s.Peers) || s.At < 0 || s.At > 20000 || s.Burst < 0 || s.Burst > 100 || s.Log < 0 || s.Log > 100000 || s.Tune < 0 || s.Tune > 100000 || len(s.Work) > 40 {
		return false
	}
	for _, p := range s.Peers {
		if !has21([]string{"pipe", "net", "ws", "sse"}, p.T) || !has21(protos[:], p.P) || p.T == "sse" && p.P != "json" {
			return false
		}
	}
	for i, w := range s.Work {
		if w.C < 0 || w.C >= len(s.Peers) || w.N < 0 || w.N > 100 || !has21(works24, w.K) {
			return false
		}
		if w.K == "partial" && w.C == s.E && (s.Burst > 0 || i < len(s.Work)-1 ||
			has21([]string{"abort", "unknown", "toolong", "close", "bye", "malformed"}, s.Cause) || has21([]string{"abort", "unknown", "toolong", "close", "bye", "malformed"}, s.Also)) {
			return false
		}
	}
	for _, c := range []string{s.Cause, s.Also} {
		t := s.Peers[s.E].T
		if c == "" {
			continue
		}
		if !has21(causes24, c) || t != "pipe" && has21([]string{"readerr", "halfeof", "writefail"}, c) || c == "cancel" && t != "pipe" && t != "net" {
			return false
		}
		if s.Peers[s.E].Half && !has21([]string{"stop", "eof", "readerr", "cancel"}, c) {
			return false
		}
	}
	return s.Cause != "" && s.Cause != s.Also && (s.Hub == "transient" || s.Hub == "perconn")
}

func (x *x24) start(i int, w work24) {
	cn := x.conns[w.C]
	if cn.peer.Half {
		return
	}
	id := fmt.Sprintf("w%d", i)
	none := []any{}
	var ms []Msg
	switch w.K {
	case "block":
		for k := 0; k <= w.N; k++ {
			ms = append(ms, Msg{Type: 1, ID: fmt.Sprintf("%s.%d", id, k), Target: "block", Args: []any{id}})
		}
	case "ctx":
		ms = append(ms, Msg{Type: 1, ID: id, Target: "ctx", Args: none})
	case "items", "never":
		ms = append(ms, Msg{Type: 4, ID: id, Target: w.K, Args: none})
	case "chan":
		ms = append(ms, Msg{Type: 1, ID: id, Target: "never", Args: none})
	case "up", "hold":
		ms = append(ms, Msg{Type: 1, ID: id, Target: w.K, Args: none, StreamIDs: []string{"u" + id}})
		for k := 0; k < w.N; k++ {
			ms = append(ms, Msg{Type: 2, ID: "u" + id, Item: k})
		}
	case "join":
		ms = append(ms, Msg{Type: 1, Target: "join", Args: []any{"g"}})
	case "echo":
		for k := 0; k <= w.N; k++ {
			ms = append(ms, Msg{Type: 1, ID: fmt.Sprintf("%s.%d", id, k), Target: "echo", Args: []any{"e"}})
		}
	case "notes":
		ms = append(ms, Msg{Type: 1, Target: "notes", Args: []any{w.N}})
	case "panic":
		ms = append(ms, Msg{Type: 1, ID: id, Target: "panic", Args: none})
	case "partial": // an incomplete message
		p := Encode(cn.peer.P, Msg{Type: 1, ID: id, Target: "echo", Args: []any{strings.Repeat("x", 200)}}, Style{})
		cn.write(x.b, p[:1+w.N])
		cn.stopPings()
		return
	}
	cn.send(x.b, ms...)
}

func (x *x24) do(cause string, stop func()) {
	cn, b, s := x.conns[x.s.E], x.b, x.s
	switch cause {
	case "abort":
		cn.send(b, Msg{Type: 1, Target: "quit", Args: []any{}})
	case "stop":
		stop()
	case "timeout":
		cn.stopPings()
	case "malformed":
		if cn.peer.P == "json" {
			cn.write(b, []byte("{]\x1e"))
		} else {
			cn.write(b, []byte{0x02, 0x91, 0xc1})
		}
	case "unknown":
		cn.send(b, Msg{Type: 2, ID: "nobody", Item: 1})
	case "toolong":
		cn.send(b, Msg{Type: 1, Target: "echo", Args: []any{strings.Repeat("x", 20000)}})
	case "close":
		cn.send(b, Msg{Type: 7, Error: s.Err, Reconnect: s.Re})
	case "eof":
		cn.drop(io.EOF)
	case "readerr":
		cn.drop(errors.New("read error"))
	case "halfeof":
		cn.raw.CloseWrite(io.EOF)
	case "cancel":
		cn.cancel()
	case "writefail":
		cn.srv.FailWriteAfter(s.At%50, errors.New("write error"))
	case "bye":
		cn.send(b, Msg{Type: 1, Target: "bye", Args: []any{s.Err, s.Re}})
	}
}

func (x *x24) calls(id string, from int) (l []string) {
	for _, c := range x.rec.CallsFrom(from) {
		if c.Conn == id {
			l = append(l, c.Method)
		}
	}
	return
}

func run24(c *eng.C, s sc24) error {
	if !s.valid() {
		return eng.Discard
	}
	return InBubble(c, func(b *B) error {
		x := &x24{c: c, b: b, s: s, rec: &Rec{}, block: make(chan struct{})}
		var once sync.Once
		release := func() { once.Do(func() { close(x.block) }) }
		b.Cleanup(release)
		var y *Yield
		if s.Yield != 0 {
			y = NewYield(s.Yield, 25)
		}
		trig := NewTrigger(y)
		opts := []func(signalr.Party) error{signalr.Logger(trig, y != nil || s.Log > 0), signalr.TimeoutInterval(5 * time.Second), signalr.KeepAliveInterval(2 * time.Second),
			signalr.MaximumReceiveMessageSize(10000), signalr.HandshakeTimeout(1000 * time.Hour), signalr.ChanReceiveTimeout(3 * time.Millisecond), signalr.MaxNegotiationConnections(0)}
		factory := func() signalr.HubInterface { return &hub24{x: x} }
		if s.Hub == "perconn" {
			opts = append(opts, signalr.PerConnectionHubFactory(func(string) signalr.HubInterface { return factory() }))
		} else {
			opts = append(opts, signalr.HubFactory(factory))
		}
		ctx, stop := context.WithCancel(b.Ctx)
		b.Cleanup(stop)
		srv, err := signalr.NewServer(ctx, opts...)
		if err != nil {
			return err
		}
		x.srv = srv
		for _, p := range s.Peers {
			if (p.T == "ws" || p.T == "sse") && x.web == nil {
				x.web = b.Web(srv, nil)
			}
		}
		const own = "github.com/philippseith/signalr"
		// Goroutines which belong to the server, not to a connection, have started after this
		var warm []string
		for _, p := range s.Peers {
			if k := p.T + p.P; has21(warm, k) {
				continue
			} else {
				warm = append(warm, k)
			}
			p.Half = false
			cn, err := x.open(100+len(warm), p)
			if err != nil {
				return err
			}
			cn.send(b, Msg{Type: 1, ID: "x", Target: "echo", Args: []any{"warm"}})
			b.Sleep(60 * time.Millisecond)
			cn.stopPings()
			cn.drop(io.EOF)
			if cn.cancel != nil {
				cn.cancel()
			}
		}
		b.Sleep(10 * time.Second)
		base := map[string]bool{}
		for _, g := range b.Goroutines(own) {
			base[goid24(g)] = true
		}
		for i, p := range s.Peers {
			cn, err := x.open(i, p)
			if err != nil {
				return err
			}
			x.conns = append(x.conns, cn)
		}
		for i, w := range s.Work {
			x.start(i, w)
			if w.K == "join" {
				x.conns[w.C].flush(b)
			}
		}
		for _, cn := range x.conns {
			cn.flush(b)
		}
		b.Sleep(time.Duration(s.At) * time.Millisecond)
		e := x.conns[s.E]
		for i, cn := range x.conns {
			if cn.ended() {
				return eng.Errf("connection %d ends without a reason", i)
			}
		}
		if s.Stall {
			switch {
			case e.peer.T == "pipe":
				e.srv.SetWriteCap(1)
			default:
				e.mem.SetCap(1)
				e.cli.Stall(true)
			}
		}
		if s.Log > 0 {
			trig.Arm(s.Log)
			for i, cause := range []string{s.Cause, s.Also} {
				if cause != "" {
					go func() {
						trig.Wait(s.Tune * i)
						x.do(cause, stop)
					}()
				}
			}
		}
		if s.Burst > 0 {
			var ms []Msg
			for k := 0; k < s.Burst; k++ {
				ms = append(ms, Msg{Type: 1, ID: fmt.Sprintf("b%d", k), Target: eng23[k%3], Args: [][]any{{"e"}, {}, {}}[k%3]})
			}
			e.send(b, ms...)
		}
		// Now it ends
		if s.Log > 0 {
			b.Sleep(2 * time.Millisecond)
		} else {
			x.do(s.Cause, stop)
			if s.Also != "" {
				x.do(s.Also, stop)
			}
		}
		stopped := s.Cause == "stop" || s.Also == "stop"
		bye := ""
		if s.Cause == "bye" || s.Also == "bye" {
			// A close message is sent. The peer ends the connection then
			e.flush(b)
			b.Sleep(4 * time.Second)
			if !s.Stall && s.Also == "" && !stopped {
				raw, _ := e.got()
				ms, _, err := DecodeAll(e.peer.P, raw[min(e.off, len(raw)):])
				for _, m := range ms {
					if m.Type == 7 {
						bye += m.String()
					}
				}
				if want := (Msg{Type: 7, Error: s.Err, Reconnect: s.Re}).String(); err != nil || bye != want {
					return eng.Errf("Hub.Close(%q, %v): the peer receives %s (%v)", s.Err, s.Re, bye, err)
				}
			}
			e.drop(io.EOF)
		}
		e.stopPings()
		is := func(cn *conn24) bool { return stopped || cn == e }
		e.flush(b)
		b.Sleep(60 * time.Millisecond)
		for k := 0; ; k++ {
			open := -1
			for i, cn := range x.conns {
				if is(cn) && !cn.ended() && (cn.served != nil || !(s.Stall && cn == e)) {
					open = i
				}
			}
			if open < 0 {
				break
			}
			if k == 300 {
				return eng.Errf("connection %d (%s) has not ended %v after: %s %s", open, x.conns[open].peer.T, 30*time.Second, s.Cause, s.Also)
			}
			b.Sleep(100 * time.Millisecond)
		}
		c.Label("%s %s", s.Cause, map[bool]string{true: "half open", false: e.peer.T}[e.peer.Half])
		if s.Stall && e.served == nil { // nothing to see
			b.Sleep(20 * time.Second)
		}
		// What worked for it has been told to end
		mark := len(x.rec.Calls())
		size := map[int]int{}
		for i, cn := range x.conns {
			if !is(cn) {
				continue
			}
			n := map[string]int{}
			for _, m := range x.calls(cn.id, 0) {
				n[m]++
			}
			if n["Ctx"] != n["end Ctx"] || n["Up"] != n["end Up"] {
				return eng.Errf("%s %s: connection %d (%s) has ended, but of %d methods which wait for the end of Context() and %d which receive a stream only %d and %d have returned",
					s.Cause, s.Also, i, cn.peer.T, n["Ctx"], n["Up"], n["end Ctx"], n["end Up"])
			}
			if w := map[bool]int{true: 0, false: 1}[cn.peer.Half]; n["on"] != w || n["off"] != w {
				return eng.Errf("%s %s: connection %d (%s) has ended, OnConnected was called %d times, OnDisconnected %d times", s.Cause, s.Also, i, cn.peer.T, n["on"], n["off"])
			}
			raw, _ := cn.got()
			size[i] = len(raw)
			if err := x.told(i, cn, raw); err != nil {
				return err
			}
		}
		// Nothing happens for it any more
		cls := srv.HubClients()
		poke := func() {
			cls.All().Send("Note", 1)
			cls.Group("g").Send("Note", 2)
			for i, cn := range x.conns {
				if is(cn) {
					cls.Client(cn.id).Send("Note", 3)
					if cn.peer.T == "pipe" || cn.peer.T == "net" {
						cn.send(b, Msg{Type: 1, ID: "late", Target: "echo", Args: []any{"late"}}, Msg{Type: 1, ID: "late2", Target: "up", Args: []any{}, StreamIDs: []string{"late"}})
					}
				} else {
					cn.send(b, Msg{Type: 1, Target: "notes", Args: []any{3}}, Msg{Type: 1, ID: fmt.Sprintf("alive%d", i), Target: "echo", Args: []any{"alive"}})
				}
			}
			b.Sleep(70 * time.Millisecond)
		}
		poke()
		release()
		b.Sleep(100 * time.Millisecond)
		poke()
		b.Sleep(30 * time.Second)
		for i, cn := range x.conns {
			raw, err := cn.got()
			if !is(cn) {
				if err != nil || !bytes.Contains(raw, []byte(fmt.Sprintf("alive%d", i))) || cn.ended() && !cn.peer.Half {
					return eng.Errf("%s %s of connection %d: connection %d (%s) does not work any more (%v)", s.Cause, s.Also, s.E, i, cn.peer.T, err)
				}
				continue
			}
			if l := x.calls(cn.id, mark); len(l) > 0 {
				return eng.Errf("%s %s: connection %d (%s) has ended, but then %v", s.Cause, s.Also, i, cn.peer.T, l)
			}
			// When the peer closes the connection without an error, it may still receive what is being written
			if gone := s.Err == "" && (s.Cause == "close" || s.Also == "close"); cn.raw != nil && len(raw) > cn.atEnd && !(cn == e && (s.Stall || gone)) {
				return eng.Errf("%s %s: Serve of connection %d has returned, but then %q was written", s.Cause, s.Also, i, clip(string(raw[cn.atEnd:])))
			}
			if len(raw) > size[i] && !(s.Stall && cn == e) {
				return eng.Errf("%s %s: connection %d (%s) has ended, but then %q was written", s.Cause, s.Also, i, cn.peer.T, clip(string(raw[size[i]:])))
			}
		}
		// Nothing is left over
		for _, cn := range x.conns {
			cn.stopPings()
			if cn.cancel != nil && (cn.ended() || !is(cn)) {
				cn.cancel() // Ending the transport is up to the caller of Serve
			}
			if !is(cn) {
				cn.drop(io.EOF)
			}
		}
		b.Sleep(30 * time.Second)
		left := func(with ...string) error {
			for _, g := range b.Goroutines(with...) {
				if !stopped && base[goid24(g)] {
					continue
				}
				return eng.Errf("%s %s: all connections have ended, this is left over: %s", s.Cause, s.Also, g)
			}
			return nil
		}
		if !(s.Stall && (e.peer.T == "ws" || e.peer.T == "sse")) {
			if err := left(own); err != nil {
				return err
			}
		}
		for _, cn := range x.conns {
			if cn.cli != nil {
				_ = cn.cli.Close()
			}
			if cn.ws != nil {
				_ = cn.ws.Conn.CloseNow()
			}
			if cn.sse != nil {
				cn.sse.Close()
			}
		}
		b.Sleep(30 * time.Second)
		if err := left(own, "coder/websocket"); err != nil {
			return err
		}
		busy := false
		for _, w := range s.Work {
			busy = busy || w.C == s.E && w.K != "join"
		}
		if busy || s.Burst > 0 {
			c.NonTrivial()
		}
		return nil
	})
}

var eng23 = []string{"echo", "never", "ctx"}

// told checks the close message.
func (x *x24) told(i int, cn *conn24, raw []byte) error {
	s := x.s
	if s.Stall && i == s.E {
		return nil
	}
	what := fmt.Sprintf("%s %s: connection %d (%s %s)", s.Cause, s.Also, i, cn.peer.T, cn.peer.P)
	if cn.peer.Half {
		if len(raw) > 0 && bytes.Contains(raw, []byte(`"type"`)) {
			return eng.Errf("%s, which has not shaken hands, receives %q", what, raw)
		}
		return nil
	}
	ms, rest, err := DecodeAll(cn.peer.P, raw[min(cn.off, len(raw)):])
	if err != nil || len(rest) > 0 && told24[s.Cause] && s.Also == "" {
		return eng.Errf("%s receives %v and %q (%v)", what, clip(fmt.Sprint(ms)), clip(string(rest)), err)
	}
	closes := 0
	for k, m := range ms {
		if m.Type != 7 {
			continue
		}
		if closes++; s.Cause != "bye" && s.Also != "bye" && k < len(ms)-1 {
			return eng.Errf("%s receives %v after the close message", what, clip(fmt.Sprint(ms[k+1:])))
		}
	}
	told := told24[s.Cause] && (s.Also == "" || told24[s.Also])
	if i != s.E { // the server was stopped
		told = true
	}
	if !told {
		return nil
	}
	if closes != 1 {
		return eng.Errf("%s receives %d close messages: %v", what, closes, clip(fmt.Sprint(ms)))
	}
	if m := ms[len(ms)-1]; m.Error == "" || !m.Reconnect {
		return eng.Errf("%s receives %v, it should tell the reason and that reconnecting is allowed", what, m)
	}
	return nil
}

func gen24(r *eng.R) sc24 {
	s := sc24{Hub: eng.Pick(r, "transient", "transient", "perconn"), At: eng.Pick(r, 0, 0, r.N(0, 100), r.Heavy(8000))}
	if r.P(0.6) {
		s.Yield = r.Uint64() | 1
	}
	n := 1 + r.Weighted(6, 3, 1)
	web := r.P(0.3)
	for i := 0; i < n; i++ {
		p := peer24{T: eng.Pick(r, "pipe", "pipe", "net"), P: protos[r.IntN(2)]}
		if web {
			p.T = eng.Pick(r, "ws", "ws", "sse", "pipe")
		}
		if p.T == "sse" {
			p.P = "json"
		}
		s.Peers = append(s.Peers, p)
	}
	s.E = r.IntN(n)
	for {
		s.Cause = causes24[r.IntN(len(causes24))]
		s.Also = ""
		if r.P(0.15) {
			s.Also = causes24[r.IntN(len(causes24))]
		}
		s.Peers[s.E].Half = r.P(0.07)
		s.Stall = r.P(0.12)
		s.Err, s.Re = eng.Pick(r, "", "reason", "r\u00e4 \"x\"\n"), r.P(0.5)
		s.Burst = 0
		if r.P(0.4) {
			s.Burst = r.Heavy(60)
		}
		s.Log, s.Tune = 0, 0
		if r.P(0.4) {
			s.Log, s.Tune = r.Heavy(300), eng.Pick(r, 0, 100, 1000, 10000)
		}
		s.Work = nil
		for k := r.Heavy(12); k > 0; k-- {
			w := work24{C: s.E, K: works24[r.IntN(len(works24)-1)], N: r.Heavy(30)}
			if r.P(0.3) {
				w.C = r.IntN(n)
			}
			s.Work = append(s.Work, w)
		}
		if r.P(0.1) && s.At < 3000 {
			s.Work = append(s.Work, work24{C: s.E, K: "partial", N: r.N(0, 99)})
			s.Burst = 0
		}
		if s.valid() {
			return s
		}
	}
}

func init() {
	eng.Register(&eng.Check{
		ID:   "C24",
		Rule: "a case is non-trivial when calls, streams or uploads of the connection are running or being answered when it ends",
		Families: []eng.Family{
			eng.Fam("server", 2500, 40000, gen24, run24),
			eng.Fam("memory", 300, 5000, gen24m, run24m),
			eng.Fam("web", 600, 10000, gen24w, run24w),
			eng.Fam("client", 2500, 40000, gen24c, run24c),
			eng.Fam("foreign", 400, 8000, gen24h, run24h),
			eng.Fam("dialing", 400, 8000, gen24d, run24d),
		},
	})
}
