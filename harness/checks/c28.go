package checks

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// What is finished leaves nothing behind: after many calls, streams, cancellations, ... on a connection which stays, no more
// memory is in use and no more goroutines run than before.

// net28 is one direction of a connection which keeps nothing.
type net28 struct {
	mx   sync.Mutex
	cond *sync.Cond
	b    []byte
	end  bool
}

func (q *net28) write(p []byte) (int, error) {
	q.mx.Lock()
	defer q.mx.Unlock()
	if q.end {
		return 0, io.ErrClosedPipe
	}
	q.b = append(q.b, p...)
	q.cond.Broadcast()
	return len(p), nil
}

func (q *net28) take() []byte {
	q.mx.Lock()
	defer q.mx.Unlock()
	p := q.b
	q.b = nil
	return p
}

func (q *net28) close() {
	q.mx.Lock()
	defer q.mx.Unlock()
	q.end = true
	q.cond.Broadcast()
}

// conn28 is the connection of the library, peer is the harness.
type conn28 struct {
	id      string
	ctx     context.Context
	cancel  context.CancelFunc
	in, out *net28
	ballast []byte // so that a connection which is kept is noticed
}

func newConn28(ctx context.Context, id string) *conn28 {
	c := &conn28{id: id, in: &net28{}, out: &net28{}, ballast: make([]byte, 4096)}
	c.in.cond, c.out.cond = sync.NewCond(&c.in.mx), sync.NewCond(&c.out.mx)
	c.ctx, c.cancel = context.WithCancel(ctx)
	context.AfterFunc(c.ctx, c.in.close)
	return c
}

func (c *conn28) ConnectionID() string        { return c.id }
func (c *conn28) SetConnectionID(id string)   { c.id = id }
func (c *conn28) Context() context.Context    { return c.ctx }
func (c *conn28) Write(p []byte) (int, error) { return c.out.write(p) }
func (c *conn28) Read(p []byte) (int, error) {
	c.in.mx.Lock()
	defer c.in.mx.Unlock()
	for len(c.in.b) == 0 {
		if c.in.end {
			return 0, io.EOF
		}
		c.in.cond.Wait()
	}
	n := copy(p, c.in.b)
	c.in.b = c.in.b[n:]
	if len(c.in.b) == 0 {
		c.in.b = nil
	}
	return n, nil
}

// work28 does many things.
type work28 struct {
	signalr.Receiver
}

func (w *work28) Echo(s string) string  { return s }
func (w *work28) Two() (int, int)       { return 1, 2 }
func (w *work28) Fail() (int, error)    { return 0, errors.New("failed") }
func (w *work28) Panic()                { panic("panic") }
func (w *work28) PanicUp(ch <-chan int) { panic("panic") }
func (w *work28) Exit()                 { runtime.Goexit() }
func (w *work28) PanicFlow() <-chan int { panic("panic") }
func (w *work28) NilFlow() <-chan int   { return nil }
func (w *work28) ExitFlow() <-chan int {
	runtime.Goexit()
	return nil
}
func (w *work28) BadFlow() <-chan any {
	ch := make(chan any, 3)
	ch <- 1
	ch <- func() {}
	ch <- 2
	return ch
}
func (w *work28) UpFlow(ch <-chan int) <-chan int { return ch }
func (w *work28) ErrCh() (<-chan int, error)      { return nil, errors.New("failed") }
func (w *work28) Bad() any                        { return func() {} }
func (w *work28) Ignore(ch <-chan int) int        { return 1 }
func (w *work28) UpN(n int, ch <-chan int) int    { return w.Up(ch) }
func (w *work28) Up(ch <-chan int) int {
	n := 0
	for range ch {
		n++
	}
	return n
}

// Flow is a stream of n items. It ends only when it is canceled, when end is false.
func (w *work28) Flow(n int, end bool) <-chan string {
	ch := make(chan string, n)
	for i := range n {
		ch <- fmt.Sprint("item ", i)
	}
	if end {
		close(ch)
	}
	return ch
}

type hub28 struct {
	signalr.Hub
	work28
}

func (h *hub28) Initialize(c signalr.HubContext) { h.Hub.Initialize(c) }
func (h *hub28) OnConnected(id string)           { h.Groups().AddToGroup("all", id) }
func (h *hub28) OnDisconnected(string)           {}
func (h *hub28) Join(g string)                   { h.Groups().AddToGroup(g, h.ConnectionID()) }
func (h *hub28) Leave(g string)                  { h.Groups().RemoveFromGroup(g, h.ConnectionID()) }
func (h *hub28) Foreign(g, id string) {
	h.Groups().AddToGroup(g, id)
	h.Groups().RemoveFromGroup(g, id)
	h.Groups().RemoveFromGroup(g+"x", h.ConnectionID())
}
func (h *hub28) Tell(g, id string) {
	h.Clients().Caller().Send("Told", g)
	h.Clients().All().Send("Told", g)
	h.Clients().Group("all").Send("Told", g)
	h.Clients().Group(g).Send("Told", g)
	h.Clients().Client(id).Send("Told", g)
}

type sc28 struct {
	Role, Proto string
	Ops         []string // done in every round
	Max         int      // concurrent streams
	Pad         int      // additional length of ids and names
	Burst       int      // rounds which are not waited for
	Hub         string   `json:",omitempty"`
}

var ops28 = map[string][]string{
	"server": {"call", "oneway", "unknown", "badargs", "toofew", "panic", "exit", "fail", "onewayfail", "unencodable", "chan", "closedchan", "stream", "streamone", "streamtwo", "streamerr", "streambad", "streampanic", "panicflow", "exitflow", "badflow", "nilflow", "upflow", "canceled", "cancelearly",
		"cancelunknown", "cancelfinished", "cancelcall", "upload", "uploadmany", "uploaderr", "uploadresult", "uploadignored", "uploadrefused", "uploadpanic", "uploadempty", "ping", "tell", "join", "foreign", "conn", "conngroups", "connclose", "connabort", "badhs", "nohs"},
	"client": {"invoke", "invokeerr", "invokevoid", "send", "sendresult", "senderr", "pull", "pullempty", "pullresult", "pullerr", "push", "pusherr", "pushcanceled", "pushnone", "unencodable", "pushunencodable", "sendunencodable", "pullunencodable", "wait", "waitdone", "observe", "ping",
		"call", "oneway", "unknown", "badargs", "panic", "exit", "fail", "stream", "streamone", "panicflow", "exitflow", "badflow", "nilflow", "upflow", "canceled", "cancelunknown", "cancelfinished", "uploadrefused", "upload", "uploadignored"},
	"reconnecting": {"close", "closeerr", "eof", "garbage", "hserr", "hseof", "call", "invoke", "pull", "push", "stream", "lost"},
}

func (s sc28) valid() bool {
	l, ok := ops28[s.Role]
	if !ok || s.Proto != "json" && s.Proto != "messagepack" || len(s.Ops) < 1 || len(s.Ops) > 8 || s.Max < 0 || s.Max > 100 || s.Pad < 0 || s.Pad > 2000 || s.Burst < 1 || s.Burst > 50 || s.Hub != "" && s.Hub != "perconn" {
		return false
	}
	ends := 0
	for _, o := range s.Ops {
		if !has21(l, o) {
			return false
		}
		switch o {
		case "close", "closeerr", "eof", "garbage", "hserr", "hseof", "lost":
			ends++
		}
	}
	return s.Role != "reconnecting" || ends == 1 && s.Burst == 1
}

type x28 struct {
	b    *B
	s    sc28
	srv  signalr.Server
	cl   signalr.Client
	c    *conn28 // of the client or the main connection of the server
	conn chan *conn28
	n    int
	bad  error
	late []func() // what has to be done when a burst is over
}

func (x *x28) send(m Msg) { _, _ = x.c.in.write(Encode(x.s.Proto, m, Style{})) }

// name returns a text which has not been used before.
func (x *x28) name(what string) string {
	x.n++
	return fmt.Sprint(what, x.n, strings.Repeat("x", x.s.Pad))
}

// own28 lists the goroutines of the library.
func (x *x28) own() []string { return x.b.Goroutines("github.com/philippseith/signalr") }

// incoming does what a peer does to a server or a client.
func (x *x28) incoming(op string) bool {
	id := x.name("i")
	call := func(typ int, target string, sids []string, args ...any) {
		if args == nil {
			args = []any{}
		}
		x.send(Msg{Type: typ, ID: id, HasID: true, Target: target, Args: args, StreamIDs: sids})
	}
	up := func(target string, n int, args ...any) string {
		u := x.name("u")
		call(1, target, []string{u}, args...)
		for k := range n {
			x.send(Msg{Type: 2, ID: u, Item: k})
		}
		return u
	}
	// what needs the answer of the message before
	then := func(f func()) { x.late = append(x.late, f) }
	switch op {
	case "call":
		call(1, "echo", nil, "text")
	case "oneway":
		x.send(Msg{Type: 1, Target: "echo", Args: []any{id}})
	case "unknown":
		call(1, x.name("method"), nil, 1)
	case "badargs":
		call(1, "flow", nil, "x", map[string]any{"x": 1})
	case "toofew":
		call(1, "echo", nil)
	case "panic":
		call(1, "panic", nil)
	case "exit":
		call(1, "exit", nil)
	case "fail":
		call(1, "fail", nil)
	case "onewayfail":
		x.send(Msg{Type: 1, Target: "fail", Args: []any{}})
		x.send(Msg{Type: 1, Target: "panic", Args: []any{}})
		x.send(Msg{Type: 1, Target: "bad", Args: []any{}})
	case "unencodable":
		call(1, "bad", nil)
	case "chan":
		call(1, "flow", nil, 1, true)
	case "closedchan":
		call(1, "flow", nil, 0, true)
	case "stream":
		call(4, "flow", nil, 3, true)
	case "streamone":
		call(4, "echo", nil, "text")
	case "streamtwo":
		call(4, "two", nil)
	case "streamerr":
		call(4, "errch", nil)
	case "streambad":
		call(4, "bad", nil)
	case "streampanic":
		call(4, "panic", nil)
	case "panicflow", "exitflow", "badflow":
		call(4, op, nil)
	case "nilflow":
		call(4, op, nil)
		then(func() { x.send(Msg{Type: 5, ID: id}) })
	case "upflow":
		u := x.name("u")
		call(4, op, []string{u})
		x.send(Msg{Type: 2, ID: u, Item: 1})
		x.send(Msg{Type: 3, ID: u})
	case "canceled":
		call(4, "flow", nil, 2, false)
		then(func() { x.send(Msg{Type: 5, ID: id}) })
	case "cancelearly":
		call(4, "flow", nil, 2, false)
		x.send(Msg{Type: 5, ID: id})
	case "cancelunknown":
		x.send(Msg{Type: 5, ID: id})
	case "cancelfinished":
		call(4, "flow", nil, 1, true)
		then(func() { x.send(Msg{Type: 5, ID: id}) })
	case "cancelcall":
		call(1, "echo", nil, "text")
		x.send(Msg{Type: 5, ID: id})
	case "upload":
		x.send(Msg{Type: 3, ID: up("up", 3)})
	case "uploadmany":
		u := up("upn", 2, 7)
		then(func() { x.send(Msg{Type: 2, ID: u, Item: 5}); x.send(Msg{Type: 3, ID: u}) })
	case "uploaderr":
		x.send(Msg{Type: 3, ID: up("up", 1), Error: "failed", HasError: true})
	case "uploadresult":
		x.send(Msg{Type: 3, ID: up("up", 0), Result: 5, HasResult: true})
	case "uploadignored":
		u := up("ignore", 2)
		then(func() { x.send(Msg{Type: 3, ID: u}) })
	case "uploadrefused":
		up("up", 0, "surplus", "surplus")
	case "uploadpanic":
		u := up("panicup", 1)
		then(func() { x.send(Msg{Type: 3, ID: u}) })
	case "uploadempty":
		x.send(Msg{Type: 3, ID: up("up", 0)})
	case "ping":
		x.send(Msg{Type: 6})
	default:
		return false
	}
	return true
}

// serverOp does what only a peer of a server does.
func (x *x28) serverOp(op string) {
	other := func(hs string, proto bool) (*conn28, *Served28) {
		c := newConn28(x.b.Ctx, x.name("c"))
		v := serve28(x.srv, c)
		if proto {
			hs = string(Handshake(x.s.Proto))
		}
		_, _ = c.in.write([]byte(hs))
		x.b.Wait()
		c.out.take()
		return c, v
	}
	over := func(c *conn28, v *Served28) {
		x.b.Wait()
		c.in.close()
		for k := 0; k < 20 && !v.ended(); k++ {
			x.b.Sleep(100 * time.Millisecond)
		}
		if !v.ended() {
			x.bad = eng.Errf("Serve of another connection has not returned after the end of the connection")
		}
		c.cancel()
	}
	enc := func(m Msg) []byte { return Encode(x.s.Proto, m, Style{}) }
	switch op {
	case "tell":
		x.send(Msg{Type: 1, Target: "tell", Args: []any{x.name("g"), x.name("c")}})
	case "join":
		g := x.name("g")
		x.send(Msg{Type: 1, Target: "join", Args: []any{g}})
		x.late = append(x.late, func() { x.send(Msg{Type: 1, Target: "leave", Args: []any{g}}) })
	case "foreign":
		x.send(Msg{Type: 1, Target: "foreign", Args: []any{x.name("g"), x.name("c")}})
	case "conn":
		c, v := other("", true)
		_, _ = c.in.write(enc(Msg{Type: 1, ID: "1", Target: "echo", Args: []any{"x"}}))
		over(c, v)
	case "conngroups":
		c, v := other("", true)
		for range 3 {
			_, _ = c.in.write(enc(Msg{Type: 1, ID: "1", Target: "join", Args: []any{x.name("g")}}))
		}
		over(c, v)
	case "connclose":
		c, v := other("", true)
		_, _ = c.in.write(enc(Msg{Type: 4, ID: "1", Target: "flow", Args: []any{1, false}}))
		x.b.Wait()
		_, _ = c.in.write(enc(Msg{Type: 7}))
		over(c, v)
	case "connabort":
		c, v := other("", true)
		_, _ = c.in.write(enc(Msg{Type: 1, ID: "1", Target: "up", Args: []any{}, StreamIDs: []string{"u"}}))
		x.b.Wait()
		c.cancel()
		over(c, v)
	case "badhs":
		c, v := other("{\"protocol\":\"other\",\"version\":1}\x1e", false)
		over(c, v)
	case "nohs":
		c, v := other("{\"proto", false)
		over(c, v)
	}
}

type Served28 struct{ done chan struct{} }

func (v *Served28) ended() bool {
	select {
	case <-v.done:
		return true
	default:
		return false
	}
}

func serve28(srv signalr.Server, c *conn28) *Served28 {
	v := &Served28{done: make(chan struct{})}
	go func() { defer close(v.done); _ = srv.Serve(c) }()
	return v
}

// clientOp does what only a user of a client does.
func (x *x28) clientOp(op string) {
	// the messages of the client since the last call
	sent := func() (id string, sids []string) {
		x.b.Wait()
		ms, _, err := DecodeAll(x.s.Proto, x.c.out.take())
		if err != nil {
			x.bad = eng.Errf("%s: %v", op, err)
		}
		for _, m := range ms {
			if m.Type == 1 || m.Type == 4 {
				id, sids = m.ID, m.StreamIDs
			}
		}
		if id == "" && x.bad == nil {
			x.bad = eng.Errf("%s: nothing is sent: %v", op, ms)
		}
		return
	}
	finished := func(ch <-chan signalr.InvokeResult, n int) {
		for k := 0; ; k++ {
			x.b.Wait()
			select {
			case _, ok := <-ch:
				if ok {
					continue
				}
				if k != n && n >= 0 {
					x.bad = eng.Errf("%s: %d results instead of %d", op, k, n)
				}
			default:
				x.bad = eng.Errf("%s: call does not end", op)
			}
			return
		}
	}
	answer := func(id string, m Msg) { m.Type, m.ID = 3, id; x.send(m) }
	switch op {
	case "invoke", "invokeerr", "invokevoid":
		ch := x.cl.Invoke("M", x.name("arg"))
		id, _ := sent()
		switch op {
		case "invoke":
			answer(id, Msg{Result: x.name("r"), HasResult: true})
		case "invokeerr":
			answer(id, Msg{Error: x.name("r"), HasError: true})
		default:
			answer(id, Msg{})
		}
		finished(ch, -1)
	case "send", "sendresult", "senderr":
		ch := x.cl.Send("M", x.name("arg"))
		id, _ := sent()
		switch op {
		case "sendresult":
			answer(id, Msg{Result: x.name("r"), HasResult: true})
		case "senderr":
			answer(id, Msg{Error: x.name("r"), HasError: true})
		default:
			answer(id, Msg{})
		}
		for k := 0; k < 2; k++ {
			x.b.Wait()
			select {
			case <-ch:
			default:
				x.bad = eng.Errf("%s: call does not end", op)
			}
		}
	case "pull", "pullempty", "pullresult", "pullerr":
		ch := x.cl.PullStream("M", x.name("arg"))
		id, _ := sent()
		n := 0
		if op == "pull" || op == "pullerr" {
			x.send(Msg{Type: 2, ID: id, Item: "a"})
			n++
		}
		switch op {
		case "pullresult":
			answer(id, Msg{Result: x.name("r"), HasResult: true})
			n++
		case "pullerr":
			answer(id, Msg{Error: x.name("r"), HasError: true})
			n++
		default:
			answer(id, Msg{})
		}
		finished(ch, n)
	case "push", "pusherr", "pushcanceled", "pushnone":
		c := make(chan string, 3)
		c <- "a"
		c <- "b"
		if op != "pushcanceled" {
			close(c)
		}
		ch := x.cl.PushStreams("M", x.name("arg"), c)
		if op == "pushnone" {
			x.b.Wait()
		}
		id, sids := sent()
		if op == "pushcanceled" && len(sids) == 1 {
			x.send(Msg{Type: 5, ID: sids[0]})
			x.b.Wait()
		}
		switch op {
		case "push":
			answer(id, Msg{Result: 5, HasResult: true})
		case "pusherr":
			answer(id, Msg{Error: "failed", HasError: true})
		default:
			answer(id, Msg{})
		}
		finished(ch, -1)
	case "unencodable":
		finished(x.cl.Invoke("M", func() {}), 1)
	case "pullunencodable":
		finished(x.cl.PullStream("M", func() {}), 1)
	case "sendunencodable":
		if err := <-x.cl.Send("M", func() {}); err == nil {
			x.bad = eng.Errf("%s: no error", op)
		}
	case "pushunencodable":
		finished(x.cl.PushStreams("M", func() {}, make(chan int)), 1)
	case "wait":
		ctx, cancel := context.WithCancel(x.b.Ctx)
		ch := x.cl.WaitForState(ctx, signalr.ClientClosed)
		x.b.Wait()
		cancel()
		x.b.Wait()
		select {
		case <-ch:
		default:
			x.bad = eng.Errf("%s: waiting does not end", op)
		}
	case "waitdone":
		x.cl.WaitForState(x.b.Ctx, signalr.ClientConnected)
	case "observe":
		ch := make(chan signalr.ClientState)
		cancel := x.cl.ObserveStateChanged(ch)
		x.b.Wait()
		cancel()
	}
}

// reconnect ends the connection of the client and waits for the next one.
func (x *x28) reconnect(op string) {
	hs := true
	switch op {
	case "close":
		x.send(Msg{Type: 7, Reconnect: true})
	case "closeerr":
		x.send(Msg{Type: 7, Reconnect: true, Error: "error"})
	case "eof":
		x.c.in.close()
	case "garbage":
		_, _ = x.c.in.write([]byte{1, 0xc1, 0x1e})
	case "lost": // with pending calls
		x.cl.Invoke("M", 1)
		x.cl.Send("M", 1)
		x.cl.PullStream("M", 1)
		x.cl.PushStreams("M", make(chan int))
		x.send(Msg{Type: 4, ID: "s", HasID: true, Target: "flow", Args: []any{1, false}})
		x.send(Msg{Type: 1, ID: "u", HasID: true, Target: "up", Args: []any{}, StreamIDs: []string{"u"}})
		x.b.Wait()
		x.c.in.close()
	default: // the attempt after this one fails
		x.c.in.close()
		hs = false
	}
	for {
		x.b.Sleep(1500 * time.Millisecond)
		select {
		case c := <-x.conn:
			x.c.in.close()
			x.c.cancel()
			x.c = c
		default:
			x.bad = eng.Errf("%s: the client does not connect again (%v %v)", op, x.cl.State(), x.cl.Err())
			return
		}
		if !hs {
			hs = true
			if op == "hserr" {
				_, _ = x.c.in.write([]byte("{\"error\":\"no\"}\x1e"))
			} else {
				x.c.in.close()
			}
			continue
		}
		_, _ = x.c.in.write([]byte("{}\x1e"))
		x.b.Wait()
		x.c.out.take()
		if st := x.cl.State(); st != signalr.ClientConnected {
			x.bad = eng.Errf("%s: the client is in state %v: %v", op, st, x.cl.Err())
		}
		return
	}
}

// rounds does all operations n times.
func (x *x28) rounds(n int) error {
	for k := 1; k <= n && x.bad == nil; k++ {
		for _, op := range x.s.Ops {
			switch {
			case x.s.Role == "client" && has21(ops28["client"][:21], op) || x.s.Role == "reconnecting" && (op == "invoke" || op == "pull" || op == "push"):
				x.clientOp(op)
			case x.incoming(op):
			case x.s.Role == "reconnecting":
				x.reconnect(op)
			default:
				x.serverOp(op)
			}
		}
		if k%x.s.Burst == 0 || k == n {
			x.b.Wait()
			for _, f := range x.late {
				f()
			}
			x.late = nil
			x.b.Wait()
			x.c.out.take()
		}
	}
	return x.bad
}

// conn28Bytes is less than what is left of a connection which is forgotten. Tickers are garbage when nobody uses them any more, but
// not in a bubble.
const conn28Bytes = 700

func heap28() int64 {
	for range 3 {
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func run28(c *eng.C, s sc28) error {
	if !s.valid() {
		return eng.Discard
	}
	return InBubble(c, func(b *B) error {
		x := &x28{b: b, s: s, conn: make(chan *conn28, 1)}
		opts := []func(signalr.Party) error{Quiet(nil), signalr.TimeoutInterval(1000 * time.Hour), signalr.KeepAliveInterval(500 * time.Hour), signalr.MaxConcurrentStreams(uint(s.Max)), signalr.ChanReceiveTimeout(time.Second)}
		rounds := 1500
		least := int64(40) // bytes which a forgotten thing takes at least
		if s.Role == "server" {
			h := signalr.HubFactory(func() signalr.HubInterface { return &hub28{} })
			if s.Hub == "perconn" {
				h = signalr.PerConnectionHubFactory(func(string) signalr.HubInterface { return &hub28{} })
			}
			var err error
			if x.srv, err = signalr.NewServer(b.Ctx, append(opts, h)...); err != nil {
				return err
			}
			x.c = newConn28(b.Ctx, "main")
			v := serve28(x.srv, x.c)
			_, _ = x.c.in.write(Handshake(s.Proto))
			b.Wait()
			defer func() { x.c.in.close(); x.c.cancel(); b.Wait(); _ = v }()
			for _, op := range s.Ops {
				if strings.HasPrefix(op, "conn") || strings.HasSuffix(op, "hs") {
					if rounds > 250 {
						rounds, least = 250, 0
					}
					least += conn28Bytes
					x.s.Pad = 2000
				}
			}
		} else {
			if s.Role == "client" {
				x.c = newConn28(b.Ctx, "main")
				opts = append(opts, signalr.WithConnection(x.c))
			} else {
				rounds, least = 200, conn28Bytes
				opts = append(opts, signalr.WithBackoff(func() backoff.BackOff { return backoff.NewConstantBackOff(time.Second) }), signalr.WithConnector(func() (signalr.Connection, error) {
					c := newConn28(b.Ctx, "c")
					x.conn <- c
					return c, nil
				}))
			}
			var err error
			if x.cl, err = signalr.NewClient(b.Ctx, append(opts, signalr.WithReceiver(&work28{}), signalr.TransferFormat(FormatOf(s.Proto)))...); err != nil {
				return err
			}
			x.cl.Start()
			b.Wait()
			if x.c == nil {
				x.c = <-x.conn
			}
			_, _ = x.c.in.write([]byte("{}\x1e"))
			b.Wait()
			x.c.out.take()
		}
		// as many as can be remembered on purpose, then compare
		if err := x.rounds(max(300, rounds/5)); err != nil {
			return eng.Errf("%s %s: %v", s.Role, s.Proto, err)
		}
		b.Sleep(10 * time.Second)
		base := len(x.own())
		from := heap28()
		for try := 0; ; try++ {
			if err := x.rounds(rounds); err != nil {
				return eng.Errf("%s %s: %v", s.Role, s.Proto, err)
			}
			b.Sleep(10 * time.Second)
			if n := len(x.own()); n > base+rounds/10 {
				return eng.Errf("%s %s: %d goroutines were at work, after %d rounds of %v there are %d", s.Role, s.Proto, base, rounds, s.Ops, n)
			}
			to := heap28()
			c.LabelN("bytes more per 100 rounds", int(max(0, to-from)*100/int64(rounds)))
			if to-from < int64(rounds)*least {
				break
			}
			if try == 2 {
				return eng.Errf("%s %s: %d rounds of %v leave %d bytes", s.Role, s.Proto, rounds, s.Ops, to-from)
			}
			from, base = to, len(x.own())
		}
		c.NonTrivial()
		for _, o := range s.Ops {
			c.Label("%s", o)
		}
		return nil
	})
}

func gen28(r *eng.R) sc28 {
	for {
		s := sc28{Role: eng.Pick(r, "server", "server", "client", "client", "reconnecting"), Proto: protos[r.IntN(2)], Max: eng.Pick(r, 100, 100, 10, 3, 0), Pad: eng.Pick(r, 0, 20, 200, 1000), Burst: eng.Pick(r, 1, 1, 1, 5, 20)}
		if s.Role == "server" && r.P(0.3) {
			s.Hub = "perconn"
		}
		l := ops28[s.Role]
		if s.Role == "reconnecting" {
			s.Burst = 1
			for n := r.N(0, 2); n > 0; n-- {
				s.Ops = append(s.Ops, l[6+r.IntN(5)])
			}
			s.Ops = append(s.Ops, eng.Pick(r, "close", "closeerr", "eof", "garbage", "hserr", "hseof", "lost"))
		} else {
			for n := r.N(1, 4); n > 0; n-- {
				s.Ops = append(s.Ops, l[r.IntN(len(l))])
			}
			s.Burst = min(s.Burst, 100/len(s.Ops))
			if s.Max > 0 && s.Max < s.Burst*len(s.Ops) {
				s.Burst = 1
			}
		}
		if s.valid() {
			return s
		}
	}
}

func init() {
	eng.Register(&eng.Check{
		ID:   "C28",
		Rule: "a case is non-trivial when all of its calls, streams, connections etc. came to their end and were measured",
		Families: []eng.Family{
			eng.Fam("histories", 200, 3000, gen28, run28),
		},
	})
}
