package checks

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"sync/atomic"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// Family api: everything a user may call is called from many goroutines at the same time. Only the race detector judges.

type op27 struct {
	K string
	N int    `json:",omitempty"`
	S string `json:",omitempty"`
}

type sc27 struct {
	Clients int
	Protos  []string
	Groups  bool `json:",omitempty"`
	Threads []th27
	Late    bool   `json:",omitempty"` // client 0 is started by one of the threads
	Back    int    `json:",omitempty"` // milliseconds between connections
	Shared  bool   `json:",omitempty"` // all connections use the same hub
	Ends    bool   `json:",omitempty"` // connections are lost as well
	Y       uint64 `json:",omitempty"`
	YP      int    `json:",omitempty"`
}

type th27 struct {
	C   int // whose client
	Ops []op27
}

var client27 = []string{"invoke", "invoke", "invoke", "send", "pull", "push", "state", "err", "wait", "observe", "stop", "start", "lose", "serve", "fromoutside", "sleep", "ctx", "base"}
var hub27Methods = []string{"Items", "Items", "Groups", "Clients", "Meta", "Log", "Abort", "Count", "Later", "Fail", "Drain", "Close", "Nested"}

func gen27(r *eng.R) sc27 {
	s := sc27{Clients: r.N(1, 3)}
	for i := 0; i < s.Clients; i++ {
		s.Protos = append(s.Protos, protos[r.IntN(2)])
	}
	if r.P(0.5) {
		s.Y, s.YP = r.Uint64()|1, eng.Pick(r, 5, 30, 80)
	}
	s.Ends = r.P(0.4)
	s.Late = r.P(0.2)
	s.Shared = r.P(0.2)
	s.Back = eng.Pick(r, 0, 0, 1, 3)
	for i := r.N(2, 8); i > 0; i-- {
		t := th27{C: r.IntN(s.Clients)}
		if r.P(0.5) {
			t.C = 0
		}
		for j := r.N(1, 8) + r.Heavy(20); j > 0; j-- {
			o := op27{K: client27[r.IntN(len(client27))], N: r.IntN(6), S: hub27Methods[r.IntN(len(hub27Methods))]}
			if !s.Ends && (o.K == "stop" || o.K == "lose" || o.S == "Abort" || o.S == "Close") && r.P(0.9) {
				o.K, o.S = "invoke", "Items"
			}
			t.Ops = append(t.Ops, o)
		}
		s.Threads = append(s.Threads, t)
	}
	if s.Late {
		t := &s.Threads[r.IntN(len(s.Threads))]
		t.C, t.Ops[0].K = 0, "start"
	}
	return s
}

type hub27 struct {
	signalr.Hub
}

func (h *hub27) OnConnected(id string) {
	h.Items().Store("connected", id)
	h.Groups().AddToGroup("g", id)
	h.Clients().All().Send("note", "connected")
}

func (h *hub27) OnDisconnected(id string) {
	h.Items().Load("connected")
	h.Groups().RemoveFromGroup("g", id)
	h.Clients().Group("g").Send("note", "disconnected")
}

func (h *hub27) Items_(n int) int {
	for i := 0; i <= n; i++ {
		h.Hub.Items().Store(i, n)
		h.Hub.Items().Load(n - i)
	}
	return n
}

func (h *hub27) Groups_(n int) {
	for i := 0; i <= n; i++ {
		g := fmt.Sprint("g", i%2)
		h.Hub.Groups().AddToGroup(g, h.Hub.ConnectionID())
		h.Hub.Clients().Group(g).Send("note", g)
		h.Hub.Groups().RemoveFromGroup(g, h.Hub.ConnectionID())
	}
}

func (h *hub27) Clients_(n int) {
	for i := 0; i <= n; i++ {
		switch i % 4 {
		case 0:
			h.Hub.Clients().All().Send("note", "all", i)
		case 1:
			h.Hub.Clients().Caller().Send("note", "caller")
		case 2:
			h.Hub.Clients().Client("c0").Send("note", "client", []int{1, 2})
		case 3:
			h.Hub.Clients().Group("g").Send("note", "group", map[string]any{"a": i})
		}
	}
}

func (h *hub27) Meta(int) string {
	return fmt.Sprint(h.Hub.ConnectionID(), h.Hub.Context().Err())
}

func (h *hub27) Log(int) {
	i, d := h.Hub.Logger()
	_ = i.Log("a", 1)
	_ = d.Log("a", 2)
}

func (h *hub27) Abort_(int)       { h.Hub.Abort() }
func (h *hub27) Close_(int) error { return h.Hub.Close("bye", true) }
func (h *hub27) Fail(n int) error {
	if n%2 == 0 {
		panic("fail")
	}
	return errors.New("fail")
}

func (h *hub27) Count(n int) <-chan []int {
	ch := make(chan []int)
	ctx := h.Hub.Context()
	go func() {
		defer close(ch)
		for i := 0; i < n; i++ {
			select {
			case ch <- []int{i}:
			case <-ctx.Done():
				return
			}
		}
	}()
	return ch
}

func (h *hub27) Later(n int) chan string {
	ch := make(chan string, 1)
	clients := h.Hub.Clients()
	items := h.Hub.Items()
	go func() {
		time.Sleep(time.Duration(n) * time.Millisecond)
		items.Store("later", n)
		clients.All().Send("note", "later")
		ch <- "later"
		close(ch)
	}()
	return ch
}

func (h *hub27) Drain(n int, a chan int, b chan []string) int {
	for a != nil || b != nil {
		select {
		case _, ok := <-a:
			if !ok {
				a = nil
			}
		case _, ok := <-b:
			if !ok {
				b = nil
			}
		}
	}
	return n
}

func (h *hub27) Nested(n int) [][]int { return [][]int{{n}, {n, n}} }

type rcv27 struct {
	signalr.Receiver
	cl func() signalr.Client
}

func (r *rcv27) Note(args string) {
	if c := r.cl(); c != nil {
		_ = c.State()
		_ = c.Err()
		if args == "caller" {
			drain(c.Send("Meta", 1))
		}
	}
}

func drain[T any](ch <-chan T) {
	go func() {
		for range ch {
		}
	}()
}

// methods27 are the names of the hub methods whose Go names would collide with those of signalr.Hub.
var methods27 = map[string]string{"Items": "Items_", "Groups": "Groups_", "Clients": "Clients_", "Abort": "Abort_", "Close": "Close_"}

func run27(c *eng.C, s sc27) error {
	if s.Clients < 1 || s.Clients > 8 || len(s.Protos) != s.Clients || len(s.Threads) > 40 || s.Back < 0 || s.Back > 100 || s.YP < 0 || s.YP > 100 {
		return eng.Discard
	}
	for _, p := range s.Protos {
		if p != "json" && p != "messagepack" {
			return eng.Discard
		}
	}
	for _, t := range s.Threads {
		if t.C < 0 || t.C >= s.Clients || len(t.Ops) > 100 {
			return eng.Discard
		}
		for _, o := range t.Ops {
			if o.N < 0 || o.N > 20 {
				return eng.Discard
			}
		}
	}
	return InBubble(c, func(b *B) error {
		var y *Yield
		if s.YP > 0 {
			y = NewYield(s.Y, s.YP)
		}
		hub := signalr.HubFactory(func() signalr.HubInterface { return &hub27{} })
		if s.Shared {
			hub = signalr.UseHub(&hub27{})
		}
		srv, err := signalr.NewServer(b.Ctx, Quiet(y), hub,
			signalr.KeepAliveInterval(5*time.Millisecond), signalr.TimeoutInterval(10*time.Second), signalr.HandshakeTimeout(time.Second))
		if err != nil {
			return err
		}
		clients := make([]signalr.Client, s.Clients)
		type link struct {
			mx  sync.Mutex
			cur *End
		}
		links := make([]link, s.Clients)
		started := make([]atomic.Bool, s.Clients)
		for i := range clients {
			var once sync.Mutex
			var self signalr.Client
			rcv := &rcv27{cl: func() signalr.Client { once.Lock(); defer once.Unlock(); return self }}
			cl, err := signalr.NewClient(b.Ctx, Quiet(y), signalr.TransferFormat(FormatOf(s.Protos[i])), signalr.WithReceiver(rcv),
				signalr.KeepAliveInterval(7*time.Millisecond), signalr.TimeoutInterval(10*time.Second),
				signalr.WithConnector(func() (signalr.Connection, error) {
					se, ce := NewPipe(b.Ctx, fmt.Sprint("c", i), fmt.Sprint("c", i))
					go func() { _ = srv.Serve(se) }()
					l := &links[i]
					l.mx.Lock()
					l.cur = se
					l.mx.Unlock()
					return ce, nil
				}), signalr.WithBackoff(func() backoff.BackOff { return backoff.NewConstantBackOff(time.Duration(s.Back) * time.Millisecond) }))
			if err != nil {
				return err
			}
			once.Lock()
			self = cl
			once.Unlock()
			clients[i] = cl
			if !s.Late || i > 0 {
				started[i].Store(true)
				cl.Start()
			}
		}
		b.Sleep(time.Millisecond)
		barrier := make(chan struct{})
		base := signalr.NewConnectionBase(b.Ctx, "base")
		var wg sync.WaitGroup
		kinds := map[string]bool{}
		for _, t := range s.Threads {
			for _, o := range t.Ops {
				kinds[o.K] = true
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-barrier
				cl := clients[t.C]
				for _, o := range t.Ops {
					m := o.S
					if x := methods27[m]; x != "" {
						m = x
					}
					switch o.K {
					case "invoke":
						if m == "Drain" {
							m = "Meta"
						}
						if ch := cl.Invoke(m, o.N); o.N%2 == 0 {
							drain(ch)
						} else {
							select {
							case <-ch:
							case <-time.After(time.Second):
							}
							drain(ch)
						}
					case "send":
						if m == "Drain" {
							m = "Meta"
						}
						drain(cl.Send(m, o.N))
					case "pull":
						drain(cl.PullStream([]string{"Count", "Later"}[o.N%2], o.N))
					case "push":
						a, bb := make(chan int, 1), make(chan []string)
						drain(cl.PushStreams("Drain", o.N, a, bb))
						go func() {
							for i := 0; i < o.N; i++ {
								select {
								case a <- i:
								case <-b.Ctx.Done():
								}
							}
							close(a)
						}()
						go func() {
							for i := 0; i < o.N; i++ {
								select {
								case bb <- []string{"x"}:
								case <-b.Ctx.Done():
								}
							}
							close(bb)
						}()
					case "state":
						_ = cl.State()
					case "err":
						_ = cl.Err()
					case "wait":
						ctx, cancel := context.WithTimeout(b.Ctx, time.Duration(o.N+1)*time.Millisecond)
						<-cl.WaitForState(ctx, []signalr.ClientState{signalr.ClientConnected, signalr.ClientClosed}[o.N%2])
						cancel()
					case "observe":
						ch := make(chan signalr.ClientState, 1)
						cancel := cl.ObserveStateChanged(ch)
						go func() {
							select {
							case <-ch:
							case <-time.After(time.Duration(o.N) * time.Millisecond):
							}
							cancel()
						}()
					case "stop":
						cl.Stop()
					case "start":
						if started[t.C].CompareAndSwap(false, true) {
							cl.Start()
						}
					case "lose":
						l := &links[t.C]
						l.mx.Lock()
						e := l.cur
						l.mx.Unlock()
						if e != nil {
							e.CloseWith(io.EOF)
						}
					case "serve":
						se, ce := NewPipe(b.Ctx, fmt.Sprint("x", o.N), "x")
						go func() { _ = srv.Serve(se) }()
						raw := &Raw{End: ce, Proto: "json"}
						_, _ = raw.Write(Handshake("json"))
						raw.Send(Msg{Type: 1, Target: "Items_", ID: "1", HasID: true, Args: []any{o.N}})
						if o.N%2 == 0 {
							ce.CloseWith(nil)
						}
					case "fromoutside":
						h := srv.HubClients()
						h.All().Send("note", "outside", o.N)
						h.Client("c0").Send("note", "client")
						h.Group("g").Send("note", "group")
					case "base":
						switch o.N % 3 {
						case 0:
							base.SetConnectionID(fmt.Sprint(o.N))
						case 1:
							_ = base.ConnectionID()
						case 2:
							_ = base.Context().Err()
						}
					case "ctx":
						_ = cl.Context().Err()
					case "sleep":
						time.Sleep(time.Duration(o.N) * time.Millisecond)
					}
				}
			}()
		}
		close(barrier)
		b.Sleep(200 * time.Millisecond)
		if len(s.Threads) > 2 && len(kinds) > 3 {
			c.NonTrivial()
		}
		for k := range kinds {
			c.Label("%s", k)
		}
		for _, cl := range clients {
			cl.Stop()
		}
		b.Sleep(time.Second)
		return nil
	})
}

// Family answers: many goroutines call a client whose server answers in all ways, also in such which are not allowed.

type scA27 struct {
	Proto   string
	Threads int
	Kinds   []string
	Answers []string
	Calls   int
	Bad     int    // number of the invocation which gets an answer which is not allowed
	BadK    string // kind of this answer
	Spin    int
	Y       uint64 `json:",omitempty"`
}

var badA27 = []string{"", "itemresult", "ext", "unknown", "callback", "close"}

func genA27(r *eng.R) scA27 {
	s := scA27{Proto: protos[r.IntN(2)], Threads: r.N(2, 6), Calls: r.N(1, 20), BadK: badA27[r.IntN(len(badA27))], Spin: eng.Pick(r, 0, 100, 3000)}
	s.Bad = r.IntN(s.Threads*s.Calls + 1)
	for range r.N(1, 4) {
		s.Kinds = append(s.Kinds, eng.Pick(r, "invoke", "send", "pull", "push"))
		s.Answers = append(s.Answers, eng.Pick(r, "result", "error", "void", "items"))
	}
	if r.P(0.3) {
		s.Y = r.Uint64() | 1
	}
	return s
}

func runA27(c *eng.C, s scA27) error {
	if s.Proto != "json" && s.Proto != "messagepack" || len(s.Kinds) == 0 || len(s.Answers) == 0 || s.Threads < 0 || s.Threads > 20 || s.Calls < 0 || s.Calls > 200 || s.Spin < 0 || s.Spin > 100000 {
		return eng.Discard
	}
	return InBubble(c, func(b *B) error {
		var y *Yield
		if s.Y != 0 {
			y = NewYield(s.Y, 20)
		}
		srv, own := NewPipe(b.Ctx, "c", "c")
		q := make(chan Msg, 100000)
		conn := &conn09{End: own, proto: s.Proto, sent: func(m Msg) error { q <- m; return nil }}
		cl, err := signalr.NewClient(b.Ctx, Quiet(y), signalr.TransferFormat(FormatOf(s.Proto)), signalr.WithConnection(conn), signalr.KeepAliveInterval(time.Hour), signalr.TimeoutInterval(24*time.Hour))
		if err != nil {
			return err
		}
		cl.Start()
		b.Wait()
		_, _ = srv.Write([]byte("{}\x1e"))
		b.Wait()
		raw := &Raw{End: srv, Proto: s.Proto}
		done := make(chan struct{})
		go func() {
			n := -1
			for {
				select {
				case m := <-q:
					if m.Type != 1 && m.Type != 4 {
						continue
					}
					n++
					k := s.Answers[n%len(s.Answers)]
					if n == s.Bad {
						k = s.BadK
					}
					switch k {
					case "result":
						raw.Send(Msg{Type: 3, ID: m.ID, HasID: true, Result: "x", HasResult: true})
					case "error":
						raw.Send(Msg{Type: 3, ID: m.ID, HasID: true, Error: "x", HasError: true})
					case "void":
						raw.Send(Msg{Type: 3, ID: m.ID, HasID: true})
					case "items":
						if m.Type == 4 {
							raw.Send(Msg{Type: 2, ID: m.ID, HasID: true, Item: []any{1, 2}})
						}
						raw.Send(Msg{Type: 3, ID: m.ID, HasID: true})
					case "itemresult":
						if m.Type == 4 {
							raw.Send(Msg{Type: 2, ID: m.ID, HasID: true, Item: 1})
						}
						raw.Send(Msg{Type: 3, ID: m.ID, HasID: true, Result: 1, HasResult: true})
					case "ext":
						if s.Proto == "messagepack" {
							// A result of an unknown extension type can not be decoded
							body := append([]byte{0x95, 3, 0x80, 0xa0 | byte(len(m.ID))}, m.ID...)
							body = append(body, 3, 0xd4, 99, 0)
							_, _ = raw.Write(append([]byte{byte(len(body))}, body...))
						}
					case "unknown":
						raw.Send(Msg{Type: 3, ID: "unknown", HasID: true})
					case "callback":
						raw.Send(Msg{Type: 1, Target: "unknown", ID: "1", HasID: true})
					case "close":
						raw.Send(Msg{Type: 7})
					}
				case <-done:
					return
				}
			}
		}()
		barrier := make(chan struct{})
		for t := range s.Threads {
			go func() {
				<-barrier
				for i := range s.Calls {
					Spin(s.Spin)
					switch s.Kinds[(i+t)%len(s.Kinds)] {
					case "invoke":
						drain(cl.Invoke("m", i))
					case "send":
						drain(cl.Send("m", i))
					case "pull":
						drain(cl.PullStream("m", i))
					case "push":
						ch := make(chan int, 1)
						ch <- i
						close(ch)
						drain(cl.PushStreams("m", i, ch))
					}
				}
			}()
		}
		close(barrier)
		b.Sleep(10 * time.Millisecond)
		close(done)
		if s.Threads > 1 && s.Calls > 1 {
			c.NonTrivial()
		}
		cl.Stop()
		b.Sleep(time.Second)
		return nil
	})
}

func init() {
	f := eng.From
	eng.Register(&eng.Check{
		ID:    "C27",
		Races: true,
		Rule:  "a case of family api is non-trivial when more than two goroutines use more than three kinds of calls; the cases of the other families by the rules of their checks",
		Assume: []string{
			"the race detector sees the accesses of the schedules which were run, and reports none which the happens-before relation of the Go memory model orders",
			"other failures of the borrowed scenarios are judged by their own checks",
		},
		Families: []eng.Family{
			eng.Fam("api", 1500, 40000, gen27, run27),
			eng.Fam("answers", 1500, 20000, genA27, runA27),
			f("C01", "library-pair", 150, 3000), f("C03", "attacks", 300, 10000), f("C05", "histories", 400, 10000),
			f("C07", "panics", 200, 5000), f("C08", "concurrent-calls", 400, 10000), f("C08", "many", 8, 100), f("C09", "endings", 400, 10000),
			f("C09", "races", 200, 5000), f("C09", "connecting", 150, 2000), f("C10", "producer", 200, 5000), f("C10", "consumer", 200, 5000), f("C10", "end-to-end", 200, 5000),
			f("C11", "histories", 200, 5000), f("C11", "uploads", 200, 5000), f("C11", "races", 200, 5000), f("C11", "reuse", 100, 3000),
			f("C11", "push-races", 200, 5000), f("C11", "stalled", 100, 3000), f("C12", "receiver", 200, 5000), f("C12", "sender", 200, 5000),
			f("C12", "end-to-end", 200, 5000), f("C13", "limits", 200, 5000), f("C13", "timeouts", 100, 3000), f("C14", "histories", 200, 5000),
			f("C14", "races", 300, 5000), f("C14", "storm", 300, 5000), f("C15", "lifetimes", 300, 5000), f("C15", "races", 300, 5000),
			f("C16", "traffic", 200, 5000), f("C16", "pairs", 150, 3000), f("C17", "server", 150, 3000), f("C17", "client", 150, 3000),
			f("C18", "histories", 300, 5000), f("C18", "races", 300, 5000), f("C19", "histories", 200, 5000), f("C19", "races", 200, 4000),
			f("C21", "calls", 100, 2000), f("C21", "sizes", 50, 1000), f("C21", "servers", 100, 2000), f("C21", "fallback", 100, 2000),
			f("C22", "histories", 150, 3000), f("C22", "web", 100, 2000), f("C23", "server", 100, 3000), f("C23", "client", 100, 3000),
			f("C24", "server", 200, 5000), f("C24", "client", 200, 5000), f("C24", "web", 60, 1500), f("C25", "values", 200, 5000),
			f("C26", "servers", 150, 3000), f("C26", "storm", 60, 1000),
		},
	})
}
