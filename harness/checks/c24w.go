package checks

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// sc24w are library clients and a library server over HTTP. The connection of the first client ends.
type sc24w struct {
	T, P  string
	N     int  // clients
	Re    bool `json:",omitempty"` // the first client connects again
	Ver   int
	Work  []string
	Cause string
	Also  string `json:",omitempty"`
	At    int
	Yield uint64 `json:",omitempty"`
}

var (
	causes24w = []string{"stop", "ctx", "serverstop", "abort", "bye", "cutclient", "cutserver", "idle"}
	works24w  = []string{"invoke", "pull", "push", "echo", "send", "block", "back", "quickpull"}
)

type hub24w struct {
	signalr.Hub
	x *x24w
}

func (h *hub24w) OnConnected(id string)    { h.x.rec.Add("on", id) }
func (h *hub24w) OnDisconnected(id string) { h.x.rec.Add("off", id) }
func (h *hub24w) Echo(s string) string     { h.x.rec.Add("Echo", h.ConnectionID()); return s }
func (h *hub24w) Ctx() string {
	h.x.rec.Add("Ctx", h.ConnectionID())
	<-h.Context().Done()
	return "x"
}
func (h *hub24w) Block() string { <-h.x.block; return "x" }
func (h *hub24w) Items() <-chan int {
	ch := make(chan int)
	go func() {
		defer close(ch)
		for i := 0; ; i++ {
			select {
			case ch <- i:
				time.Sleep(30 * time.Millisecond)
			case <-h.x.block:
				return
			}
		}
	}()
	return ch
}
func (h *hub24w) Three() <-chan int {
	ch := make(chan int, 3)
	ch <- 1
	ch <- 2
	close(ch)
	return ch
}
func (h *hub24w) Up(ch <-chan int) int {
	n := 0
	for range ch {
		n++
	}
	return n
}
func (h *hub24w) Back()  { h.Clients().Caller().Send("Told", "x") }
func (h *hub24w) Quit()  { h.Abort() }
func (h *hub24w) Leave() { _ = h.Close("leave", true) }

type rcv24w struct {
	signalr.Receiver
	x *x24w
	i int
}

func (r *rcv24w) Told(s string) { r.x.rec.Add("Told", fmt.Sprint(r.i)) }

type x24w struct {
	rec   *Rec
	block chan struct{}
}

func (s sc24w) valid() bool {
	if !has21([]string{"ws", "sse"}, s.T) || !has21(protos[:], s.P) || s.T == "sse" && s.P != "json" || s.N < 1 || s.N > 4 || s.Ver < 0 || s.Ver > 1 || s.At < 0 || s.At > 20000 || len(s.Work) > 30 {
		return false
	}
	if !has21(causes24w, s.Cause) || s.Also != "" && !has21(causes24w, s.Also) || s.Also == s.Cause {
		return false
	}
	for _, w := range s.Work {
		if !has21(works24w, w) {
			return false
		}
	}
	return true
}

func run24w(c *eng.C, s sc24w) error {
	if !s.valid() {
		return eng.Discard
	}
	return InBubble(c, func(b *B) error {
		x := &x24w{rec: &Rec{}, block: make(chan struct{})}
		var once sync.Once
		release := func() { once.Do(func() { close(x.block) }) }
		b.Cleanup(release)
		quiet := func() func(signalr.Party) error {
			if s.Yield != 0 {
				return Quiet(NewYield(s.Yield, 25))
			}
			return Quiet(nil)
		}
		sctx, sstop := context.WithCancel(b.Ctx)
		b.Cleanup(sstop)
		srv, err := signalr.NewServer(sctx, quiet(), signalr.HubFactory(func() signalr.HubInterface { return &hub24w{x: x} }), signalr.TimeoutInterval(6*time.Second), signalr.KeepAliveInterval(2*time.Second))
		if err != nil {
			return err
		}
		web := b.Web(srv, nil)
		type party struct {
			cl      signalr.Client
			cancel  context.CancelFunc
			dials   int
			id      string
			done    []func() bool
			mx      sync.Mutex
			forbid  bool
			c, s    []*MemConn
			stopped bool
		}
		var ps []*party
		open := func(i int) (*party, error) {
			p := &party{}
			w := *web
			hc := (&x24{b: b, web: &w}).httpFor(func(c, s *MemConn) {
				p.mx.Lock()
				defer p.mx.Unlock()
				p.c, p.s = append(p.c, c), append(p.s, s)
			})
			tr := signalr.TransportWebSockets
			if s.T == "sse" {
				tr = signalr.TransportServerSentEvents
			}
			ctx, cancel := context.WithCancel(b.Ctx)
			p.cancel = cancel
			n := len(x.rec.Calls())
			p.cl, err = signalr.NewClient(ctx, quiet(), signalr.TransferFormat(FormatOf(s.P)), signalr.WithReceiver(&rcv24w{x: x, i: i}),
				signalr.TimeoutInterval(6*time.Second), signalr.KeepAliveInterval(2*time.Second),
				signalr.WithBackoff(func() backoff.BackOff { return backoff.NewConstantBackOff(3 * time.Second) }),
				signalr.WithConnector(func() (signalr.Connection, error) {
					p.mx.Lock()
					bad := p.forbid || p.dials > 0 && !s.Re
					p.dials++
					p.mx.Unlock()
					if bad {
						return nil, errors.New("not again")
					}
					return signalr.NewHTTPConnection(b.Ctx, "http://test.local/hub", signalr.WithHTTPClient(hc), signalr.WithTransports(tr), signalr.WithNegotiateVersion(s.Ver))
				}))
			if err != nil {
				return nil, err
			}
			p.cl.Start()
			for k := 0; k < 100 && p.cl.State() != signalr.ClientConnected; k++ {
				b.Sleep(20 * time.Millisecond)
			}
			if st := p.cl.State(); st != signalr.ClientConnected {
				return nil, eng.Errf("client %d is in state %d: %v", i, st, p.cl.Err())
			}
			for k := 0; k < 100 && p.id == ""; k++ {
				b.Sleep(20 * time.Millisecond)
				for _, c := range x.rec.CallsFrom(n) {
					if c.Method == "on" {
						p.id = c.Conn
					}
				}
			}
			return p, nil
		}
		ask := func(p *party) error {
			col := Collect(p.cl.Invoke("echo", "x"))
			b.Sleep(500 * time.Millisecond)
			if l, _ := col.Get(); len(l) != 1 || l[0].Value != "x" {
				return eng.Errf("Echo returns %v", l)
			}
			return nil
		}
		const own = "github.com/philippseith/signalr"
		left := func(base map[string]bool) string {
			for _, g := range b.Goroutines(own, "coder/websocket") {
				if !base[goid24(g)] {
					return g
				}
			}
			return ""
		}
		stop := func(p *party) error {
			p.stopped = true
			v := make(chan struct{})
			go func() { p.cl.Stop(); close(v) }()
			b.Sleep(10 * time.Second)
			select {
			case <-v:
				return nil
			default:
				return eng.Errf("%s %s: Stop has not returned after 10 s", s.Cause, s.Also)
			}
		}
		// Goroutines of the server itself have started after this
		warm, err := open(99)
		if err != nil {
			return err
		}
		if err := ask(warm); err != nil {
			return err
		}
		if err := stop(warm); err != nil {
			return err
		}
		b.Sleep(10 * time.Second)
		base := map[string]bool{}
		for _, g := range b.Goroutines(own, "coder/websocket") {
			base[goid24(g)] = true
		}
		for i := 0; i < s.N; i++ {
			p, err := open(i)
			if err != nil {
				return err
			}
			ps = append(ps, p)
		}
		for i, w := range s.Work {
			p := ps[i%len(ps)]
			if i%3 == 0 {
				p = ps[0]
			}
			cl := p.cl
			var d func() bool
			switch w {
			case "invoke":
				d = ended24(Collect(cl.Invoke("ctx")))
			case "block":
				d = ended24(Collect(cl.Invoke("block")))
			case "echo":
				d = ended24(Collect(cl.Invoke("echo", "x")))
			case "pull":
				d = ended24(Collect(cl.PullStream("items")))
			case "quickpull":
				d = ended24(Collect(cl.PullStream("three")))
			case "push":
				ch := make(chan int)
				go func() {
					for n := 0; ; n++ {
						select {
						case ch <- n:
							time.Sleep(20 * time.Millisecond)
						case <-b.Ctx.Done():
							return
						}
					}
				}()
				d = ended24(Collect(cl.PushStreams("up", ch)))
			case "send":
				cl.Send("echo", "x")
				continue
			case "back":
				cl.Send("back")
				continue
			}
			p.done = append(p.done, d)
		}
		b.Sleep(time.Duration(s.At) * time.Millisecond)
		e := ps[0]
		if st := e.cl.State(); st != signalr.ClientConnected {
			return eng.Errf("the connection ends without a reason: state %d %v", st, e.cl.Err())
		}
		var stops []chan struct{}
		do := func(cause string) {
			switch cause {
			case "stop":
				v := make(chan struct{})
				stops = append(stops, v)
				go func() { e.cl.Stop(); close(v) }()
			case "ctx":
				e.cancel()
			case "serverstop":
				sstop()
			case "abort":
				e.cl.Send("quit")
			case "bye":
				e.cl.Send("leave")
			case "cutclient", "cutserver":
				e.mx.Lock()
				l := e.c
				if cause == "cutserver" {
					l = e.s
				}
				for _, m := range l {
					_ = m.Close()
				}
				e.mx.Unlock()
			case "idle":
				e.mx.Lock()
				for _, m := range append(append([]*MemConn{}, e.c...), e.s...) {
					m.Stall(true)
				}
				e.mx.Unlock()
			}
		}
		do(s.Cause)
		if s.Also != "" {
			do(s.Also)
		}
		what := fmt.Sprintf("%s %s (%s %s)", s.Cause, s.Also, s.T, s.P)
		serverStopped := s.Cause == "serverstop" || s.Also == "serverstop"
		// In time, both ends know
		off := func(id string) (n int) {
			for _, c := range x.rec.Calls() {
				if c.Method == "off" && c.Conn == id {
					n++
				}
			}
			return
		}
		b.Sleep(25 * time.Second)
		for _, v := range stops {
			select {
			case <-v:
			default:
				return eng.Errf("%s: Stop has not returned after 25 s", what)
			}
		}
		for i, p := range ps {
			if (p == e || serverStopped) != (off(p.id) == 1) {
				return eng.Errf("%s: OnDisconnected was called %d times for the connection of client %d", what, off(p.id), i)
			}
		}
		c.Label("%s %s", s.Cause, s.T)
		for i, d := range e.done {
			if !d() {
				return eng.Errf("%s: call %d has not come to an end", what, i)
			}
		}
		clientEnded := s.Cause == "stop" || s.Cause == "ctx" || s.Also == "stop" || s.Also == "ctx"
		if st := e.cl.State(); clientEnded && st != signalr.ClientClosed {
			return eng.Errf("%s: state %d", what, st)
		}
		if !clientEnded && s.Re && !serverStopped {
			if st := e.cl.State(); st != signalr.ClientConnected {
				return eng.Errf("%s: the client has not connected again: state %d, %v", what, st, e.cl.Err())
			}
			if err := ask(e); err != nil {
				return eng.Errf("%s: after connecting again %v", what, err)
			}
			c.Label("again")
		}
		// The other connections go on
		if !serverStopped {
			for i, p := range ps[1:] {
				if err := ask(p); err != nil {
					return eng.Errf("%s: client %d: %v", what, i+1, err)
				}
			}
		}
		release()
		b.Sleep(100 * time.Millisecond)
		for _, p := range ps {
			p.mx.Lock()
			p.forbid = true
			p.mx.Unlock()
			if err := stop(p); err != nil {
				return err
			}
		}
		mark := len(x.rec.Calls())
		srv.HubClients().All().Send("Told", "late")
		b.Sleep(30 * time.Second)
		for _, cl := range x.rec.CallsFrom(mark) {
			return eng.Errf("%s: all clients are stopped, but then %v is called", what, cl)
		}
		if serverStopped {
			base = nil
		}
		if g := left(base); g != "" {
			return eng.Errf("%s: all clients are stopped, this is left over: %s", what, g)
		}
		sstop()
		b.Sleep(30 * time.Second)
		if g := left(nil); g != "" {
			return eng.Errf("%s: all clients and the server are stopped, this is left over: %s", what, g)
		}
		if len(s.Work) > 0 {
			c.NonTrivial()
		}
		return nil
	})
}

func gen24w(r *eng.R) sc24w {
	for {
		s := sc24w{T: eng.Pick(r, "ws", "sse"), P: protos[r.IntN(2)], N: 1 + r.Weighted(3, 1, 1), Re: r.P(0.4), Ver: r.IntN(2), At: eng.Pick(r, 0, 0, r.N(0, 200), r.Heavy(8000))}
		if r.P(0.6) {
			s.Yield = r.Uint64() | 1
		}
		s.Cause = causes24w[r.IntN(len(causes24w))]
		if r.P(0.2) {
			s.Also = causes24w[r.IntN(len(causes24w))]
		}
		for k := r.Heavy(10); k > 0; k-- {
			s.Work = append(s.Work, works24w[r.IntN(len(works24w))])
		}
		if s.valid() {
			return s
		}
	}
}
