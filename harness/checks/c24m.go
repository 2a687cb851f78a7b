package checks

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"time"
	"unsafe"
	"weak"

	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// sc24m is a server with many connections, which have all ended but one.
type sc24m struct {
	Hub   string
	N     int
	Proto []string
	Work  []string
	Cause []string // the connections take turns
	Keep  int      // milliseconds a connection is open
	Yield uint64   `json:",omitempty"`
}

var causes24m = []string{"abort", "timeout", "malformed", "unknown", "close", "eof", "readerr", "halfeof", "cancel", "writefail", "bye", "half"}

type hub24m struct {
	signalr.Hub
	seen func(h *hub24m)
}

func (h *hub24m) OnConnected(string) {
	h.Items().Store("big", make([]byte, 100))
	h.seen(h)
}
func (h *hub24m) Echo(s string) string { return s }
func (h *hub24m) Join(g string)        { h.Groups().AddToGroup(g, h.ConnectionID()) }
func (h *hub24m) Rejoin(g string) {
	h.Groups().AddToGroup(g, h.ConnectionID())
	h.Groups().RemoveFromGroup(g, h.ConnectionID())
	h.Groups().AddToGroup(g+"2", h.ConnectionID())
}
func (h *hub24m) Never() <-chan int { return make(chan int) }
func (h *hub24m) Up(ch <-chan int) int {
	n := 0
	for range ch {
		n++
	}
	return n
}
func (h *hub24m) Panic()                { panic("p") }
func (h *hub24m) Quit()                 { h.Abort() }
func (h *hub24m) Bye(s string, re bool) { _ = h.Close(s, re) }
func (h *hub24m) Notes(n int) {
	for k := 0; k < n; k++ {
		h.Clients().All().Send("Note", k)
		h.Clients().Group("g").Send("Note", k)
	}
}

var works24m = []string{"echo", "join", "rejoin", "never", "chan", "up", "panic", "notes"}

type traces24 struct {
	mx    sync.Mutex
	conns []weak.Pointer[End]
	ids   []weak.Pointer[byte]
	hubs  []weak.Pointer[hub24m]
}

func (t *traces24) left() (conns, ids, hubs int) {
	for k := 0; k < 3; k++ {
		runtime.GC()
	}
	for _, p := range t.conns {
		if p.Value() != nil {
			conns++
		}
	}
	for _, p := range t.ids {
		if p.Value() != nil {
			ids++
		}
	}
	for _, p := range t.hubs {
		if p.Value() != nil {
			hubs++
		}
	}
	return
}

func run24m(c *eng.C, s sc24m) error {
	if s.N < 6 || s.N > 40 || len(s.Cause) < 1 || len(s.Work) > 20 || len(s.Proto) < 1 || s.Keep < 0 || s.Keep > 10000 || s.Hub != "transient" && s.Hub != "perconn" {
		return eng.Discard
	}
	for _, l := range [][2][]string{{s.Proto, protos[:]}, {s.Work, works24m}, {s.Cause, causes24m}} {
		for _, v := range l[0] {
			if !has21(l[1], v) {
				return eng.Discard
			}
		}
	}
	return InBubble(c, func(b *B) error {
		var y *Yield
		if s.Yield != 0 {
			y = NewYield(s.Yield, 25)
		}
		t := &traces24{}
		opts := []func(signalr.Party) error{Quiet(y), signalr.TimeoutInterval(20 * time.Second), signalr.KeepAliveInterval(3 * time.Second),
			signalr.MaximumReceiveMessageSize(10000), signalr.HandshakeTimeout(time.Second), signalr.ChanReceiveTimeout(3 * time.Millisecond)}
		factory := func() signalr.HubInterface {
			return &hub24m{seen: func(h *hub24m) {
				t.mx.Lock()
				defer t.mx.Unlock()
				t.hubs = append(t.hubs, weak.Make(h))
			}}
		}
		if s.Hub == "perconn" {
			opts = append(opts, signalr.PerConnectionHubFactory(func(string) signalr.HubInterface { return factory() }))
		} else {
			opts = append(opts, signalr.HubFactory(factory))
		}
		ctx, stop := context.WithCancel(b.Ctx)
		b.Cleanup(stop)
		srv, err := signalr.NewServer(ctx, opts...)
		if err != nil {
			return err
		}
		b.Wait()
		one := func(i int, survives bool) (*Raw, error) {
			id := fmt.Sprintf("connection %d of many, %s", i, strings.Repeat("x", 40))
			proto := s.Proto[i%len(s.Proto)]
			// The ends of the pipe have a context of their own, the caller of Serve ends it
			ctx, cancel := context.WithCancel(b.Ctx)
			sv, cl := NewPipe(ctx, id, id)
			raw := &Raw{End: cl, Proto: proto}
			if !survives {
				t.mx.Lock()
				t.conns = append(t.conns, weak.Make(sv))
				t.ids = append(t.ids, weak.Make(unsafe.StringData(id)))
				t.mx.Unlock()
			}
			served := Serve(srv, sv)
			cause := s.Cause[i%len(s.Cause)]
			if survives || cause != "half" {
				_, _ = raw.Write(Handshake(proto))
				b.Wait()
				raw.Send(Msg{Type: 1, Target: "join", Args: []any{"g"}})
				for k, w := range s.Work {
					id := fmt.Sprintf("w%d", k)
					switch w {
					case "echo":
						raw.Send(Msg{Type: 1, ID: id, Target: "echo", Args: []any{"x"}})
					case "join", "rejoin":
						raw.Send(Msg{Type: 1, Target: w, Args: []any{fmt.Sprintf("g%d", i%3)}})
					case "never":
						raw.Send(Msg{Type: 4, ID: id, Target: "never", Args: []any{}})
					case "chan":
						raw.Send(Msg{Type: 1, ID: id, Target: "never", Args: []any{}})
					case "up":
						raw.Send(Msg{Type: 1, ID: id, Target: "up", Args: []any{}, StreamIDs: []string{"u" + id}}, Msg{Type: 2, ID: "u" + id, Item: k})
					case "panic":
						raw.Send(Msg{Type: 1, ID: id, Target: "panic", Args: []any{}})
					case "notes":
						raw.Send(Msg{Type: 1, Target: "notes", Args: []any{3}})
					}
				}
				b.Wait()
			}
			if survives {
				return raw, nil
			}
			b.Sleep(time.Duration(s.Keep) * time.Millisecond)
			switch cause {
			case "abort":
				raw.Send(Msg{Type: 1, Target: "quit", Args: []any{}})
			case "malformed":
				if proto == "json" {
					_, _ = raw.Write([]byte("{]\x1e"))
				} else {
					_, _ = raw.Write([]byte{0x02, 0x91, 0xc1})
				}
			case "unknown":
				raw.Send(Msg{Type: 2, ID: "nobody", Item: 1})
			case "close":
				raw.Send(Msg{Type: 7})
			case "bye":
				raw.Send(Msg{Type: 1, Target: "bye", Args: []any{"bye", true}})
				b.Wait()
				raw.CloseWith(io.EOF)
			case "eof":
				raw.CloseWith(io.EOF)
			case "readerr":
				raw.CloseWith(errors.New("read error"))
			case "halfeof":
				raw.CloseWrite(io.EOF)
			case "cancel":
				sv.Cancel()
			case "writefail":
				sv.FailWriteAfter(3, errors.New("write error"))
			}
			for k := 0; k < 300 && !served.Ended(); k++ {
				b.Sleep(100 * time.Millisecond)
			}
			if !served.Ended() {
				return nil, eng.Errf("Serve has not returned 30 s after: %s", cause)
			}
			cancel()
			sv.Cancel()
			raw.Cancel()
			b.Wait()
			return nil, nil
		}
		last, err := one(1000, true)
		if err != nil {
			return err
		}
		stopPings := make(chan struct{})
		go func() {
			for {
				select {
				case <-time.After(2222 * time.Millisecond):
					last.Send(Msg{Type: 6})
				case <-stopPings:
					return
				case <-b.Ctx.Done():
					return
				}
			}
		}()
		for i := 0; i < s.N; i++ {
			if _, err := one(i, false); err != nil {
				return err
			}
		}
		b.Sleep(30 * time.Second)
		// The survivor still works. What a method needed before may be reused
		_, _ = last.New()
		for k := 0; k < 4; k++ {
			last.Send(Msg{Type: 1, ID: fmt.Sprintf("last%d", k), Target: "echo", Args: []any{"x"}}, Msg{Type: 1, Target: "notes", Args: []any{1}})
			b.Sleep(10 * time.Millisecond)
		}
		if ms, err := last.New(); err != nil || len(ms) < 4 {
			return eng.Errf("%d connections have ended, another one does not work any more", s.N)
		}
		conns, ids, hubs := t.left()
		runtime.KeepAlive(srv)
		// Something of the last ones may be kept for reuse
		most := func(n, of int) bool { return n > of/2 }
		if most(conns, s.N) {
			return eng.Errf("%d connections have ended (%v), %d of them are still in use by the server", s.N, s.Cause, conns)
		}
		if most(ids, s.N) {
			return eng.Errf("%d connections have ended (%v), %d of their ids are still in use by the server", s.N, s.Cause, ids)
		}
		if n := len(t.hubs); n > 4 && most(hubs, n) {
			return eng.Errf("%d connections have ended (%v), %d of %d hubs are still in use by the server", s.N, s.Cause, hubs, n)
		}
		close(stopPings)
		if len(s.Work) > 0 {
			c.NonTrivial()
		}
		return nil
	})
}

func gen24m(r *eng.R) sc24m {
	s := sc24m{Hub: eng.Pick(r, "transient", "perconn"), N: r.N(6, 14), Keep: eng.Pick(r, 0, r.N(0, 100), r.Heavy(8000))}
	s.Proto = []string{protos[r.IntN(2)]}
	s.Cause = []string{causes24m[r.IntN(len(causes24m))]}
	if r.P(0.3) {
		s.Proto = append(s.Proto, protos[r.IntN(2)])
		s.Cause = append(s.Cause, causes24m[r.IntN(len(causes24m))])
	}
	for k := r.Heavy(10); k > 0; k-- {
		s.Work = append(s.Work, works24m[r.IntN(len(works24m))])
	}
	if r.P(0.5) {
		s.Yield = r.Uint64() | 1
	}
	return s
}
