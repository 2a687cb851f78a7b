package checks

import (
	"fmt"
	"io"
	"time"

	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// Calls and streams which have ended: their ids are unknown again. A peer which goes on using them is refused like one which
// uses ids nobody has ever seen.

type call03s struct {
	K     string // server: count, echo, stream. client: invoke, pull, push
	N     int    // items
	Err   bool   `json:",omitempty"` // ends with error
	Open  bool   `json:",omitempty"` // does not end
	Style uint64 `json:",omitempty"`
}

type sc03s struct {
	Role, Proto string
	Calls       []call03s
	Of          int  // the call which is used again
	K           int  // 0 item 1 completion 2 with result 3 with error
	Inv         bool // server: use the invocation id instead of the stream id
	Style       uint64
}

func gen03s(r *eng.R) sc03s {
	s := sc03s{Role: eng.Pick(r, "server", "client"), Proto: protos[r.IntN(2)], K: r.IntN(4), Inv: r.P(0.3), Style: r.Uint64() | 1}
	n := 1 + r.Heavy(40)
	for i := 0; i < n; i++ {
		x := call03s{N: r.IntN(4), Err: r.P(0.2), Open: r.P(0.2), Style: r.Uint64() | 1}
		if s.Role == "server" {
			x.K = eng.Pick(r, "count", "count", "echo", "stream")
		} else {
			x.K = eng.Pick(r, "invoke", "pull", "push")
		}
		s.Calls = append(s.Calls, x)
	}
	s.Of = r.IntN(n)
	s.Calls[s.Of].Open = false
	return s
}

func run03s(c *eng.C, s sc03s) error {
	if s.Proto != "json" && s.Proto != "messagepack" || s.Of < 0 || s.Of >= len(s.Calls) || s.Calls[s.Of].Open || s.K < 0 || s.K > 3 || len(s.Calls) > 100 {
		return eng.Discard
	}
	stale := func(id string) []byte {
		m := Msg{Type: 3, ID: id}
		switch s.K {
		case 0:
			m = Msg{Type: 2, ID: id, Item: int64(1)}
		case 2:
			m.Result, m.HasResult = int64(1), true
		case 3:
			m.Error, m.HasError = "late", true
		}
		return Encode(s.Proto, m, Style{s.Style})
	}
	c.NonTrivial()
	c.Label("%s %s kind %d", s.Role, s.Calls[s.Of].K, s.K)
	return InBubble(c, func(b *B) error {
		switch s.Role {
		case "server":
			w := &w03{b: b, tick: make(chan int), rec: &Rec{}}
			srv, err := NewServer(b.Ctx, signalr.HubFactory(func() signalr.HubInterface { return &hub03{TypeHub: TypeHub{Rec: &Rec{}}, w: w} }),
				signalr.TimeoutInterval(10000*time.Hour), signalr.StreamBufferCapacity(10))
			if err != nil {
				return err
			}
			by, bySv := b.Connect(srv, "by", "json")
			r, sv := b.Connect(srv, "a", s.Proto)
			target := ""
			for i, x := range s.Calls {
				id, sid := fmt.Sprint("i", i), fmt.Sprint("s", i)
				st := Style{x.Style}
				send := func(m Msg) {
					_, _ = r.Write(Encode(s.Proto, m, st))
					b.Wait()
				}
				want := 1
				switch x.K {
				case "count":
					send(Msg{Type: 1, ID: id, HasID: true, Target: "Count", Args: []any{}, StreamIDs: []string{sid}})
					for k := 0; k < min(x.N, 10); k++ {
						send(Msg{Type: 2, ID: sid, Item: int64(k)})
					}
					if !x.Open {
						m := Msg{Type: 3, ID: sid}
						if x.Err {
							m.Error, m.HasError = "failed", true
						}
						send(m)
					} else {
						want = 0
					}
					if i == s.Of {
						target = sid
						if s.Inv {
							target = id
						}
					}
				case "echo":
					send(Msg{Type: 1, ID: id, HasID: true, Target: "EchoInt", Args: []any{int64(i)}})
					if i == s.Of {
						target = id
					}
				case "stream":
					send(Msg{Type: 4, ID: id, HasID: true, Target: "StreamInt", Args: []any{[]any{int64(1)}}})
					want = 2
					if i == s.Of {
						target = id
					}
				default:
					return eng.Discard
				}
				if l, err := r.New(); err != nil || len(l) != want || sv.Ended() {
					return eng.Errf("%s: call %d %+v gets %v %v, ended %v", s.Proto, i, x, l, err, sv.Ended())
				}
			}
			_, _ = r.Write(stale(target))
			b.Wait()
			if !sv.Ended() {
				return eng.Errf("server/%s: connection goes on after a message (kind %d) for %q, which belongs to a call that has ended: %+v", s.Proto, s.K, target, s.Calls[s.Of])
			}
			by.Send(Msg{Type: 1, ID: "x", HasID: true, Target: "EchoString", Args: []any{"by"}})
			b.Wait()
			if l, err := by.New(); err != nil || len(l) != 1 || l[0].Result != "by" || bySv.Ended() {
				return eng.Errf("server/%s: bystander gets %v %v", s.Proto, l, err)
			}
			return nil
		case "client":
			cl, r, err := b.RawServer(s.Proto, signalr.TimeoutInterval(10000*time.Hour))
			if err != nil {
				return err
			}
			target := ""
			var cols []*Collected[signalr.InvokeResult]
			for i, x := range s.Calls {
				var col *Collected[signalr.InvokeResult]
				switch x.K {
				case "invoke":
					col = Collect(cl.Invoke("A", i))
				case "pull":
					col = Collect(cl.PullStream("B", i))
				case "push":
					ch := make(chan int, 3)
					for k := 0; k < min(x.N, 3); k++ {
						ch <- k
					}
					close(ch)
					col = Collect(cl.PushStreams("C", ch))
				default:
					return eng.Discard
				}
				cols = append(cols, col)
				b.Wait()
				l, err := r.New()
				if err != nil || len(l) == 0 || l[0].ID == "" {
					return eng.Errf("client/%s: call %d sends %v %v", s.Proto, i, l, err)
				}
				id := l[0].ID
				if i == s.Of {
					target = id
				}
				if x.Open {
					continue
				}
				st := Style{x.Style}
				if x.K == "pull" {
					for k := 0; k < min(x.N, 10); k++ {
						_, _ = r.Write(Encode(s.Proto, Msg{Type: 2, ID: id, Item: int64(k)}, st))
						b.Wait()
					}
				}
				m := Msg{Type: 3, ID: id}
				if x.Err {
					m.Error, m.HasError = "failed", true
				} else if x.K != "pull" {
					m.Result, m.HasResult = int64(i), true
				}
				_, _ = r.Write(Encode(s.Proto, m, st))
				b.Wait()
				if l, closed := col.Get(); !closed || cl.State() != signalr.ClientConnected {
					return eng.Errf("client/%s: call %d %+v has not ended: %v, state %v", s.Proto, i, x, l, cl.State())
				}
			}
			_, _ = r.Write(stale(target))
			b.Wait()
			if cl.State() != signalr.ClientClosed {
				return eng.Errf("client/%s: connection goes on after a message (kind %d) for %q, which belongs to a call that has ended: %+v", s.Proto, s.K, target, s.Calls[s.Of])
			}
			for i, col := range cols {
				if l, closed := col.Get(); !closed {
					return eng.Errf("client/%s: call %d does not end: %v", s.Proto, i, l)
				}
			}
			r.CloseWith(io.EOF)
			return nil
		}
		return eng.Discard
	})
}
