package checks

import (
	"context"
	"fmt"
	"io"
	"reflect"
	"time"

	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// Cancellations race with the start, the items and the end of streams. The moments are chosen among the steps of the code.

type strm11 struct {
	N      int  // items
	End    bool // the stream ends after its items, otherwise it stays open
	Buf    int
	Single bool `json:",omitempty"` // not a channel, one item
	Cancel int  `json:",omitempty"` // 0: not canceled, otherwise number of log events after the invocations were written
	Tune   int  `json:",omitempty"`
	Twice  bool `json:",omitempty"`
}

type race11 struct {
	Proto  string
	Role   string // the library is: server client
	Max    int
	Rounds [][]strm11
	One    bool // all invocations in one write
	Same   bool // each round uses the ids of the first one
	Yield  uint64
}

type hub11 struct {
	signalr.Hub
	f *from11
}

type rcv11 struct {
	signalr.Receiver
	f *from11
}

type from11 struct {
	round int
	s     race11
	block chan struct{}
}

func (f *from11) items(i int) <-chan string {
	st := f.s.Rounds[f.round][i]
	ch := make(chan string, st.Buf)
	block, round := f.block, f.round
	go func() {
		defer close(ch)
		for k := range st.N {
			select {
			case ch <- fmt.Sprintf("%d.%d.%d", round, i, k):
			case <-block:
				return
			}
		}
		if !st.End {
			<-block
		}
	}()
	return ch
}

func (h *hub11) Items(i int) <-chan string { return h.f.items(i) }
func (h *hub11) Single(i int) string       { return fmt.Sprintf("%d.%d.0", h.f.round, i) }
func (h *hub11) Echo(s string) string      { return s }
func (h *rcv11) Items(i int) <-chan string { return h.f.items(i) }
func (h *rcv11) Single(i int) string       { return fmt.Sprintf("%d.%d.0", h.f.round, i) }
func (h *rcv11) Echo(s string) string      { return s }

// multi11 passes log events to several triggers
type multi11 struct {
	y *Yield
	l []*Trigger
}

func (m *multi11) Log(...any) error {
	for _, t := range m.l {
		_ = t.Log()
	}
	if m.y != nil {
		m.y.Do()
	}
	return nil
}

type atomic11 struct{ v chan *multi11 }

func (a *atomic11) Log(...any) error {
	m := <-a.v
	a.v <- m
	return m.Log()
}

func gen11r(r *eng.R) race11 {
	s := race11{Proto: protos[r.IntN(2)], Role: eng.Pick(r, "server", "server", "client"), Max: eng.Pick(r, 1, 2, 10, 100), One: r.P(0.5), Same: r.P(0.5)}
	if r.P(0.3) {
		s.Yield = r.Uint64() | 1
	}
	for k := r.N(1, 10); k > 0; k-- {
		var l []strm11
		for j := r.N(1, 6); j > 0; j-- {
			st := strm11{N: r.Heavy(20), End: r.P(0.5), Buf: eng.Pick(r, 0, 1, 10), Single: r.P(0.1)}
			if st.Single {
				st.N, st.End = 1, true
			}
			if r.P(0.7) {
				st.Cancel, st.Tune, st.Twice = r.Heavy(100), eng.Pick(r, 0, 30, 300, 3000), r.P(0.15)
			}
			l = append(l, st)
		}
		s.Rounds = append(s.Rounds, l)
	}
	return s
}

func run11r(c *eng.C, s race11) error {
	if s.Proto != "json" && s.Proto != "messagepack" || s.Role != "server" && s.Role != "client" || len(s.Rounds) > 100 || s.Max < 0 {
		return eng.Discard
	}
	for _, l := range s.Rounds {
		if len(l) > 50 {
			return eng.Discard
		}
		for _, st := range l {
			if st.N < 0 || st.N > 1000 || st.Buf < 0 || st.Buf > 1000 || st.Cancel < 0 || st.Cancel > 100000 || st.Tune < 0 || st.Tune > 100000 || st.Single && (st.N != 1 || !st.End) {
				return eng.Discard
			}
		}
	}
	return InBubble(c, func(b *B) error {
		f := &from11{s: s}
		var y *Yield
		if s.Yield != 0 {
			y = NewYield(s.Yield, 25)
		}
		log := &atomic11{v: make(chan *multi11, 1)}
		log.v <- &multi11{y: y}
		opts := []func(signalr.Party) error{signalr.Logger(log, true), signalr.MaximumReceiveMessageSize(1 << 16), signalr.TimeoutInterval(time.Hour), signalr.KeepAliveInterval(30 * time.Minute),
			signalr.StreamBufferCapacity(10), signalr.ChanReceiveTimeout(time.Second)}
		ctx, cancel := context.WithCancel(b.Ctx)
		b.Cleanup(cancel)
		srvEnd, cliEnd := NewPipe(b.Ctx, "c", "c")
		var raw *Raw
		if s.Role == "server" {
			srv, err := signalr.NewServer(ctx, append(opts, signalr.HubFactory(func() signalr.HubInterface { return &hub11{f: f} }))...)
			if err != nil {
				return err
			}
			Serve(srv, srvEnd)
			raw = &Raw{End: cliEnd, Proto: s.Proto}
			_, _ = raw.Write(Handshake(s.Proto))
		} else {
			cl, err := signalr.NewClient(ctx, append(opts, signalr.WithConnection(cliEnd), signalr.WithReceiver(&rcv11{f: f}), signalr.TransferFormat(FormatOf(s.Proto)))...)
			if err != nil {
				return err
			}
			raw = &Raw{End: srvEnd, Proto: s.Proto}
			cl.Start()
			b.Wait()
			_, _ = raw.Write([]byte("{}\x1e"))
		}
		b.Wait()
		for round, l := range s.Rounds {
			f.round, f.block = round, make(chan struct{})
			block := f.block
			id := func(i int) string {
				if s.Same {
					return fmt.Sprint("s", i)
				}
				return fmt.Sprintf("s%d.%d", round, i)
			}
			m := &multi11{y: y}
			written := make(chan struct{})
			cancelled := make([]bool, len(l))
			for i, st := range l {
				if st.Cancel == 0 {
					continue
				}
				t := NewTrigger(nil)
				m.l = append(m.l, t)
				cancelled[i] = true
				go func() {
					<-written
					t.Wait(st.Tune)
					raw.Send(Msg{Type: 5, ID: id(i)})
					if st.Twice {
						raw.Send(Msg{Type: 5, ID: id(i)})
					}
				}()
				t.Arm(st.Cancel)
			}
			<-log.v
			log.v <- m
			var all []byte
			for i, st := range l {
				p := Encode(s.Proto, Msg{Type: 4, ID: id(i), HasID: true, Target: map[bool]string{true: "single", false: "items"}[st.Single], Args: []any{i}}, Style{})
				if s.One {
					all = append(all, p...)
				} else {
					_, _ = raw.Write(p)
				}
			}
			if s.One {
				_, _ = raw.Write(all)
			}
			close(written)
			b.Wait()
			b.Sleep(10 * time.Millisecond)
			got := map[string][]string{}
			fin := map[string]int{}
			read := func() error {
				ms, err := raw.New()
				if err != nil {
					return eng.Errf("round %d: %v", round, err)
				}
				for _, m := range ms {
					switch m.Type {
					case 2:
						if fin[m.ID] > 0 {
							return eng.Errf("round %d: stream %s: item %v after the completion", round, m.ID, m.Item)
						}
						got[m.ID] = append(got[m.ID], fmt.Sprint(m.Item))
					case 3:
						if fin[m.ID]++; fin[m.ID] > 1 || m.HasError || m.HasResult && m.Result != nil {
							return eng.Errf("round %d: stream %s is completed with %v (completion number %d)", round, m.ID, m, fin[m.ID])
						}
					case 6:
					default:
						return eng.Errf("round %d: unexpected %v", round, m)
					}
				}
				return nil
			}
			if err := read(); err != nil {
				return err
			}
			for i, st := range l {
				want := make([]string, st.N)
				for k := range want {
					want[k] = fmt.Sprintf("%d.%d.%d", round, i, k)
				}
				g := got[id(i)]
				if len(g) > len(want) || len(g) > 0 && !reflect.DeepEqual(g, want[:len(g)]) {
					return eng.Errf("round %d: stream %d sends %q, expected %q", round, i, g, want)
				}
				c.LabelN("streams", 1)
				if cancelled[i] {
					c.NonTrivial()
					if len(g) < len(want) {
						c.Label("canceled before the last item")
					}
					if st.Single && len(g) != 1 || fin[id(i)] != 1 {
						return eng.Errf("round %d: stream %d (%+v) was canceled, but it is completed %d times after %d items", round, i, st, fin[id(i)], len(g))
					}
					continue
				}
				if len(g) != len(want) || (fin[id(i)] == 1) != st.End {
					return eng.Errf("round %d: stream %d (%+v) was not canceled, but it sent %d items and was completed %d times", round, i, st, len(g), fin[id(i)])
				}
			}
			// the others end
			close(block)
			b.Sleep(10 * time.Millisecond)
			had := map[string]int{}
			for k, v := range got {
				had[k] = len(v)
			}
			if err := read(); err != nil {
				return err
			}
			for i := range l {
				if fin[id(i)] != 1 || len(got[id(i)]) != had[id(i)] {
					return eng.Errf("round %d: stream %d has ended, but it is completed %d times (items: %d, %d)", round, i, fin[id(i)], had[id(i)], len(got[id(i)]))
				}
			}
		}
		raw.Send(Msg{Type: 1, ID: "echo", HasID: true, Target: "echo", Args: []any{"alive"}})
		b.Wait()
		ms, err := raw.New()
		if err != nil || len(ms) != 1 || ms[0].Type != 3 || ms[0].Result != "alive" {
			return eng.Errf("the connection does not work any more: %v %v", ms, err)
		}
		raw.CloseWith(io.EOF)
		return nil
	})
}
