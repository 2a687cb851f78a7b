package checks

import (
	"context"
	"fmt"
	"io"
	"reflect"
	"sync"
	"time"

	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// The peer answers while the message it answers is still being written: it uses the id of a stream again as soon as it has the
// completion, or cancels an upload as soon as it has the invocation.

type next11 struct {
	N      int
	End    bool // otherwise it is open until it is canceled or the end of the case
	Buf    int  `json:",omitempty"`
	Cancel int  `json:",omitempty"` // log events after the invocation was written
	Tune   int  `json:",omitempty"`
	Log    int  `json:",omitempty"` // the write of the message which it answers returns after so many log events
}

type chain11 struct {
	Proto  string
	Role   string
	Chains [][]next11 // one after the other with the same id
	Yield  uint64
}

type src11 struct {
	s     chain11
	block chan struct{}
}

func (f *src11) items(i, j int) <-chan string {
	st := f.s.Chains[i][j]
	ch := make(chan string, st.Buf)
	go func() {
		defer close(ch)
		for k := range st.N {
			select {
			case ch <- fmt.Sprintf("%d.%d.%d", i, j, k):
			case <-f.block:
				return
			}
		}
		if !st.End {
			<-f.block
		}
	}()
	return ch
}

type hubX11 struct {
	signalr.Hub
	f *src11
}
type rcvX11 struct {
	signalr.Receiver
	f *src11
}

func (h *hubX11) Items(i, j int) <-chan string { return h.f.items(i, j) }
func (h *rcvX11) Items(i, j int) <-chan string { return h.f.items(i, j) }
func (h *hubX11) Echo(s string) string         { return s }
func (h *rcvX11) Echo(s string) string         { return s }

func gen11x(r *eng.R) chain11 {
	s := chain11{Proto: protos[r.IntN(2)], Role: eng.Pick(r, "server", "client")}
	if r.P(0.3) {
		s.Yield = r.Uint64() | 1
	}
	for n := r.N(1, 4); n > 0; n-- {
		var l []next11
		for k := r.N(1, 12); k > 0; k-- {
			st := next11{N: r.Heavy(8), End: r.P(0.6), Buf: eng.Pick(r, 0, 1, 10), Log: r.N(0, 12)}
			if r.P(0.3) || k > 1 && !st.End {
				st.Cancel, st.Tune = 1+r.Heavy(60), eng.Pick(r, 0, 30, 300, 3000)
			}
			l = append(l, st)
		}
		s.Chains = append(s.Chains, l)
	}
	return s
}

// listen11 is the library's end of a connection. Something may happen while it writes
type listen11 = conn09

func run11x(c *eng.C, s chain11) error {
	if s.Proto != "json" && s.Proto != "messagepack" || s.Role != "server" && s.Role != "client" || len(s.Chains) > 50 {
		return eng.Discard
	}
	for _, l := range s.Chains {
		if len(l) > 100 {
			return eng.Discard
		}
		for k, st := range l {
			if st.N < 0 || st.N > 1000 || st.Buf < 0 || st.Buf > 1000 || st.Cancel < 0 || st.Cancel > 100000 || st.Tune < 0 || st.Tune > 100000 || st.Log < 0 || st.Log > 10000 ||
				!st.End && st.Cancel == 0 && k < len(l)-1 {
				return eng.Discard
			}
		}
	}
	return InBubble(c, func(b *B) error {
		f := &src11{s: s, block: make(chan struct{})}
		var y *Yield
		if s.Yield != 0 {
			y = NewYield(s.Yield, 25)
		}
		log := &atomic11{v: make(chan *multi11, 1)}
		log.v <- &multi11{y: y}
		trigger := func(n int) *Trigger {
			t := NewTrigger(nil)
			t.Arm(n)
			m := <-log.v
			log.v <- &multi11{y: y, l: append(m.l[max(0, len(m.l)-100):len(m.l):len(m.l)], t)}
			return t
		}
		opts := []func(signalr.Party) error{signalr.Logger(log, true), signalr.TimeoutInterval(time.Hour), signalr.KeepAliveInterval(30 * time.Minute), signalr.MaximumReceiveMessageSize(1 << 16)}
		ctx, cancel := context.WithCancel(b.Ctx)
		b.Cleanup(cancel)
		srvEnd, cliEnd := NewPipe(b.Ctx, "c", "c")
		own, peer := srvEnd, cliEnd
		if s.Role == "client" {
			own, peer = cliEnd, srvEnd
		}
		raw := &Raw{End: peer, Proto: s.Proto}
		var mx sync.Mutex
		at := make([]int, len(s.Chains)) // the stream which is running
		start := func(i, j int) {
			st := s.Chains[i][j]
			var t *Trigger
			if st.Cancel > 0 {
				t = trigger(st.Cancel)
			}
			raw.Send(Msg{Type: 4, ID: fmt.Sprint("s", i), HasID: true, Target: "items", Args: []any{i, j}})
			if t != nil {
				go func() {
					t.Wait(st.Tune)
					mx.Lock()
					defer mx.Unlock()
					if at[i] == j {
						raw.Send(Msg{Type: 5, ID: fmt.Sprint("s", i)})
					}
				}()
			}
		}
		conn := &listen11{End: own, proto: s.Proto, sent: func(m Msg) error {
			if m.Type != 3 {
				return nil
			}
			i := -1
			if _, err := fmt.Sscanf(m.ID, "s%d", &i); err != nil || i < 0 || i >= len(s.Chains) {
				return nil
			}
			mx.Lock()
			at[i]++
			j := at[i]
			mx.Unlock()
			if j >= len(s.Chains[i]) {
				return nil
			}
			if st := s.Chains[i][j]; st.Log > 0 {
				t := trigger(st.Log)
				start(i, j)
				t.Wait(0)
			} else {
				start(i, j)
			}
			return nil
		}}
		if s.Role == "server" {
			srv, err := signalr.NewServer(ctx, append(opts, signalr.HubFactory(func() signalr.HubInterface { return &hubX11{f: f} }))...)
			if err != nil {
				return err
			}
			Serve(srv, conn)
			_, _ = raw.Write(Handshake(s.Proto))
		} else {
			cl, err := signalr.NewClient(ctx, append(opts, signalr.WithConnection(conn), signalr.WithReceiver(&rcvX11{f: f}), signalr.TransferFormat(FormatOf(s.Proto)))...)
			if err != nil {
				return err
			}
			cl.Start()
			b.Wait()
			_, _ = raw.Write([]byte("{}\x1e"))
		}
		b.Wait()
		for i := range s.Chains {
			if len(s.Chains[i]) > 0 {
				start(i, 0)
			}
		}
		b.Sleep(time.Second)
		close(f.block)
		b.Sleep(time.Second)
		ms, err := raw.New()
		if err != nil {
			return eng.Errf("%v", err)
		}
		pos := make([]int, len(s.Chains))
		items := make([][]string, len(s.Chains))
		for _, m := range ms {
			i := -1
			if _, err := fmt.Sscanf(m.ID, "s%d", &i); err != nil || i < 0 || i >= len(s.Chains) || m.Type != 2 && m.Type != 3 {
				return eng.Errf("unexpected %v", m)
			}
			if pos[i] >= len(s.Chains[i]) {
				return eng.Errf("stream s%d was invoked %d times, after all are completed this is received: %v", i, pos[i], m)
			}
			if m.Type == 2 {
				items[i] = append(items[i], fmt.Sprint(m.Item))
				continue
			}
			st := s.Chains[i][pos[i]]
			want := make([]string, st.N)
			for k := range want {
				want[k] = fmt.Sprintf("%d.%d.%d", i, pos[i], k)
			}
			g := items[i]
			if len(g) > len(want) || len(g) > 0 && !reflect.DeepEqual(g, want[:len(g)]) || st.Cancel == 0 && len(g) < len(want) {
				return eng.Errf("use %d of stream id s%d (%+v) sends %q, expected %q", pos[i], i, st, g, want)
			}
			if m.HasError {
				return eng.Errf("use %d of stream id s%d is completed with %v", pos[i], i, m)
			}
			c.LabelN("streams", 1)
			if pos[i] > 0 {
				c.NonTrivial()
			}
			pos[i]++
			items[i] = nil
		}
		for i := range pos {
			if pos[i] != len(s.Chains[i]) {
				return eng.Errf("use %d of stream id s%d (%+v) is not completed, items %q", pos[i], i, s.Chains[i][pos[i]], items[i])
			}
		}
		raw.Send(Msg{Type: 1, ID: "echo", HasID: true, Target: "echo", Args: []any{"alive"}})
		b.Wait()
		ms, err = raw.New()
		if err != nil || len(ms) != 1 || ms[0].Type != 3 || ms[0].Result != "alive" {
			return eng.Errf("the connection does not work any more: %v %v", ms, err)
		}
		raw.CloseWith(io.EOF)
		return nil
	})
}

// A client pushes streams, the server cancels them as soon as it has the invocation.

type push11 struct {
	Ups []up11
	Log int // the write of the invocation returns after so many log events
}

type up11 struct {
	N      int
	Buf    int
	End    bool
	When   string // "": not canceled, write: while the invocation is being written, log: after log events
	Cancel int
	Tune   int
}

type pushes11 struct {
	Proto  string
	Pushes []push11
	Yield  uint64
}

func gen11p(r *eng.R) pushes11 {
	s := pushes11{Proto: protos[r.IntN(2)]}
	if r.P(0.3) {
		s.Yield = r.Uint64() | 1
	}
	for n := r.N(1, 8); n > 0; n-- {
		p := push11{Log: r.N(0, 8)}
		for k := r.N(1, 3); k > 0; k-- {
			p.Ups = append(p.Ups, up11{N: r.Heavy(10), Buf: eng.Pick(r, 0, 1, 100), End: r.P(0.4), When: eng.Pick(r, "", "write", "log"), Cancel: 1 + r.Heavy(60), Tune: eng.Pick(r, 0, 30, 300)})
		}
		s.Pushes = append(s.Pushes, p)
	}
	return s
}

func run11p(c *eng.C, s pushes11) error {
	if s.Proto != "json" && s.Proto != "messagepack" || len(s.Pushes) > 100 {
		return eng.Discard
	}
	for _, p := range s.Pushes {
		if len(p.Ups) < 1 || len(p.Ups) > 10 || p.Log < 0 || p.Log > 1000 {
			return eng.Discard
		}
		for _, u := range p.Ups {
			if u.N < 0 || u.N > 1000 || u.Buf < 0 || u.Buf > 1000 || u.When != "" && u.When != "write" && u.When != "log" || u.Cancel < 1 || u.Cancel > 10000 || u.Tune < 0 || u.Tune > 100000 {
				return eng.Discard
			}
		}
	}
	return InBubble(c, func(b *B) error {
		var y *Yield
		if s.Yield != 0 {
			y = NewYield(s.Yield, 25)
		}
		log := &atomic11{v: make(chan *multi11, 1)}
		log.v <- &multi11{y: y}
		trigger := func(n int) *Trigger {
			t := NewTrigger(nil)
			t.Arm(n)
			m := <-log.v
			log.v <- &multi11{y: y, l: append(m.l[max(0, len(m.l)-100):len(m.l):len(m.l)], t)}
			return t
		}
		srv, own := NewPipe(b.Ctx, "c", "c")
		raw := &Raw{End: srv, Proto: s.Proto}
		sids := make([][]string, len(s.Pushes)) // stream ids, in the order of the channel arguments
		ids := make([]string, len(s.Pushes))
		conn := &conn09{End: own, proto: s.Proto, sent: func(m Msg) error {
			if m.Type != 1 || m.Target != "push" || len(m.Args) == 0 {
				return nil
			}
			var i int
			if _, err := fmt.Sscan(fmt.Sprint(m.Args[0]), &i); err != nil || i < 0 || i >= len(s.Pushes) || len(m.StreamIDs) != len(s.Pushes[i].Ups) {
				return nil
			}
			sids[i], ids[i] = m.StreamIDs, m.ID
			p := s.Pushes[i]
			var t *Trigger
			if p.Log > 0 {
				t = trigger(p.Log)
			}
			for k, u := range p.Ups {
				id := m.StreamIDs[k]
				switch u.When {
				case "write":
					raw.Send(Msg{Type: 5, ID: id})
				case "log":
					ct := trigger(u.Cancel)
					go func() {
						ct.Wait(u.Tune)
						raw.Send(Msg{Type: 5, ID: id})
					}()
				}
			}
			if t != nil {
				t.Wait(0)
			}
			return nil
		}}
		ctx, cancel := context.WithCancel(b.Ctx)
		b.Cleanup(cancel)
		cl, err := signalr.NewClient(ctx, signalr.Logger(log, true), signalr.WithConnection(conn), signalr.TransferFormat(FormatOf(s.Proto)), signalr.KeepAliveInterval(30*time.Minute), signalr.TimeoutInterval(time.Hour))
		if err != nil {
			return err
		}
		cl.Start()
		b.Wait()
		_, _ = raw.Write([]byte("{}\x1e"))
		b.Wait()
		block := make(chan struct{})
		var once sync.Once
		b.Cleanup(func() { once.Do(func() { close(block) }) })
		var cols []*Collected[signalr.InvokeResult]
		for i, p := range s.Pushes {
			args := []any{i}
			for k, u := range p.Ups {
				ch := make(chan string, u.Buf)
				args = append(args, ch)
				go func() {
					defer close(ch)
					for n := range u.N {
						select {
						case ch <- fmt.Sprintf("%d.%d.%d", i, k, n):
						case <-block:
							return
						}
					}
					if !u.End {
						<-block
					}
				}()
			}
			cols = append(cols, Collect(cl.PushStreams("push", args...)))
		}
		b.Sleep(time.Second)
		items := map[string][]string{}
		fin := map[string]int{}
		read := func() error {
			ms, err := raw.New()
			if err != nil {
				return eng.Errf("%v", err)
			}
			for _, m := range ms {
				switch m.Type {
				case 2:
					if fin[m.ID] > 0 {
						return eng.Errf("item %v after the completion of stream %s", m.Item, m.ID)
					}
					items[m.ID] = append(items[m.ID], fmt.Sprint(m.Item))
				case 3:
					if fin[m.ID]++; fin[m.ID] > 1 || m.HasError || m.HasResult && m.Result != nil {
						return eng.Errf("stream %s is completed with %v (completion number %d)", m.ID, m, fin[m.ID])
					}
				case 1:
				default:
					return eng.Errf("unexpected %v", m)
				}
			}
			return nil
		}
		if err := read(); err != nil {
			return err
		}
		for i, p := range s.Pushes {
			if sids[i] == nil {
				return eng.Errf("push %d was not sent", i)
			}
			for k, u := range p.Ups {
				want := make([]string, u.N)
				for n := range want {
					want[n] = fmt.Sprintf("%d.%d.%d", i, k, n)
				}
				g := items[sids[i][k]]
				if len(g) > len(want) || len(g) > 0 && !reflect.DeepEqual(g, want[:len(g)]) {
					return eng.Errf("upload %d of push %d sends %q, expected %q", k, i, g, want)
				}
				if u.When != "" {
					c.NonTrivial()
					if fin[sids[i][k]] != 1 {
						return eng.Errf("upload %d of push %d (%+v) was canceled, but it is completed %d times after %d items", k, i, u, fin[sids[i][k]], len(g))
					}
				} else if len(g) != len(want) || (fin[sids[i][k]] == 1) != u.End {
					return eng.Errf("upload %d of push %d (%+v) was not canceled, but %d items were sent, it is completed %d times", k, i, u, len(g), fin[sids[i][k]])
				}
			}
		}
		once.Do(func() { close(block) })
		for i := range s.Pushes {
			raw.Send(Msg{Type: 3, ID: ids[i], HasID: true, Result: i, HasResult: true})
		}
		b.Sleep(time.Second)
		if err := read(); err != nil {
			return err
		}
		for i, p := range s.Pushes {
			for k := range p.Ups {
				if fin[sids[i][k]] != 1 {
					return eng.Errf("upload %d of push %d has ended, but is completed %d times", k, i, fin[sids[i][k]])
				}
			}
			if irs, closed := cols[i].Get(); !closed || len(irs) != 1 || irs[0].Error != nil || fmt.Sprint(irs[0].Value) != fmt.Sprint(i) {
				return eng.Errf("PushStreams %d returns %v (closed: %v)", i, irs, closed)
			}
		}
		srv.CloseWith(io.EOF)
		return nil
	})
}
