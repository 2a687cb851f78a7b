package checks

import (
	"context"
	"fmt"
	"io"
	"reflect"
	"time"

	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// The peer does not read while it cancels streams which have many items ready. When it reads again, only the items which were
// already under way may follow.

type stall11 struct {
	Proto  string
	Role   string
	Bufs   []int // items which are ready, per stream
	Cancel []bool
	Before int  // items of each stream before the stall
	Order  bool // canceled in reverse order
	Early  bool // the items are ready before the streams are invoked
}

type hubS11 struct {
	signalr.Hub
	chs []chan string
}
type rcvS11 struct {
	signalr.Receiver
	chs []chan string
}

func (h *hubS11) Items(i int) <-chan string { return h.chs[i] }
func (h *rcvS11) Items(i int) <-chan string { return h.chs[i] }

func gen11s(r *eng.R) stall11 {
	s := stall11{Proto: protos[r.IntN(2)], Role: eng.Pick(r, "server", "client"), Before: r.N(0, 3), Order: r.P(0.5), Early: r.P(0.4)}
	for n := r.N(1, 6); n > 0; n-- {
		s.Bufs = append(s.Bufs, r.N(5, 40))
		s.Cancel = append(s.Cancel, r.P(0.8))
	}
	return s
}

func run11s(c *eng.C, s stall11) error {
	if s.Proto != "json" && s.Proto != "messagepack" || s.Role != "server" && s.Role != "client" || len(s.Bufs) > 50 || len(s.Bufs) != len(s.Cancel) || s.Before < 0 || s.Before > 100 {
		return eng.Discard
	}
	for _, n := range s.Bufs {
		if n < 0 || n > 1000 {
			return eng.Discard
		}
	}
	return InBubble(c, func(b *B) error {
		before := s.Before
		if s.Early {
			before = 0
		}
		var chs []chan string
		for _, n := range s.Bufs {
			chs = append(chs, make(chan string, n+before))
		}
		opts := []func(signalr.Party) error{Quiet(nil), signalr.TimeoutInterval(time.Hour), signalr.KeepAliveInterval(30 * time.Minute)}
		ctx, cancel := context.WithCancel(b.Ctx)
		b.Cleanup(cancel)
		own, peer := NewPipe(b.Ctx, "c", "c")
		raw := &Raw{End: peer, Proto: s.Proto}
		if s.Role == "server" {
			srv, err := signalr.NewServer(ctx, append(opts, signalr.HubFactory(func() signalr.HubInterface { return &hubS11{chs: chs} }))...)
			if err != nil {
				return err
			}
			Serve(srv, own)
			_, _ = raw.Write(Handshake(s.Proto))
		} else {
			cl, err := signalr.NewClient(ctx, append(opts, signalr.WithConnection(own), signalr.WithReceiver(&rcvS11{chs: chs}), signalr.TransferFormat(FormatOf(s.Proto)))...)
			if err != nil {
				return err
			}
			cl.Start()
			b.Wait()
			_, _ = raw.Write([]byte("{}\x1e"))
		}
		b.Wait()
		id := func(i int) string { return fmt.Sprint("s", i) }
		ready := func() {
			own.SetWriteCap(1)
			for i, ch := range chs {
				for k := range s.Bufs[i] {
					ch <- fmt.Sprint(i, ".", before+k)
				}
			}
		}
		if s.Early {
			ready()
		}
		for i, ch := range chs {
			raw.Send(Msg{Type: 4, ID: id(i), HasID: true, Target: "items", Args: []any{i}})
			for k := range before {
				ch <- fmt.Sprint(i, ".", k)
			}
		}
		b.Wait()
		if !s.Early {
			ready()
			b.Wait()
		}
		for k := range chs {
			if s.Order {
				k = len(chs) - 1 - k
			}
			if s.Cancel[k] {
				c.NonTrivial()
				raw.Send(Msg{Type: 5, ID: id(k)})
			}
		}
		b.Wait()
		own.SetWriteCap(0)
		b.Sleep(time.Second)
		for _, ch := range chs {
			close(ch)
		}
		b.Sleep(time.Second)
		ms, err := raw.New()
		if err != nil {
			return eng.Errf("%v", err)
		}
		items := make([][]string, len(chs))
		fin := make([]int, len(chs))
		for _, m := range ms {
			i := -1
			if _, err := fmt.Sscanf(m.ID, "s%d", &i); err != nil || i < 0 || i >= len(chs) || m.Type != 2 && m.Type != 3 || m.HasError || fin[i] > 0 {
				return eng.Errf("unexpected %v", m)
			}
			if m.Type == 3 {
				fin[i]++
			} else {
				items[i] = append(items[i], fmt.Sprint(m.Item))
			}
		}
		for i, g := range items {
			var want []string
			for k := range before + s.Bufs[i] {
				want = append(want, fmt.Sprint(i, ".", k))
			}
			if len(g) > len(want) || len(g) > 0 && !reflect.DeepEqual(g, want[:len(g)]) || fin[i] != 1 {
				return eng.Errf("stream %d sends %q, expected %q (completions: %d)", i, g, want, fin[i])
			}
			if !s.Cancel[i] && len(g) != len(want) {
				return eng.Errf("stream %d was not canceled, but sends only %d of %d items", i, len(g), len(want))
			}
			// one is being written, one may have been received already
			if s.Cancel[i] && len(g) > before+2 {
				return eng.Errf("stream %d is canceled while one of its items is being written, then %d more are sent", i, len(g)-before-1)
			}
		}
		raw.CloseWith(io.EOF)
		return nil
	})
}
