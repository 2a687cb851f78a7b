package checks

import (
	"context"
	"fmt"
	"strconv"
	"time"

	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// Nobody reads what arrives when the party is stopped: then it may wait for this reader, but only once, and not for everything that arrived.

type unread09 struct {
	Role  string // client: pulled streams are not read any more, server: the methods do not read what is uploaded
	Proto string
	Cap   int
	T     int   // ChanReceiveTimeout, ms
	Strm  []int // the streams of the items, in their order
	N     int   // number of streams
	Read  int   // so many results of each stream are read
	At    int   // the end comes so many ms after the items
	End   string
	Yield uint64
}

func gen09u(r *eng.R) unread09 {
	s := unread09{Role: eng.Pick(r, "client", "client", "server"), Proto: protos[r.IntN(2)], Cap: eng.Pick(r, 1, 1, 2, 10), T: eng.Pick(r, 10, 1000, 5000, 20000), N: r.N(1, 3),
		Read: eng.Pick(r, 0, 0, 1, 3), End: eng.Pick(r, "stop", "ctx")}
	for range r.N(1, 40) {
		s.Strm = append(s.Strm, r.IntN(s.N))
	}
	s.At = eng.Pick(r, 0, r.IntN(s.T+1), r.IntN(5*s.T+1))
	if s.Role == "server" {
		s.End = "ctx"
	}
	if r.P(0.2) {
		s.Yield = r.Uint64() | 1
	}
	return s
}

type hub09u struct {
	signalr.Hub
	s   unread09
	ctx context.Context
}

func (h *hub09u) Up(ch <-chan int) {
	for range h.s.Read {
		select {
		case <-ch:
		case <-h.ctx.Done():
		}
	}
	<-h.ctx.Done()
}

func run09u(c *eng.C, s unread09) error {
	if s.Role != "client" && s.Role != "server" || s.Proto != "json" && s.Proto != "messagepack" || s.Cap < 1 || s.Cap > 1000 || s.T < 1 || s.T > 100000 || s.N < 1 || s.N > 20 || len(s.Strm) > 200 ||
		s.Read < 0 || s.Read > 1000 || s.At < 0 || s.At > 1000000 || s.End != "ctx" && (s.End != "stop" || s.Role == "server") {
		return eng.Discard
	}
	for _, i := range s.Strm {
		if i < 0 || i >= s.N {
			return eng.Discard
		}
	}
	tmo := time.Duration(s.T)*time.Millisecond + 137*time.Microsecond
	return InBubble(c, func(b *B) error {
		var y *Yield
		if s.Yield != 0 {
			y = NewYield(s.Yield, 20)
		}
		ctx, cancel := context.WithCancel(b.Ctx)
		defer cancel()
		opts := []func(signalr.Party) error{Quiet(y), signalr.ChanReceiveTimeout(tmo), signalr.StreamBufferCapacity(uint(s.Cap)), signalr.TimeoutInterval(10000 * time.Hour)}
		sent := make([]int, s.N)
		items := func(p *Raw, ids []string) {
			for n, i := range s.Strm {
				p.Send(Msg{Type: 2, ID: ids[i], HasID: true, Item: n})
				sent[i]++
			}
			b.Sleep(time.Duration(s.At) * time.Millisecond)
			for _, n := range sent {
				if n > s.Cap+s.Read+3 {
					c.NonTrivial()
					c.Label("%s %s", s.Role, s.End)
					break
				}
			}
		}
		// The reader is given up, there is nothing else to wait for
		limit := tmo + time.Second
		if s.Role == "server" {
			srv, err := signalr.NewServer(ctx, append(opts, signalr.MaxConcurrentStreams(uint(s.N)), signalr.HubFactory(func() signalr.HubInterface { return &hub09u{s: s, ctx: b.Ctx} }))...)
			if err != nil {
				return err
			}
			p, sv := b.Connect(srv, "c1", s.Proto)
			var ids []string
			for i := range s.N {
				ids = append(ids, fmt.Sprint("s", i))
				p.Send(Msg{Type: 1, ID: fmt.Sprint("u", i), HasID: true, Target: "up", Args: []any{}, StreamIDs: []string{ids[i]}})
			}
			b.Wait()
			items(p, ids)
			if sv.Ended() {
				return eng.Errf("Serve ends before the server")
			}
			cancel()
			b.Sleep(limit)
			if !sv.Ended() {
				return eng.Errf("the context of the server was canceled, but %v later, Serve has not returned", limit)
			}
			return nil
		}
		srv, own := NewPipe(b.Ctx, "c1", "c1")
		p := &Raw{End: srv, Proto: s.Proto}
		cl, err := signalr.NewClient(ctx, append(opts, signalr.WithConnection(own), signalr.TransferFormat(FormatOf(s.Proto)))...)
		if err != nil {
			return err
		}
		b.Cleanup(func() { srv.CloseWith(nil) })
		cl.Start()
		b.Wait()
		_, _ = p.Write([]byte("{}\x1e"))
		b.Wait()
		_, _ = p.HandshakeFrame()
		var pulls []<-chan signalr.InvokeResult
		got := make([][]int, s.N)
		for i := range s.N {
			pulls = append(pulls, cl.PullStream("get", fmt.Sprint(i)))
		}
		call := Collect(cl.Invoke("get"))
		b.Wait()
		l, err := p.New()
		if err != nil {
			return err
		}
		ids, found := make([]string, s.N), 0
		for _, m := range l {
			if m.Type == 4 && len(m.Args) == 1 {
				if i, err := strconv.Atoi(fmt.Sprint(m.Args[0])); err == nil && i >= 0 && i < s.N && ids[i] == "" {
					ids[i] = m.ID
					found++
				}
			}
		}
		if found != s.N {
			return eng.Errf("%d streams are pulled, but the server gets %v", s.N, l)
		}
		see := func(i int, r signalr.InvokeResult) error {
			if r.Error != nil {
				return nil
			}
			n, err := strconv.Atoi(fmt.Sprint(r.Value))
			if err != nil || n < 0 || n >= len(s.Strm) || s.Strm[n] != i || len(got[i]) > 0 && got[i][len(got[i])-1] >= n {
				return eng.Errf("stream %d gets %v after %v", i, r.Value, got[i])
			}
			got[i] = append(got[i], n)
			return nil
		}
		errs := make([]chan error, s.N)
		for i := range s.N {
			errs[i] = make(chan error, 1)
			go func() {
				for range s.Read {
					r, ok := <-pulls[i]
					if !ok {
						break
					}
					if err := see(i, r); err != nil {
						errs[i] <- err
						return
					}
				}
				errs[i] <- nil
			}()
		}
		items(p, ids)
		if cl.State() != signalr.ClientConnected {
			return eng.Errf("client is not connected any more")
		}
		stopped := make(chan struct{})
		if s.End == "stop" {
			go func() { cl.Stop(); close(stopped) }()
		} else {
			close(stopped)
			cancel()
		}
		b.Sleep(limit)
		select {
		case <-stopped:
		default:
			return eng.Errf("%v after it was called, Stop has not returned", limit)
		}
		if st := cl.State(); st != signalr.ClientClosed {
			return eng.Errf("%v after its end (%s) the client is in state %v", limit, s.End, st)
		}
		if l, closed := call.Get(); !closed || len(l) != 1 || l[0].Error == nil {
			return eng.Errf("the call which was pending ends with %v, closed: %v", l, closed)
		}
		for i, ch := range pulls {
			done := make(chan error, 1)
			go func() {
				if err := <-errs[i]; err != nil {
					done <- err
					return
				}
				for r := range ch {
					if err := see(i, r); err != nil {
						done <- err
						return
					}
				}
				done <- nil
			}()
			b.Wait()
			select {
			case err := <-done:
				if err != nil {
					return err
				}
			default:
				return eng.Errf("the channel of stream %d is not closed", i)
			}
		}
		return nil
	})
}
