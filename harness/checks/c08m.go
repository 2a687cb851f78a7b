package checks

import (
	"fmt"
	"strings"
	"time"

	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// Very many calls on one connection. Some of the first ones stay pending until the end.

type many08 struct {
	Proto string
	N     int
	Batch int
	Hold  int // number of calls which are answered at the very end
	Seed  uint64
}

func gen08m(r *eng.R) many08 {
	s := many08{Proto: protos[r.IntN(2)], N: r.N(300, 3000), Batch: r.N(1, 100), Hold: r.N(0, 20), Seed: r.Uint64()}
	switch {
	case r.P(0.04):
		s.N, s.Batch = r.N(65530, 67000), r.N(100, 1000)
	case r.P(0.1):
		s.N, s.Batch = r.N(4000, 11000), r.N(50, 500)
	}
	return s
}

func run08m(c *eng.C, s many08) error {
	if s.Proto != "json" && s.Proto != "messagepack" || s.N < 0 || s.N > 100000 || s.Batch < 1 || s.Batch > 2000 || s.Hold < 0 || s.Hold > 1000 {
		return eng.Discard
	}
	return InBubble(c, func(b *B) error {
		r := eng.NewR(s.Seed, "many08", 0)
		srv, own := NewPipe(b.Ctx, "c", "c")
		raw := &Raw{End: srv, Proto: s.Proto}
		cl, err := signalr.NewClient(b.Ctx, Quiet(nil), signalr.TransferFormat(FormatOf(s.Proto)), signalr.WithConnection(own),
			signalr.KeepAliveInterval(time.Hour), signalr.TimeoutInterval(24*time.Hour))
		if err != nil {
			return err
		}
		b.Cleanup(cl.Stop)
		cl.Start()
		b.Wait()
		if _, ok := raw.HandshakeFrame(); !ok {
			return eng.Errf("no handshake request")
		}
		_, _ = srv.Write([]byte("{}\x1e"))
		b.Wait()
		type call struct {
			kind string
			res  *Collected[signalr.InvokeResult]
			errs *Collected[error]
			id   string
			ups  int
		}
		var held []int
		calls := make([]call, 0, s.N)
		ids := map[string]string{}
		use := func(id, what string) error {
			if o, ok := ids[id]; ok {
				return eng.Errf("id %q is used for %s, but it has been used for %s", id, what, o)
			}
			ids[id] = what
			return nil
		}
		finish := func(k int) {
			m := Msg{Type: 3, ID: calls[k].id, HasID: true}
			if calls[k].kind == "pull" {
				raw.Send(Msg{Type: 2, ID: calls[k].id, HasID: true, Item: fmt.Sprint("value ", k)})
			} else {
				m.Result, m.HasResult = fmt.Sprint("value ", k), true
			}
			raw.Send(m)
		}
		verify := func(k int) error {
			cc := &calls[k]
			if cc.errs != nil {
				if l, closed := cc.errs.Get(); !closed || len(l) > 0 {
					return eng.Errf("call %d of %d (send, id %q): errors %v, closed %v", k, s.N, cc.id, l, closed)
				}
				return nil
			}
			l, closed := cc.res.Get()
			if !closed || len(l) != 1 || l[0].Error != nil || l[0].Value != any(fmt.Sprint("value ", k)) {
				return eng.Errf("call %d of %d (%s, id %q) yields %v, closed %v", k, s.N, cc.kind, cc.id, l, closed)
			}
			return nil
		}
		for len(calls) < s.N {
			first := len(calls)
			for len(calls) < min(first+s.Batch, s.N) {
				k := len(calls)
				cc := call{kind: eng.Pick(r, "invoke", "invoke", "send", "send", "pull", "push")}
				switch cc.kind {
				case "invoke":
					cc.res = Collect(cl.Invoke("m", k))
				case "send":
					cc.errs = Collect(cl.Send("m", k))
				case "pull":
					cc.res = Collect(cl.PullStream("m", k))
				case "push":
					cc.ups = r.N(1, 3)
					args := []any{k}
					for range cc.ups {
						ch := make(chan int)
						close(ch)
						args = append(args, ch)
					}
					cc.res = Collect(cl.PushStreams("m", args...))
				}
				calls = append(calls, cc)
			}
			b.Wait()
			ms, err := raw.New()
			if err != nil {
				return eng.Errf("%v", err)
			}
			for _, m := range ms {
				switch m.Type {
				case 1, 4:
					k, ok := asInt08(m.Args)
					if !ok || k < first || k >= len(calls) || calls[k].id != "" || !m.HasID || m.ID == "" {
						return eng.Errf("unexpected invocation %+v", m)
					}
					cc := &calls[k]
					cc.id = m.ID
					if err := use(m.ID, fmt.Sprintf("call %d (%s)", k, cc.kind)); err != nil {
						return err
					}
					if len(m.StreamIDs) != cc.ups || (m.Type == 4) != (cc.kind == "pull") {
						return eng.Errf("call %d (%s, %d streams) is sent as %+v", k, cc.kind, cc.ups, m)
					}
					for _, id := range m.StreamIDs {
						if err := use(id, fmt.Sprintf("a stream of call %d", k)); err != nil {
							return err
						}
					}
				case 3:
					if !strings.HasPrefix(ids[m.ID], "a stream") {
						return eng.Errf("completion of %q, which is no stream: %s", m.ID, ids[m.ID])
					}
				default:
					return eng.Errf("unexpected message %+v", m)
				}
			}
			var now []int
			for k := first; k < len(calls); k++ {
				if calls[k].id == "" {
					return eng.Errf("call %d of %d (%s) is not sent", k, s.N, calls[k].kind)
				}
				if len(held) < s.Hold && r.P(0.5) {
					held = append(held, k)
				} else {
					now = append(now, k)
				}
			}
			for i := len(now) - 1; i > 0; i-- {
				j := r.IntN(i + 1)
				now[i], now[j] = now[j], now[i]
			}
			for _, k := range now {
				finish(k)
			}
			b.Wait()
			for _, k := range now {
				if err := verify(k); err != nil {
					return err
				}
			}
		}
		for _, k := range held {
			finish(k)
		}
		b.Wait()
		for _, k := range held {
			if err := verify(k); err != nil {
				return err
			}
		}
		c.NonTrivial()
		c.LabelN("calls", s.N)
		return nil
	})
}

func asInt08(args []any) (int, bool) {
	if len(args) != 1 {
		return 0, false
	}
	var k int
	_, err := fmt.Sscan(fmt.Sprint(args[0]), &k)
	return k, err == nil
}
