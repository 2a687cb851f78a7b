package checks

import (
	"fmt"
	"time"

	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// sc13 is an upload to a method which consumes slowly or not at all.
type sc13 struct {
	Role, Proto string
	T           int // ChanReceiveTimeout, ms
	Cap         int
	Wait        int   // ms before the method receives for the first time
	D           []int // ms the method needs for an item, cyclic
	At          []int // when items are sent, ms after the one before
	Never       bool  // the method never receives
	Style       uint64
}

type slow13 struct {
	got []int
	at  []time.Duration
	end bool
}

type callee13 struct {
	s   sc13
	b   *B
	g   slow13
	run int
}

func (h *callee13) slow(ch <-chan int) string {
	h.run++
	if h.s.Never {
		<-h.b.Ctx.Done()
		return ""
	}
	time.Sleep(time.Duration(h.s.Wait) * time.Millisecond)
	for x := range ch {
		h.g.got = append(h.g.got, x)
		h.g.at = append(h.g.at, h.b.Now())
		time.Sleep(cyc(h.s.D, len(h.g.got)-1))
	}
	h.g.end = true
	return fmt.Sprint(len(h.g.got))
}

func (h *callee13) Slow(ch <-chan int) string { return h.slow(ch) }
func (h *callee13) Echo(s string) string      { return s }

type hub13 struct {
	signalr.Hub
	*callee13
}

type rcv13 struct {
	signalr.Receiver
	*callee13
}

// sim13 predicts which items are received, and when errors are sent for the others. It returns false when the
// outcome depends on the order of simultaneous events.
func (s sc13) sim13(tmo time.Duration) (got []int, errs []time.Duration, end time.Duration, ok bool) {
	ms := func(n int) time.Duration { return time.Duration(n) * time.Millisecond }
	var sent []time.Duration
	t := time.Duration(0)
	for _, a := range s.At {
		t += ms(a)
		sent = append(sent, t)
	}
	// next is when the method wants to receive the next item
	next := ms(s.Wait)
	if s.Never {
		next = 1 << 60
	}
	type item struct {
		v  int
		at time.Duration
	}
	var buf []item // waits in the channel
	now := time.Duration(0)
	take := func(v int, at time.Duration) {
		next = at + cyc(s.D, len(got))
		got = append(got, v)
	}
	// drain lets the method receive until t
	drain := func(t time.Duration) {
		for len(buf) > 0 && next <= t {
			at := max(next, buf[0].at)
			v := buf[0].v
			buf = buf[1:]
			take(v, at)
		}
	}
	for i := range sent {
		now = max(now, sent[i])
		if next == now && len(buf) == s.Cap {
			return nil, nil, 0, false
		}
		drain(now)
		if len(buf) < s.Cap {
			buf = append(buf, item{i, now})
			drain(now)
			continue
		}
		// blocked until the method receives
		if next == now+tmo {
			return nil, nil, 0, false
		}
		if next < now+tmo {
			now = next
			drain(now)
			buf = append(buf, item{i, now})
			drain(now)
		} else {
			now += tmo
			errs = append(errs, now)
		}
	}
	end = now
	drain(1 << 59)
	return got, errs, end, true
}

func run13(c *eng.C, s sc13) error {
	if s.T < 1 || s.T > 100000 || s.Cap < 1 || s.Cap > 1000 || s.Wait < 0 || s.Wait > 1000000 || len(s.At) > 300 {
		return eng.Discard
	}
	for _, d := range append(append([]int{}, s.D...), s.At...) {
		if d < 0 || d > 100000 {
			return eng.Discard
		}
	}
	tmo := time.Duration(s.T)*time.Millisecond + 137*time.Microsecond
	want, errs, _, ok := s.sim13(tmo)
	if !ok {
		return eng.Discard
	}
	err, _ := Bubble(c, func(b *B) error {
		h := &callee13{s: s, b: b}
		opts := []func(signalr.Party) error{Quiet(nil), signalr.ChanReceiveTimeout(tmo), signalr.StreamBufferCapacity(uint(s.Cap)), signalr.MaxConcurrentStreams(1),
			signalr.TimeoutInterval(10000 * time.Hour)}
		var p, other *Raw
		var ended func() bool
		if s.Role == "server" {
			srv, err := signalr.NewServer(b.Ctx, append(opts, signalr.HubFactory(func() signalr.HubInterface { return &hub13{callee13: h} }))...)
			if err != nil {
				return err
			}
			var sv *Served
			p, sv = b.Connect(srv, "c0", s.Proto)
			other, _ = b.Connect(srv, "c1", s.Proto)
			ended = sv.Ended
		} else {
			cl, raw, err := b.RawServer(s.Proto, append(opts, signalr.WithReceiver(&rcv13{callee13: h}))...)
			if err != nil {
				return err
			}
			p = raw
			ended = func() bool { return cl.State() != signalr.ClientConnected }
		}
		p.Send(Msg{Type: 1, ID: "up", HasID: true, Target: "slow", Args: []any{}, StreamIDs: []string{"s"}})
		b.Wait()
		if h.run != 1 {
			return eng.Errf("the method was not called: %d", h.run)
		}
		start := b.Now()
		for i, a := range s.At {
			if a > 0 {
				b.Sleep(time.Duration(a) * time.Millisecond)
				if other != nil && i%7 == 0 {
					// Connections which are not involved answer without any delay
					at := b.Now()
					id := fmt.Sprint("o", i)
					other.Send(Msg{Type: 1, ID: id, HasID: true, Target: "echo", Args: []any{id}})
					b.Wait()
					l, err := other.New()
					if err != nil {
						return err
					}
					if len(l) != 1 || l[0].ID != id || l[0].Result != id || b.Now() != at {
						return eng.Errf("other connection gets %v", l)
					}
				}
			}
			_, _ = p.Write(Encode(s.Proto, Msg{Type: 2, ID: "s", Item: i}, Style{s.Style}))
		}
		sentAll := b.Now()
		// This one waits behind the items
		p.Send(Msg{Type: 1, ID: "behind", HasID: true, Target: "Echo", Args: []any{"x"}})
		b.Wait()
		total := time.Duration(s.Wait) * time.Millisecond
		for i := range s.At {
			total += cyc(s.D, i) + tmo
		}
		b.Sleep(total + time.Second)
		if ended() {
			return eng.Errf("connection has ended")
		}
		l, err := p.New()
		if err != nil {
			return err
		}
		var got []time.Duration
		var behind time.Duration
		for _, m := range l {
			switch {
			case m.Type == 3 && m.ID == "s":
				if !m.HasError || m.Error == "" {
					return eng.Errf("sender of the stream gets %v", m)
				}
				got = append(got, m.At.Sub(b.Start)-start)
			case m.Type == 3 && m.ID == "behind" && m.Result == "x" && behind == 0:
				behind = m.At.Sub(b.Start) - start
			default:
				return eng.Errf("unexpected %v", m)
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(errs) {
			return eng.Errf("the sender got errors at %v instead of %v", got, errs)
		}
		_, _, done, _ := s.sim13(tmo)
		if w := max(done, sentAll-start); behind != w {
			return eng.Errf("an invocation sent after the items was answered at %v instead of %v", behind, w)
		}
		if fmt.Sprint(h.g.got) != fmt.Sprint(want) {
			return eng.Errf("the method received %v instead of %v", h.g.got, want)
		}
		if h.g.end {
			return eng.Errf("the stream was closed before its completion")
		}
		// Only one stream is allowed. It is open until it is completed.
		p.Send(Msg{Type: 1, ID: "up2", HasID: true, Target: "Slow", Args: []any{}, StreamIDs: []string{"s2"}})
		b.Wait()
		if l, err = p.New(); err != nil || len(l) != 1 || l[0].ID != "up2" || !l[0].HasError || h.run != 1 {
			return eng.Errf("second stream: %v %v, method ran %d times", l, err, h.run)
		}
		m := Msg{Type: 3, ID: "s"}
		if len(errs) > 0 {
			m.Error, m.HasError = "sender gives up", true
		}
		p.Send(m)
		b.Sleep(time.Minute)
		if s.Never {
			c.Label("never consumed")
		} else {
			if l, err = p.New(); err != nil || len(l) != 1 || l[0].ID != "up" || l[0].HasError || l[0].Result != fmt.Sprint(len(want)) || !h.g.end {
				return eng.Errf("end of the stream: %v %v, closed %v", l, err, h.g.end)
			}
		}
		if ended() {
			return eng.Errf("connection has ended")
		}
		p.Send(Msg{Type: 1, ID: "up3", HasID: true, Target: "Slow", Args: []any{}, StreamIDs: []string{"s"}})
		b.Wait()
		if h.run != 2 {
			l, _ := p.New()
			return eng.Errf("stream after the end of the first one is refused: %v", l)
		}
		if len(errs) > 0 {
			c.Label("items timed out")
			c.NonTrivial()
		} else if len(want) > s.Cap {
			c.Label("held up but received")
			c.NonTrivial()
		}
		return nil
	})
	if err != nil && err != eng.Discard {
		return eng.Errf("%s/%s: %v", s.Role, s.Proto, err)
	}
	return err
}

func gen13(r *eng.R) sc13 {
	s := sc13{Role: eng.Pick(r, "server", "server", "client"), Proto: protos[r.IntN(2)], T: eng.Pick(r, 1, 10, 100, 5000, 5000, 30000), Cap: eng.Pick(r, 1, 1, 2, 3, 10, 50)}
	n := r.N(1, 25)
	if r.P(0.05) {
		n = r.N(50, 200)
	}
	for i := 0; i < n; i++ {
		a := 0
		if r.P(0.3) {
			a = r.IntN(s.T * 2)
		}
		s.At = append(s.At, a)
	}
	if r.P(0.6) {
		s.Wait = r.IntN(s.T * 4)
	}
	s.Never = r.P(0.2)
	for k := r.N(0, 5); k > 0; k-- {
		s.D = append(s.D, r.IntN(eng.Pick(r, s.T, s.T*3, 2)+1))
	}
	if r.P(0.3) {
		s.Style = r.Uint64() | 1
	}
	return s
}

func init() {
	meths := []string{"Up", "UpErr", "Up2", "Up3", "Up", "Up2", "Up3", "Up2", "One", "Chan"}
	g := genS{meths: meths, noID: 0.05, block: 0.15, bad: 0.2, err: 0.1, panic: 0.05, stream: 0.3, reuse: 0.1, calls: 0.45,
		ops: []string{"fin", "fin", "fin", "fin", "item", "item", "release", "ping"},
		max: []int{0, 1, 1, 2, 2, 3, 3, 4, 5, 7, 10}, caps: []int{1, 2, 10, 100},
		minOps: 4, maxOps: 50, long: 600, conns: 4, burst: 0.04, maxItem: 20}
	eng.Register(&eng.Check{
		ID:   "C13",
		Rule: "limits: a case is non-trivial when a call was refused because of the limit and another one was accepted after a stream had ended. timeouts: when an item had to wait for the method",
		Families: []eng.Family{
			eng.Fam("limits", 8000, 100000, g.gen, runSess(nil, func(x *sess) {
				x.c.LabelN("refused by the limit", x.stats.refused)
				fins := 0
				for _, c := range x.calls {
					for j := 0; j < c.m.ups; j++ {
						if c.fin[j] {
							fins++
						}
					}
					if c.refused && c.op.Bad != 0 && c.m.ups > 0 {
						x.c.Label("refused for another reason")
					}
				}
				x.c.Label("limit %d", x.s.Max)
				if x.stats.refused > 0 && fins > x.s.Max {
					x.c.NonTrivial()
				}
			})),
			eng.Fam("timeouts", 3000, 40000, gen13, run13),
		},
	})
}
