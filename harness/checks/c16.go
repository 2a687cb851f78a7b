package checks

import (
	"context"
	"fmt"
	"io"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// ev16 is something that happens D after the event before.
type ev16 struct {
	D int64
	K string // peer: ping send call cancel burst; party: write
}

type sc16 struct {
	Role   string
	Proto  string
	KA, TO int64 // 0: default
	Events []ev16
	Tail   int64 // quiet time at the end
	Block  int   `json:",omitempty"` // items which block the message loop, before the events
	Cap    int   `json:",omitempty"`
	CRT    int64 `json:",omitempty"`
	Yield  uint64
}

type hub16 struct {
	signalr.Hub
	w *w16
}
type w16 struct {
	on, off int32
	done    <-chan struct{}
	got     int32
}

func (h *hub16) Note(string)          { atomic.AddInt32(&h.w.got, 1) }
func (h *hub16) Call(s string) string { atomic.AddInt32(&h.w.got, 1); return s }
func (h *hub16) Ignore(<-chan int)    { <-h.w.done }
func (h *hub16) Sink(c <-chan int) {
	for range c {
	}
}
func (h *hub16) OnConnected(string) { atomic.AddInt32(&h.w.on, 1) }
func (h *hub16) OnDisconnected(string) {
	atomic.AddInt32(&h.w.off, 1)
}

type rcv16 struct {
	signalr.Receiver
	w *w16
}

func (h *rcv16) Note(string)          { atomic.AddInt32(&h.w.got, 1) }
func (h *rcv16) Call(s string) string { atomic.AddInt32(&h.w.got, 1); return s }
func (h *rcv16) Ignore(<-chan int)    { <-h.w.done }
func (h *rcv16) Sink(c <-chan int) {
	for range c {
	}
}

func run16(c *eng.C, s sc16) error {
	if s.Role != "server" && s.Role != "client" || s.Proto != "json" && s.Proto != "messagepack" || s.KA < 0 || s.TO < 0 || s.Tail < 0 ||
		s.Block > 0 && (s.Cap < 1 || s.CRT < 1) || s.KA > 0 && s.KA < 1000 || s.TO > 0 && s.TO < 1000 {
		return eng.Discard
	}
	return InBubble(c, func(b *B) error { return exec16(c, b, s) })
}

func exec16(c *eng.C, b *B, s sc16) error {
	ka, to := time.Duration(s.KA), time.Duration(s.TO)
	w := &w16{done: b.Ctx.Done()}
	opts := []func(signalr.Party) error{Quiet(nil)}
	if s.Yield != 0 {
		opts[0] = Quiet(NewYield(s.Yield, 20))
	}
	if ka > 0 {
		opts = append(opts, signalr.KeepAliveInterval(ka))
	} else {
		ka = 15 * time.Second // documented
	}
	if to > 0 {
		opts = append(opts, signalr.TimeoutInterval(to))
	} else {
		to = 30 * time.Second
	}
	if s.Block > 0 {
		opts = append(opts, signalr.StreamBufferCapacity(uint(s.Cap)), signalr.ChanReceiveTimeout(time.Duration(s.CRT)))
	}
	var r *Raw
	var cl signalr.Client
	var party func()
	var ended func() (bool, time.Time, error)
	if s.Role == "server" {
		srv, err := signalr.NewServer(b.Ctx, append(opts, signalr.HubFactory(func() signalr.HubInterface { return &hub16{w: w} }))...)
		if err != nil {
			return err
		}
		var sv *Served
		r, sv = b.Connect(srv, "c", s.Proto)
		party = func() { srv.HubClients().All().Send("note", "x") }
		ended = func() (bool, time.Time, error) {
			if !sv.Ended() {
				return false, time.Time{}, nil
			}
			return true, sv.At, sv.Err
		}
	} else {
		var err error
		cl, r, err = b.RawServer(s.Proto, append(opts, signalr.WithReceiver(&rcv16{w: w}))...)
		if err != nil {
			return err
		}
		var at atomic.Pointer[time.Time]
		go func() {
			if <-cl.WaitForState(b.Ctx, signalr.ClientClosed) == nil {
				t := time.Now()
				at.Store(&t)
			}
		}()
		party = func() { cl.Send("note", "x") }
		ended = func() (bool, time.Time, error) {
			if cl.State() != signalr.ClientClosed {
				return false, time.Time{}, nil
			}
			if t := at.Load(); t != nil {
				return true, *t, cl.Err()
			}
			return true, time.Now(), cl.Err()
		}
	}
	start := time.Now()
	last := start // a message was received
	blocked := time.Duration(0)
	if s.Block > 0 {
		c.Label("blocked")
		r.Send(Msg{Type: 1, ID: "", Target: "Ignore", Args: []any{}, StreamIDs: []string{"s"}})
		for k := 0; k < s.Cap+s.Block; k++ {
			r.Send(Msg{Type: 2, ID: "s", Item: k})
		}
		blocked = time.Duration(s.Block) * time.Duration(s.CRT)
	}
	b.Wait()
	var endWant time.Time
	n := 0
	step := func(d time.Duration) bool {
		next := time.Now().Add(d)
		if next.Sub(last) >= to {
			endWant = last.Add(to)
			// What was received is handled late when the handling of messages before takes long
			endMax := endWant
			if x := start.Add(blocked + to); x.After(endMax) {
				endMax = x
			}
			endMax = endMax.Add(to/4 + time.Microsecond)
			if next.After(endMax) || blocked > 0 {
				next = endMax
			}
		}
		time.Sleep(time.Until(next))
		return endWant.IsZero()
	}
	alive := func(what string) error {
		b.Wait()
		if e, at, err := ended(); e {
			return eng.Errf("%s: connection has ended after %v, %v after the last received message, timeout is %v: %v", what, at.Sub(start), at.Sub(last), to, err)
		}
		return nil
	}
	// Streams for the items and completions
	streams, pulled := 0, ""
	for _, e := range s.Events {
		if e.K == "item" && streams == 0 || e.K == "complete" {
			streams++
		}
		if e.K == "pitem" && s.Role == "server" {
			return eng.Discard
		}
		if e.K == "pitem" && pulled == "" && s.Block == 0 {
			pull := cl.PullStream("Pull")
			go func() {
				for range pull {
				}
			}()
			b.Wait()
			msgs, err := r.Messages()
			if err != nil || len(msgs) == 0 || msgs[len(msgs)-1].Type != 4 {
				return eng.Errf("PullStream sends %v %v", msgs, err)
			}
			pulled = msgs[len(msgs)-1].ID
		}
	}
	if streams++; streams > 60 {
		return eng.Discard
	}
	for k := range streams {
		if s.Block == 0 && streams > 1 {
			r.Send(Msg{Type: 1, Target: "Sink", Args: []any{}, StreamIDs: []string{fmt.Sprint("u", k)}})
		}
	}
	b.Wait()
	completed := 0
	calls := 0
	for i, e := range s.Events {
		if e.D < 0 {
			return eng.Discard
		}
		if !step(time.Duration(e.D)) {
			break
		}
		peer := true
		switch e.K {
		case "ping":
			r.Send(Msg{Type: 6})
		case "send":
			r.Send(Msg{Type: 1, Target: "Note", Args: []any{"x"}})
		case "call":
			calls++
			r.Send(Msg{Type: 1, ID: fmt.Sprint("c", i), HasID: true, Target: "Call", Args: []any{"x"}})
		case "cancel":
			r.Send(Msg{Type: 5, ID: "none"})
		case "item":
			if s.Block > 0 {
				return eng.Discard
			}
			r.Send(Msg{Type: 2, ID: fmt.Sprint("u", completed), Item: i})
		case "complete":
			if s.Block > 0 {
				return eng.Discard
			}
			m := Msg{Type: 3, ID: fmt.Sprint("u", completed)}
			if i%2 == 0 {
				m.Error, m.HasError = "e", true
			}
			r.Send(m)
			completed++
		case "pitem":
			if s.Block > 0 {
				return eng.Discard
			}
			r.Send(Msg{Type: 2, ID: pulled, Item: i})
		case "unknown":
			r.Send(Msg{Type: 1, Target: "Nope", Args: []any{"x"}})
		case "burst":
			for k := 0; k < 40; k++ {
				r.Send(Msg{Type: 6})
			}
		case "write":
			peer = false
			go party()
		default:
			return eng.Discard
		}
		if peer {
			last = time.Now()
		}
		n++
		if err := alive(fmt.Sprintf("event %d %s", i, e.K)); err != nil {
			return err
		}
	}
	if endWant.IsZero() && s.Tail > 0 && step(time.Duration(s.Tail)) {
		if err := alive("tail"); err != nil {
			return err
		}
	}
	b.Wait()
	stop := time.Now()
	if !endWant.IsZero() {
		c.Label("timeout")
		e, at, err := ended()
		if !e {
			return eng.Errf("connection goes on %v after the last received message, timeout is %v", time.Since(last), to)
		}
		if at.Before(endWant) {
			return eng.Errf("connection has ended %v after the last received message, timeout is %v: %v", at.Sub(last), to, err)
		}
		if err == nil {
			return eng.Errf("a timeout leads to no error")
		}
		stop = at
	}
	msgs, err := r.Messages()
	if err != nil {
		return err
	}
	// No write for the interval: ping
	prev, before := start, start
	slack := ka/4 + time.Microsecond
	pings, closes, answers := 0, 0, 0
	for i, m := range msgs {
		if g := m.At.Sub(prev); g > ka+slack {
			return eng.Errf("nothing is sent for %v after %v, keep alive interval is %v", g, prev.Sub(start), ka)
		} else if g > 0 {
			before = prev
		}
		// A message written at the very moment the ping is due does not count
		if g := m.At.Sub(before); m.Type == 6 && s.KA > 0 && g < ka/2 {
			return eng.Errf("ping is sent %v after the message before, keep alive interval is %v", g, ka)
		}
		prev = m.At
		switch m.Type {
		case 6:
			pings++
		case 3:
			if strings.HasPrefix(m.ID, "c") {
				answers++
			}
		case 7:
			closes++
			if i != len(msgs)-1 || m.Error == "" || endWant.IsZero() {
				return eng.Errf("message %d of %d is %v", i, len(msgs), m)
			}
		}
	}
	if g := stop.Sub(prev); g > ka+slack {
		return eng.Errf("nothing is sent for %v after %v until the end, keep alive interval is %v", g, prev.Sub(start), ka)
	}
	if endWant.IsZero() && time.Since(start) > blocked && answers != calls {
		return eng.Errf("%d of %d calls are answered", answers, calls)
	}
	if !endWant.IsZero() {
		if closes != 1 {
			return eng.Errf("%d close messages after a timeout", closes)
		}
		if m := msgs[len(msgs)-1]; m.At.After(stop.Add(time.Second)) {
			return eng.Errf("close message comes %v after the end", m.At.Sub(stop))
		}
		n := len(r.Received())
		b.Sleep(3 * (ka + to))
		if m := len(r.Received()); m != n {
			return eng.Errf("%d bytes are sent after the end", m-n)
		}
	}
	if s.Role == "server" {
		r.CloseWith(io.EOF)
		b.Sleep(blocked)
		if w.on != 1 || w.off != 1 {
			return eng.Errf("%d OnConnected and %d OnDisconnected", w.on, w.off)
		}
	}
	c.LabelN("pings", pings)
	if pings > 0 || !endWant.IsZero() {
		c.NonTrivial()
	}
	return nil
}

func dur16(r *eng.R) int64 {
	switch r.IntN(5) {
	case 0:
		return int64(r.N(1, 50)) * int64(time.Millisecond)
	case 1, 2:
		return int64(r.N(1, 60)) * int64(time.Second)
	case 3:
		return int64(r.N(1, 10000)) * int64(time.Millisecond)
	default:
		return int64(r.N(1, 24*3600)) * int64(time.Second)
	}
}

func gen16(r *eng.R) sc16 {
	s := sc16{Role: eng.Pick(r, "server", "client"), Proto: protos[r.IntN(2)]}
	s.KA, s.TO = dur16(r), dur16(r)
	if r.P(0.4) {
		s.TO = s.KA * int64(r.N(1, 5))
	}
	if r.P(0.1) {
		s.KA = 0
	}
	if r.P(0.1) {
		s.TO = 0
	}
	if r.P(0.2) {
		s.Yield = r.Uint64() | 1
	}
	gen16events(r, &s)
	return s
}

func gen16events(r *eng.R, s *sc16) {
	ka, to := s.KA, s.TO
	if ka == 0 {
		ka = int64(15 * time.Second)
	}
	if to == 0 {
		to = int64(30 * time.Second)
	}
	// The numbers of pings must stay small
	budget := int64(3000) * ka
	type at struct {
		t int64
		k string
	}
	var l []at
	t := int64(0)
	n := r.N(0, 25)
	kinds := []string{"ping", "ping", "send", "call", "cancel", "burst", "unknown"}
	if s.Block == 0 {
		kinds = append(kinds, "item", "complete")
		if s.Role == "client" {
			kinds = append(kinds, "pitem")
		}
	}
	if r.P(0.5) {
		// one kind of message only
		kinds = kinds[:1:1]
		if s.Block == 0 {
			kinds = []string{eng.Pick(r, "ping", "send", "call", "cancel", "unknown", "item", "item", "complete")}
			if s.Role == "client" && r.P(0.3) {
				kinds[0] = "pitem"
			}
		}
	}
	for k := 0; k < n; k++ {
		var d int64
		switch r.IntN(5) {
		case 0:
			d = to - 1
		case 1:
			d = to * int64(r.N(90, 99)) / 100
		case 2:
			d = to * int64(r.N(0, 99)) / 100
		case 3:
			d = ka * int64(r.N(0, 300)) / 100
		default:
			d = 0
		}
		if d >= to {
			d = to - 1
		}
		if t+d > budget {
			break
		}
		t += d
		l = append(l, at{t, eng.Pick(r, kinds...)})
	}
	end := t
	tail := int64(0)
	switch r.IntN(3) {
	case 0: // ends in time
		tail = to * int64(r.N(0, 99)) / 100
	default:
		tail = 3 * to
	}
	if tail+t > 2*budget {
		tail = min(ka*100, to/2)
	}
	// What the party writes itself, also exactly when a ping would be due
	for k := r.N(0, 12); k > 0; k-- {
		w := int64(0)
		switch r.IntN(3) {
		case 0:
			w = ka * int64(r.N(1, 20))
		case 1:
			w = ka*int64(r.N(1, 20)) + eng.Pick(r, int64(-1), 1, ka/2, -ka/3)
		default:
			if end > 0 {
				w = r.Int64N(end + 1)
			}
		}
		if w >= 0 && w <= end {
			l = append(l, at{w, "write"})
		}
	}
	sort.SliceStable(l, func(a, b int) bool { return l[a].t < l[b].t })
	prev := int64(0)
	for _, x := range l {
		s.Events = append(s.Events, ev16{x.t - prev, x.k})
		prev = x.t
	}
	s.Tail = tail
}

// genBlock16 blocks the handling of messages by items nobody receives.
func genBlock16(r *eng.R) sc16 {
	s := sc16{Role: eng.Pick(r, "server", "client"), Proto: protos[r.IntN(2)], Block: r.N(1, 4), Cap: r.N(1, 4)}
	s.KA = int64(r.N(1, 60)) * int64(time.Second)
	s.TO = s.KA * int64(r.N(1, 4))
	s.CRT = s.KA * int64(r.N(10, 500)) / 100
	gen16events(r, &s)
	return s
}

// pair16 is an idle pair of library client and library server.
type pair16 struct {
	Proto   string
	KA      [2]int64 // server, client
	TO      [2]int64
	Events  []ev16 // K: server client
	Long    int64
	Default bool
	Yield   uint64
}

func runPair16(c *eng.C, s pair16) error {
	if s.Proto != "json" && s.Proto != "messagepack" || s.Long < 0 {
		return eng.Discard
	}
	if !s.Default {
		for i := range 2 {
			// compatible
			if s.KA[i] < 1000 || s.TO[1-i] <= s.KA[i] {
				return eng.Discard
			}
		}
	}
	return InBubble(c, func(b *B) error {
		w := &w16{done: b.Ctx.Done()}
		side := func(i int) []func(signalr.Party) error {
			if s.Default {
				return nil
			}
			return []func(signalr.Party) error{signalr.KeepAliveInterval(time.Duration(s.KA[i])), signalr.TimeoutInterval(time.Duration(s.TO[i]))}
		}
		var y *Yield
		if s.Yield != 0 {
			y = NewYield(s.Yield, 20)
		}
		srv, err := signalr.NewServer(b.Ctx, append(side(0), Quiet(y), signalr.HubFactory(func() signalr.HubInterface { return &hub16{w: w} }))...)
		if err != nil {
			return err
		}
		cl, _, _, sv, err := b.Client(srv, "c", s.Proto, append(side(1), Quiet(y), signalr.WithReceiver(&rcv16{w: w}))...)
		if err != nil {
			return err
		}
		start := time.Now()
		up := func(what string) error {
			b.Wait()
			if cl.State() != signalr.ClientConnected || sv.Ended() || w.off != 0 {
				return eng.Errf("%s: after %v the client is in state %d (%v), Serve ended: %v (%v)", what, time.Since(start), cl.State(), cl.Err(), sv.Ended(), sv.Err)
			}
			return nil
		}
		if err := up("start"); err != nil {
			return err
		}
		want := int32(0)
		for i, e := range s.Events {
			if e.D < 0 {
				return eng.Discard
			}
			b.Sleep(time.Duration(e.D))
			want++
			switch e.K {
			case "server":
				srv.HubClients().All().Send("note", "x")
			case "client":
				cl.Send("note", "x")
			case "invoke":
				ctx, cancel := context.WithTimeout(b.Ctx, time.Second)
				select {
				case x := <-cl.Invoke("call", "y"):
					if x.Error != nil || x.Value != "y" {
						cancel()
						return eng.Errf("event %d: Invoke returns %v", i, x)
					}
				case <-ctx.Done():
					cancel()
					return eng.Errf("event %d: Invoke does not return", i)
				}
				cancel()
			default:
				return eng.Discard
			}
			if err := up(fmt.Sprint("event ", i)); err != nil {
				return err
			}
			if got := atomic.LoadInt32(&w.got); got != want {
				return eng.Errf("event %d: %d of %d messages arrived", i, got, want)
			}
		}
		b.Sleep(time.Duration(s.Long))
		if err := up("end"); err != nil {
			return err
		}
		if s.Long > 0 || len(s.Events) > 0 {
			c.NonTrivial()
		}
		return nil
	})
}

func genPair16(r *eng.R) pair16 {
	s := pair16{Proto: protos[r.IntN(2)], Default: r.P(0.15)}
	unit := dur16(r)
	if s.Default {
		unit = int64(5 * time.Second)
	}
	for i := range 2 {
		s.KA[i] = unit * int64(r.N(1, 20)) / int64(r.N(1, 20))
	}
	for i := range 2 {
		s.TO[i] = s.KA[1-i] + eng.Pick(r, 1, 1000, s.KA[1-i]/10+1, s.KA[1-i], 10*s.KA[1-i])
	}
	m := min(s.KA[0], s.KA[1])
	if s.Default {
		m = unit
	}
	for k := r.N(0, 15); k > 0; k-- {
		s.Events = append(s.Events, ev16{m * int64(r.N(0, 1000)) / 100, eng.Pick(r, "server", "client", "invoke")})
	}
	if r.P(0.4) {
		for i := range s.Events {
			s.Events[i].K = s.Events[0].K // only one side talks
		}
	}
	s.Long = m * int64(r.N(1, 300))
	if r.P(0.3) {
		s.Yield = r.Uint64() | 1
	}
	return s
}

func init() {
	eng.Register(&eng.Check{
		ID:   "C16",
		Rule: "a case is non-trivial when a ping was due, a timeout had to happen, or a pair of parties had to stay connected for a time longer than its intervals",
		Families: []eng.Family{
			eng.Fam("traffic", 4000, 60000, gen16, run16),
			eng.Fam("blocked", 1500, 20000, genBlock16, run16),
			eng.Fam("pairs", 1500, 20000, genPair16, runPair16),
		},
	})
}
