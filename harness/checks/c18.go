package checks

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// All durations are in ms. Delays of the connections are multiples of 10, moments of actions are not, so nothing
// which matters happens at the same time.

// att18 is what happens to one attempt to connect.
type att18 struct {
	Delay int64  // the connector needs this time
	Kind  string // fail hserr hsbad hseof silent ok
	HS    int64  // time until the handshake is answered
	Life  int64  // time the connection lives, <0: for ever
	End   string // eof err close bad
	Recon bool   `json:",omitempty"` // close: reconnecting is allowed
	Error string `json:",omitempty"` // close
	EOF   bool   `json:",omitempty"` // close: the connection ends, too
}

// act18 is something the user of the client does.
type act18 struct {
	At    int64
	K     string // start stop cancel wait observe call
	State int    `json:",omitempty"` // wait
	Ctx   int64  `json:",omitempty"` // wait: the context is canceled after this time, 0: never
	Buf   int    `json:",omitempty"` // observe
	Slow  int64  `json:",omitempty"` // observe: time between reads, <0: never reads
	Off   int64  `json:",omitempty"` // observe: canceled after this time, 0: never
	How   string `json:",omitempty"` // call: invoke send pull push
}

type sc18 struct {
	Proto     string
	Connector bool
	HT        int64
	Backoff   []int64 // delays, then Stop
	Atts      []att18
	Acts      []act18
	Yield     uint64 `json:",omitempty"`
}

const (
	created18    = int(signalr.ClientCreated)
	connecting18 = int(signalr.ClientConnecting)
	connected18  = int(signalr.ClientConnected)
	closed18     = int(signalr.ClientClosed)
)

type tr18 struct {
	at    int64
	state int
}

type model18 struct {
	trans   []tr18 // changes of state
	calls   []int64
	conns   []tr18 // attempts which connected: when, and number of the attempt
	stop    int64  // when stopped, -1: never
	how     string
	ends    map[int64]string // why it closed at this time
	endText map[int64]string
	bad     bool
	nlost   int
}

func (m *model18) state(t int64) int {
	s := created18
	for _, x := range m.trans {
		if x.at <= t {
			s = x.state
		}
	}
	return s
}

// change18 adds a state if it is a change.
func (m *model18) set(t int64, s int) {
	if n := len(m.trans); n > 0 && m.trans[n-1].state == s || n == 0 && s == created18 {
		return
	}
	m.trans = append(m.trans, tr18{t, s})
}

func ten(n int64) bool { return n >= 0 && n%10 == 0 }

// simulate18 is the reference model of the client.
func simulate18(s sc18) *model18 {
	m := &model18{stop: -1, ends: map[int64]string{}, endText: map[int64]string{}}
	var starts []int64
	for _, a := range s.Acts {
		switch a.K {
		case "start":
			starts = append(starts, a.At)
		case "stop", "cancel":
			if m.stop < 0 {
				m.stop, m.how = a.At, a.K
			}
		}
	}
	next := 0
	close18 := func(t int64, why, text string) { m.set(t, closed18); m.ends[t], m.endText[t] = why, text }
	busy := int64(-1) // the client runs until then
	for i, st := range starts {
		if i > 0 && (m.state(st) != closed18 || busy >= st) {
			m.bad = true
			return m
		}
		if m.stop >= 0 && m.stop < st {
			if i == 0 || m.stop > m.trans[len(m.trans)-1].at {
				m.set(m.stop, closed18) // Stop of a client which is not running
				m.ends[m.stop] = "any"
			}
			m.bad = true // starting a stopped client is another family
			return m
		}
		m.set(st, connecting18)
		t := st
		bi := 0
		run := func() {
			for {
				// at t an attempt starts
				a := att18{Kind: "ok", Life: -1}
				if s.Connector {
					if next < len(s.Atts) {
						a = s.Atts[next]
					}
					m.calls = append(m.calls, t)
					t += a.Delay
				} else {
					if next > 0 {
						close18(t, "unable", "")
						return
					}
					if len(s.Atts) > 0 {
						a = s.Atts[0]
					}
				}
				n := next
				next++
				if m.stop >= 0 && m.stop < t {
					close18(m.stop, "stopped", "")
					return
				}
				fail := ""
				switch a.Kind {
				case "fail":
					if s.Connector {
						fail = fmt.Sprintf("connector %d", n)
					} else {
						t += a.HS
						fail = "?"
					}
				case "hserr":
					t += a.HS
					fail = fmt.Sprintf("refused %d", n)
				case "hsbad", "hseof":
					t += a.HS
					fail = "?"
				case "silent":
					t += s.HT
					fail = "?"
				case "ok":
					t += a.HS
				}
				if m.stop >= 0 && m.stop < t {
					close18(m.stop, "stopped", "")
					return
				}
				why := "failed"
				text := fail
				if fail == "" {
					m.set(t, connected18)
					m.conns = append(m.conns, tr18{t, n})
					bi = 0
					if a.Life < 0 {
						if m.stop >= 0 {
							close18(m.stop, "stopped", "")
						} else {
							t = 1 << 60
						}
						return
					}
					t += a.Life
					m.nlost++
					if m.stop >= 0 && m.stop < t {
						close18(m.stop, "stopped", "")
						return
					}
					why, text = "lost", ""
					if a.End == "close" {
						why, text = "server closed", a.Error
					}
				}
				if !s.Connector {
					close18(t, why, text)
					return
				}
				if why == "server closed" && !a.Recon {
					close18(t, "forbidden", text)
					return
				}
				if bi >= len(s.Backoff) {
					close18(t, "backoff", "")
					return
				}
				m.set(t, connecting18)
				d := s.Backoff[bi]
				bi++
				if m.stop >= 0 && m.stop < t+d {
					close18(m.stop, "stopped", "")
					return
				}
				t += d
			}
		}
		run()
		busy = t
	}
	if m.stop >= 0 && (len(starts) == 0 || m.state(1<<59) == closed18) {
		if m.state(m.stop) != closed18 && len(starts) == 0 && m.how == "stop" {
			m.set(m.stop, closed18)
			m.ends[m.stop] = "any"
		}
	}
	return m
}

// backoff18 is the back-off given to the client.
type backoff18 struct {
	d []int64
	i int
}

func (b *backoff18) NextBackOff() time.Duration {
	if b.i >= len(b.d) {
		return backoff.Stop
	}
	b.i++
	return time.Duration(b.d[b.i-1]) * time.Millisecond
}
func (b *backoff18) Reset() { b.i = 0 }

// srv18 is a raw server.
type srv18 struct {
	b     *B
	proto string
	mx    sync.Mutex
	reqs  []string
	ends  []*End
	calls map[int][]string // targets by attempt
	start time.Time
}

func (v *srv18) serve(n int, a att18, e *End) {
	defer func() {
		if a.Kind == "silent" {
			<-v.b.Ctx.Done()
		}
		e.CloseWith(nil)
	}()
	buf := make([]byte, 4096)
	var in []byte
	i := -1
	for i < 0 {
		k, err := e.Read(buf)
		if err != nil {
			return
		}
		in = append(in, buf[:k]...)
		i = strings.IndexByte(string(in), 0x1e)
	}
	v.mx.Lock()
	v.reqs = append(v.reqs, string(in[:i]))
	v.mx.Unlock()
	in = in[i+1:]
	if a.Kind == "silent" {
		return
	}
	time.Sleep(time.Duration(a.HS) * time.Millisecond)
	switch a.Kind {
	case "hserr":
		_, _ = e.Write([]byte(fmt.Sprintf("{\"error\":\"refused %d\"}\x1e", n)))
		<-v.b.Ctx.Done()
		return
	case "hsbad":
		_, _ = e.Write([]byte("{\x1e"))
		<-v.b.Ctx.Done()
		return
	case "hseof", "fail":
		return
	}
	if a.Life >= 0 {
		go func() {
			time.Sleep(time.Duration(a.Life) * time.Millisecond)
			switch a.End {
			case "eof":
				e.CloseWith(nil)
			case "err":
				e.CloseWith(ErrClosed)
			case "bad":
				_, _ = e.Write([]byte("\x02\xff\xff\x1e{\"type\":99}\x1e"))
			case "close":
				_, _ = e.Write(Encode(v.proto, Msg{Type: 7, Error: a.Error, HasError: a.Error != "", Reconnect: a.Recon}, Style{}))
				if a.EOF {
					e.CloseWith(io.EOF)
				}
			}
		}()
	}
	_, _ = e.Write([]byte("{}\x1e"))
	for {
		ms, rest, err := DecodeAll(v.proto, in)
		if err != nil {
			return
		}
		in = rest
		for _, m := range ms {
			if m.Type == 1 || m.Type == 4 {
				v.mx.Lock()
				v.calls[n] = append(v.calls[n], m.Target)
				v.mx.Unlock()
				c := Msg{Type: 3, ID: m.ID}
				if m.Type == 1 {
					c.HasResult, c.Result = true, m.Target
				} else {
					_, _ = e.Write(Encode(v.proto, Msg{Type: 2, ID: m.ID, Item: m.Target}, Style{}))
				}
				if m.ID != "" {
					_, _ = e.Write(Encode(v.proto, c, Style{}))
				}
			}
		}
		k, err := e.Read(buf)
		if err != nil {
			return
		}
		in = append(in, buf[:k]...)
	}
}

func run18(c *eng.C, s sc18) error {
	if s.Proto != "json" && s.Proto != "messagepack" || !ten(s.HT) || s.HT == 0 {
		return eng.Discard
	}
	for _, d := range s.Backoff {
		if !ten(d) {
			return eng.Discard
		}
	}
	for i, a := range s.Atts {
		if !ten(a.Delay) || !ten(a.HS) || a.HS >= s.HT || a.Life == 0 || a.Life > 0 && !ten(a.Life) || a.Life > 0 && a.Kind == "ok" && a.End != "eof" && a.End != "err" && a.End != "close" && a.End != "bad" {
			return eng.Discard
		}
		switch a.Kind {
		case "fail", "hserr", "hsbad", "hseof", "silent", "ok":
		default:
			return eng.Discard
		}
		if !s.Connector && i > 0 {
			return eng.Discard
		}
	}
	at := int64(-1)
	started := false
	for _, a := range s.Acts {
		if m := a.At % 10; a.At <= at || a.K == "start" && m != 0 || a.K != "start" && m != 3 {
			return eng.Discard
		}
		at = a.At
		switch a.K {
		case "start":
			started = true
		case "wait":
			if a.State < 0 || a.State > 3 || !ten(a.Ctx) {
				return eng.Discard
			}
		case "observe":
			if a.Buf < 0 || a.Buf > 100 || !ten(a.Off) || a.Slow > 0 && !ten(a.Slow) {
				return eng.Discard
			}
		case "call":
			if a.How != "invoke" && a.How != "send" && a.How != "pull" && a.How != "push" {
				return eng.Discard
			}
		case "stop", "cancel":
		default:
			return eng.Discard
		}
	}
	m := simulate18(s)
	if m.bad || !started && m.stop >= 0 && m.how == "cancel" {
		return eng.Discard
	}
	return InBubble(c, func(b *B) error { return exec18(c, b, s, m) })
}

func exec18(c *eng.C, b *B, s sc18, m *model18) error {
	var y *Yield
	if s.Yield != 0 {
		y = NewYield(s.Yield, 20)
	}
	v := &srv18{b: b, proto: s.Proto, calls: map[int][]string{}, start: time.Now()}
	ms := func(d time.Duration) int64 { return d.Milliseconds() }
	var mx sync.Mutex
	var calls []int64
	att := 0
	opts := []func(signalr.Party) error{Quiet(y), signalr.TransferFormat(FormatOf(s.Proto)), signalr.HandshakeTimeout(time.Duration(s.HT) * time.Millisecond),
		signalr.TimeoutInterval(1000 * time.Hour), signalr.KeepAliveInterval(500 * time.Hour)}
	newConn := func(n int, a att18) *End {
		se, ce := NewPipe(b.Ctx, fmt.Sprint("c", n), fmt.Sprint("c", n))
		mx.Lock()
		v.ends = append(v.ends, ce)
		mx.Unlock()
		go v.serve(n, a, se)
		return ce
	}
	if s.Connector {
		opts = append(opts, signalr.WithBackoff(func() backoff.BackOff { return &backoff18{d: s.Backoff} }),
			signalr.WithConnector(func() (signalr.Connection, error) {
				mx.Lock()
				calls = append(calls, ms(b.Now()))
				n := att
				att++
				mx.Unlock()
				a := att18{Kind: "ok", Life: -1}
				if n < len(s.Atts) {
					a = s.Atts[n]
				}
				time.Sleep(time.Duration(a.Delay) * time.Millisecond)
				if a.Kind == "fail" {
					return nil, fmt.Errorf("connector %d", n)
				}
				return newConn(n, a), nil
			}))
	} else {
		a := att18{Kind: "ok", Life: -1}
		if len(s.Atts) > 0 {
			a = s.Atts[0]
		}
		opts = append(opts, signalr.WithConnection(newConn(0, a)))
	}
	ctx, cancel := context.WithCancel(b.Ctx)
	defer cancel()
	cl, err := signalr.NewClient(ctx, opts...)
	if err != nil {
		return err
	}
	// an observer which is there from the start
	var seen []tr18
	all := make(chan signalr.ClientState)
	defer cl.ObserveStateChanged(all)()
	go func() {
		for st := range all {
			mx.Lock()
			if n := len(seen); n == 0 || seen[n-1].state != int(st) {
				seen = append(seen, tr18{ms(b.Now()), int(st)})
			}
			mx.Unlock()
		}
	}()
	type waiter struct {
		a   act18
		col *Collected[error]
	}
	type obs struct {
		a      act18
		ch     chan signalr.ClientState
		got    []int
		closed bool
		off    bool
		late   bool
		cancel context.CancelFunc
	}
	type call struct {
		a   act18
		n   int
		ir  *Collected[signalr.InvokeResult]
		err *Collected[error]
	}
	var waits []*waiter
	var obss []*obs
	var cs []*call
	hist := fmt.Sprintf("model: states %v, connector called %v, stopped %d", m.trans, m.calls, m.stop)
	check := func(now int64) error {
		b.Wait()
		st := int(cl.State())
		if want := m.state(now); st != want {
			return eng.Errf("at %d the state is %d instead of %d (Err %v); %s", now, st, want, cl.Err(), hist)
		}
		if st == connected18 && cl.Err() != nil {
			return eng.Errf("at %d the client is connected, Err is %v", now, cl.Err())
		}
		if st == closed18 {
			var last int64
			for t := range m.ends {
				if t <= now {
					last = max(last, t)
				}
			}
			why, text := m.ends[last], m.endText[last]
			e := cl.Err()
			switch why {
			case "failed":
				if e == nil || text != "?" && !strings.Contains(e.Error(), text) {
					return eng.Errf("at %d the client is closed because of a failed attempt (%s), Err is %v", now, text, e)
				}
			case "forbidden", "server closed":
				if text != "" && (e == nil || !strings.Contains(e.Error(), text)) {
					return eng.Errf("at %d the client is closed by the server with error %q, Err is %v", now, text, e)
				}
			case "stopped", "backoff", "unable":
				if e == nil {
					return eng.Errf("at %d the client is closed (%s), Err is nil", now, why)
				}
			}
		}
		return nil
	}
	end := int64(0)
	for _, t := range m.trans {
		end = max(end, t.at)
	}
	for _, t := range m.calls {
		end = max(end, t)
	}
	for _, a := range s.Acts {
		end = max(end, a.At+max(a.Ctx, a.Off, 0))
	}
	end += 2*s.HT + 15
	// what to do, and looks around each change
	type evt struct {
		at int64
		a  *act18
		o  *obs
	}
	var evs []evt
	for i := range s.Acts {
		evs = append(evs, evt{s.Acts[i].At, &s.Acts[i], nil})
	}
	for i, t := range m.trans {
		if t.at > 0 && i < 100 {
			evs = append(evs, evt{t.at - 1, nil, nil}, evt{t.at + 1, nil, nil})
		}
	}
	evs = append(evs, evt{end, nil, nil})
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
	stopped := make(chan struct{})
	for len(evs) > 0 {
		ev := evs[0]
		evs = evs[1:]
		if d := time.Duration(ev.at)*time.Millisecond - b.Now(); d > 0 {
			b.Sleep(d)
		}
		if ev.a != nil {
			a := *ev.a
			switch a.K {
			case "start":
				cl.Start()
			case "stop":
				go func() { cl.Stop(); close(stopped) }()
			case "cancel":
				cancel()
			case "wait":
				wctx, wcancel := b.Ctx, func() {}
				if a.Ctx > 0 {
					wctx, wcancel = context.WithTimeout(b.Ctx, time.Duration(a.Ctx-1)*time.Millisecond)
				}
				_ = wcancel
				waits = append(waits, &waiter{a, Collect(cl.WaitForState(wctx, signalr.ClientState(a.State)))})
			case "observe":
				o := &obs{a: a, ch: make(chan signalr.ClientState, a.Buf)}
				o.cancel = cl.ObserveStateChanged(o.ch)
				obss = append(obss, o)
				if a.Slow >= 0 {
					go func() {
						for {
							st, ok := <-o.ch
							mx.Lock()
							if !ok {
								o.closed = true
								mx.Unlock()
								return
							}
							if o.off && len(o.got) > 0 {
								o.late = true
							}
							o.got = append(o.got, int(st))
							mx.Unlock()
							time.Sleep(time.Duration(a.Slow) * time.Millisecond)
						}
					}()
				}
				if a.Off > 0 {
					evs = append(evs, evt{a.At + a.Off - 1, nil, o})
					sort.SliceStable(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
				}
			case "call":
				cc := &call{a: a, n: len(cs)}
				name := fmt.Sprint("m", cc.n)
				switch a.How {
				case "invoke":
					cc.ir = Collect(cl.Invoke(name))
				case "pull":
					cc.ir = Collect(cl.PullStream(name))
				case "push":
					cc.ir = Collect(cl.PushStreams(name))
				case "send":
					cc.err = Collect(cl.Send(name))
				}
				cs = append(cs, cc)
			}
		}
		if ev.o != nil {
			fin := make(chan struct{})
			go func() { ev.o.cancel(); close(fin) }()
			b.Wait()
			select {
			case <-fin:
			default:
				return eng.Errf("at %d: canceling an observer does not return", ev.at)
			}
			mx.Lock()
			ev.o.off = true
			mx.Unlock()
			if ev.o.a.Slow < 0 {
				// nobody has read so far
				for st := range ev.o.ch { // ends because the channel is closed
					ev.o.got = append(ev.o.got, int(st))
				}
				ev.o.closed = true
			}
		}
		if err := check(ev.at); err != nil {
			return err
		}
	}
	if m.stop >= 0 && m.how == "stop" {
		select {
		case <-stopped:
		default:
			return eng.Errf("Stop has not returned; %s", hist)
		}
	}
	mx.Lock()
	defer mx.Unlock()
	if fmt.Sprint(seen) != fmt.Sprint(m.trans) {
		return eng.Errf("an observer sees %v instead of %v", seen, m.trans)
	}
	if s.Connector && fmt.Sprint(calls) != fmt.Sprint(m.calls) {
		return eng.Errf("the connector is called at %v instead of %v; %s", calls, m.calls, hist)
	}
	// every connection was used for one handshake
	for i, q := range v.reqs {
		var r map[string]any
		if json.Unmarshal([]byte(q), &r) != nil || r["protocol"] != s.Proto {
			return eng.Errf("handshake %d requests %q", i, q)
		}
	}
	for i, o := range obss {
		want := []int{}
		for _, t := range m.trans {
			if t.at > o.a.At {
				want = append(want, t.state)
			}
		}
		cur := m.state(o.a.At)
		var got []int
		for k, st := range o.got {
			if k == 0 && st == cur || k > 0 && st == o.got[k-1] {
				continue
			}
			got = append(got, st)
		}
		what := fmt.Sprintf("observer %d, registered at %d, canceled after %d", i, o.a.At, o.a.Off)
		prefix := len(got) <= len(want) && fmt.Sprint(got) == fmt.Sprint(want[:len(got)])
		if o.a.Off > 0 {
			if !o.closed && o.a.Slow >= 0 {
				// may have to read what is buffered first
				if o.a.Slow == 0 {
					return eng.Errf("%s: the channel is not closed", what)
				}
			}
			if !prefix {
				return eng.Errf("%s: sees %v, the states were %v", what, got, want)
			}
			if o.a.Slow == 0 {
				n := 0
				for _, t := range m.trans {
					if t.at > o.a.At && t.at < o.a.At+o.a.Off-1 {
						n++
					}
				}
				if len(got) != n {
					return eng.Errf("%s: sees %v, should have seen %v", what, got, want[:n])
				}
			}
			continue
		}
		if o.closed {
			return eng.Errf("%s: the channel was closed", what)
		}
		if !prefix || o.a.Slow == 0 && len(got) != len(want) {
			return eng.Errf("%s: sees %v instead of %v", what, got, want)
		}
	}
	for i, w := range waits {
		items, closed := w.col.Get()
		what := fmt.Sprintf("waiter %d for state %d, from %d on, context for %d (%s)", i, w.a.State, w.a.At, w.a.Ctx, hist)
		// what has to happen
		when, ok := int64(-1), 0 // 0: pending, 1: nil, 2: error, 3: either
		cur := m.state(w.a.At)
		switch {
		case cur == w.a.State:
			when, ok = w.a.At, 1
		case cur == created18 || cur == closed18:
			when, ok = w.a.At, 2
		default:
			for _, t := range m.trans {
				if t.at <= w.a.At || ok != 0 {
					continue
				}
				if t.state == w.a.State {
					when, ok = t.at, 1
				} else if t.state == closed18 {
					when, ok = t.at, 2
				}
			}
			if m.stop > w.a.At && (ok == 0 || m.stop < when) {
				when, ok = m.stop, 2
			} else if m.stop == when && ok == 1 {
				ok = 3
			}
			if m.stop >= 0 && m.stop < w.a.At { // stopped, but still running
				when, ok = w.a.At, 2
				if w.a.State == closed18 {
					ok = 3
				}
			}
			if x := w.a.At + w.a.Ctx - 1; w.a.Ctx > 0 && (ok == 0 || x < when) {
				when, ok = x, 2
			}
		}
		if ok == 0 {
			if closed || len(items) > 0 {
				return eng.Errf("%s returns %v although it should wait", what, items)
			}
			continue
		}
		if !closed {
			return eng.Errf("%s does not return, should have been at %d", what, when)
		}
		if at := ms(w.col.ClosedAt().Sub(b.Start)); at != when {
			return eng.Errf("%s returns %v at %d, should have been at %d", what, items, at, when)
		}
		if len(items) > 1 {
			return eng.Errf("%s returns %v", what, items)
		}
		isErr := len(items) == 1 && items[0] != nil
		if ok == 1 && isErr || ok == 2 && !isErr {
			return eng.Errf("%s returns %v", what, items)
		}
	}
	sent := map[string]int{}
	for n, l := range v.calls {
		for _, x := range l {
			if _, twice := sent[x]; twice {
				return eng.Errf("call %s was sent twice", x)
			}
			sent[x] = n
		}
	}
	for _, cc := range cs {
		what := fmt.Sprintf("%s %d made at %d (%s)", cc.a.How, cc.n, cc.a.At, hist)
		// Where it has to go
		cur := m.state(cc.a.At)
		to := -1
		switch cur {
		case connecting18:
			for _, t := range m.trans {
				if t.at > cc.a.At {
					if t.state == connected18 && (m.stop < 0 || m.stop > t.at) {
						for _, x := range m.conns {
							if x.at == t.at {
								to = x.state
							}
						}
					}
					break
				}
			}
			if m.stop >= 0 && m.stop < cc.a.At {
				to = -1
			}
		case connected18:
			for _, x := range m.conns {
				if x.at <= cc.a.At {
					to = x.state
				}
			}
		}
		n, was := sent[fmt.Sprint("m", cc.n)]
		waiting := false // still connecting at the end
		if cur == connecting18 && m.state(1<<59) == connecting18 {
			waiting = true
		}
		if to >= 0 && (!was || n != to) {
			return eng.Errf("%s: should have been sent over connection %d; sent: %v over %d", what, to, was, n)
		}
		if to < 0 && was {
			return eng.Errf("%s: sent over connection %d", what, n)
		}
		if cc.a.How == "send" {
			items, closed := cc.err.Get()
			if to < 0 && !waiting && (!closed || len(items) != 1 || items[0] == nil) {
				return eng.Errf("%s: not possible, but result is %v, %v", what, items, closed)
			}
			if to >= 0 && len(items) > 0 && items[0] != nil {
				return eng.Errf("%s: result is %v", what, items)
			}
			continue
		}
		items, closed := cc.ir.Get()
		if !closed && !waiting {
			return eng.Errf("%s does not end", what)
		}
		if to < 0 && !waiting && (len(items) != 1 || items[0].Error == nil) {
			return eng.Errf("%s: not possible, but result is %v", what, items)
		}
		if to >= 0 && (len(items) != 1 || items[0].Error != nil || fmt.Sprint(items[0].Value) != fmt.Sprint("m", cc.n)) {
			return eng.Errf("%s: result is %v", what, items)
		}
	}
	for _, why := range m.ends {
		c.Label("closed: %s", why)
	}
	c.LabelN("connected", len(m.conns))
	c.LabelN("connector calls", len(m.calls))
	if m.nlost > 0 || len(m.calls) > 1 || m.stop >= 0 {
		c.NonTrivial()
	}
	return nil
}

func gen18(r *eng.R) sc18 {
	t10 := func(max int) int64 { return int64(r.N(0, max)) * 10 }
	s := sc18{Proto: protos[r.IntN(2)], Connector: r.P(0.85), HT: 10 + t10(100)}
	for k := r.Heavy(8); k > 0; k-- {
		s.Backoff = append(s.Backoff, eng.Pick(r, 0, 10, 20, t10(200), t10(5)))
	}
	n := r.Heavy(12)
	if !s.Connector {
		n = min(n, 1)
	}
	for i := 0; i < n; i++ {
		a := att18{Kind: eng.Pick(r, "ok", "ok", "ok", "fail", "fail", "hserr", "hsbad", "hseof", "silent"), HS: eng.Pick(r, 0, 0, 10, t10(100)), Life: 10 + t10(30)}
		if a.HS >= s.HT {
			a.HS = s.HT - 10
		}
		if s.Connector {
			a.Delay = eng.Pick(r, 0, 0, 10, t10(20))
		}
		a.End = eng.Pick(r, "eof", "err", "close", "close", "bad")
		if a.End == "close" {
			a.Recon = r.P(0.7)
			a.EOF = r.P(0.5)
			a.Error = eng.Pick(r, "", "", "no more", "Fehler")
		}
		if r.P(0.05) {
			a.Life = -1
		}
		s.Atts = append(s.Atts, a)
	}
	if r.P(0.97) {
		s.Acts = append(s.Acts, act18{At: t10(3), K: "start"})
	}
	// moments of interest
	m := simulate18(s)
	moment := func() int64 {
		if len(m.trans) == 0 || r.P(0.3) {
			return t10(300)
		}
		t := m.trans[r.IntN(len(m.trans))].at
		return max(0, t/10*10+eng.Pick(r, int64(-10), 0, 10))
	}
	used := map[int64]bool{}
	for _, a := range s.Acts {
		used[a.At] = true
	}
	add := func(a act18) {
		a.At = a.At/10*10 + 3
		if used[a.At] {
			return
		}
		used[a.At] = true
		s.Acts = append(s.Acts, a)
	}
	for k := r.Heavy(10); k > 0; k-- {
		switch r.Weighted(4, 3, 4) {
		case 0:
			add(act18{At: moment(), K: "wait", State: r.IntN(4), Ctx: eng.Pick(r, 0, 10, t10(100))})
		case 1:
			add(act18{At: moment(), K: "observe", Buf: eng.Pick(r, 0, 1, 5), Slow: eng.Pick(r, int64(0), 0, 30, -1), Off: eng.Pick(r, 0, 10, t10(100))})
		case 2:
			add(act18{At: moment(), K: "call", How: eng.Pick(r, "invoke", "send", "pull", "push")})
		}
	}
	if r.P(0.4) {
		add(act18{At: moment(), K: eng.Pick(r, "stop", "cancel")})
	}
	sort.Slice(s.Acts, func(i, j int) bool { return s.Acts[i].At < s.Acts[j].At })
	// start again
	for k := r.IntN(3); k > 0; k-- {
		m = simulate18(s)
		if m.bad || m.stop >= 0 || m.state(1<<59) != closed18 || len(m.trans) == 0 {
			break
		}
		at := max(m.trans[len(m.trans)-1].at, s.Acts[len(s.Acts)-1].At)/10*10 + 10 + t10(10)
		s.Acts = append(s.Acts, act18{At: at, K: "start"})
	}
	if r.P(0.3) {
		s.Yield = r.Uint64() | 1
	}
	return s
}

// race18: everything happens at the same moment, the outcome is judged when nothing moves any more.
type race18 struct {
	Rounds []round18
	Yield  uint64 `json:",omitempty"`
}

type round18 struct {
	End  string // how the connection before ends: eof close
	N    int    // waiters, calls, observers which come and go
	Seed uint64
	Stop string `json:",omitempty"` // stop, cancel: end of the client at the same moment
	Log  int    `json:",omitempty"` // stop: or after so many log events and so many additions
	Tune int    `json:",omitempty"`
}

func runRace18(c *eng.C, s race18) error {
	for i, r := range s.Rounds {
		if r.N < 0 || r.N > 500 || r.Log < 0 || r.Tune < 0 || r.Tune > 100000 || r.End != "eof" && r.End != "close" || r.Stop != "" && (i != len(s.Rounds)-1 || r.Stop != "stop" && r.Stop != "cancel") {
			return eng.Discard
		}
	}
	return InBubble(c, func(b *B) error {
		var y *Yield
		if s.Yield != 0 {
			y = NewYield(s.Yield, 20)
		}
		v := &srv18{b: b, proto: "json", calls: map[int][]string{}}
		var mx sync.Mutex
		var ends []*End
		ctx, cancel := context.WithCancel(b.Ctx)
		defer cancel()
		trig := NewTrigger(y)
		cl, err := signalr.NewClient(ctx, signalr.Logger(trig, true), signalr.HandshakeTimeout(time.Hour), signalr.WithBackoff(func() backoff.BackOff { return &backoff18{d: []int64{10}} }),
			signalr.WithConnector(func() (signalr.Connection, error) {
				se, ce := NewPipe(b.Ctx, "c", "c")
				mx.Lock()
				ends = append(ends, se)
				n := len(ends)
				mx.Unlock()
				go v.serve(n, att18{Kind: "ok", HS: 10, Life: -1}, se)
				return ce, nil
			}))
		if err != nil {
			return err
		}
		var last []int
		obs := make(chan signalr.ClientState)
		defer cl.ObserveStateChanged(obs)()
		go func() {
			for x := range obs {
				mx.Lock()
				if n := len(last); n == 0 || last[n-1] != int(x) {
					last = append(last, int(x))
				}
				mx.Unlock()
			}
		}()
		var want []int
		for i, rd := range s.Rounds {
			if rd.Stop != "" && rd.Log > 0 {
				trig.Arm(rd.Log)
			}
			if i == 0 {
				cl.Start()
			} else {
				// the connection before is lost
				e := ends[len(ends)-1]
				if rd.End == "close" {
					_, _ = e.Write(Encode("json", Msg{Type: 7, Reconnect: true}, Style{}))
				}
				e.CloseWith(nil)
			}
			c.NonTrivial()
			want = append(want, connecting18)
			// connected in 10 ms (first) or 20 ms
			r := eng.NewR(rd.Seed, "race18", i)
			var errs []*Collected[error]
			var irs []*Collected[signalr.InvokeResult]
			d := 20 * time.Millisecond
			if i == 0 {
				d = 10 * time.Millisecond
			}
			var wg sync.WaitGroup
			stopped := make(chan struct{})
			for k := range rd.N {
				spin, kind := r.IntN(20000), r.IntN(6)
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(d)
					x := 0
					for j := range spin {
						x += j
					}
					_ = x
					switch kind {
					case 0:
						ir := Collect(cl.Invoke(fmt.Sprint("r", i, ".", k)))
						mx.Lock()
						irs = append(irs, ir)
						mx.Unlock()
					case 1:
						ch := make(chan signalr.ClientState, 1)
						cl.ObserveStateChanged(ch)()
						for range ch { // is closed
						}
					default:
						w := Collect(cl.WaitForState(b.Ctx, signalr.ClientConnected))
						mx.Lock()
						errs = append(errs, w)
						mx.Unlock()
					}
				}()
			}
			if rd.Stop != "" {
				go func() {
					if rd.Log > 0 {
						select {
						case <-trig.C:
						case <-time.After(d):
						}
						Spin(rd.Tune)
					} else {
						time.Sleep(d)
					}
					if rd.Stop == "stop" {
						cl.Stop()
					} else {
						cancel()
					}
					close(stopped)
				}()
			}
			b.Sleep(d + 5*time.Millisecond)
			wg.Wait()
			b.Wait()
			if rd.Stop != "" {
				select {
				case <-stopped:
				default:
					return eng.Errf("round %d: Stop does not return", i)
				}
				if st := cl.State(); st != signalr.ClientClosed {
					return eng.Errf("round %d: stopped, but the state is %d", i, st)
				}
				mx.Lock()
				n := len(ends)
				mx.Unlock()
				b.Sleep(time.Second)
				if st := cl.State(); st != signalr.ClientClosed || len(ends) != n || n != i+1 && (rd.Log == 0 || n != i) {
					return eng.Errf("round %d: stopped, but the state is %d after a second, the connector was called %d times", i, st, len(ends))
				}
			} else if st := cl.State(); st != signalr.ClientConnected || cl.Err() != nil {
				return eng.Errf("round %d: should be connected, but the state is %d (%v)", i, st, cl.Err())
			}
			mx.Lock()
			for k, w := range errs {
				items, closed := w.Get()
				if !closed {
					mx.Unlock()
					return eng.Errf("round %d: waiter %d of %d for the connected state still waits; state %d", i, k, len(errs), cl.State())
				}
				if rd.Stop == "" && len(items) > 0 && items[0] != nil {
					mx.Unlock()
					return eng.Errf("round %d: waiter for the connected state gets %v", i, items)
				}
			}
			for _, w := range irs {
				items, closed := w.Get()
				if !closed {
					mx.Unlock()
					return eng.Errf("round %d: Invoke does not return", i)
				}
				if rd.Stop == "" && (len(items) != 1 || items[0].Error != nil) {
					mx.Unlock()
					return eng.Errf("round %d: Invoke returns %v", i, items)
				}
			}
			got := fmt.Sprint(last)
			mx.Unlock()
			ok := false
			if rd.Stop == "" {
				want = append(want, connected18)
				ok = got == fmt.Sprint(want)
			} else {
				ok = rd.Log > 0 && i > 0 && got == fmt.Sprint(append(want[:len(want)-1:len(want)-1], closed18)) ||
					got == fmt.Sprint(append(want[:len(want):len(want)], closed18)) || got == fmt.Sprint(append(want[:len(want):len(want)], connected18, closed18))
			}
			if !ok {
				return eng.Errf("round %d: an observer sees %v, expected %v (stop: %q)", i, got, want, rd.Stop)
			}
		}
		return nil
	})
}

func genRace18(r *eng.R) race18 {
	var s race18
	for k := r.N(1, 8); k > 0; k-- {
		s.Rounds = append(s.Rounds, round18{End: eng.Pick(r, "eof", "close"), N: r.N(0, 60), Seed: r.Uint64()})
	}
	if r.P(0.5) {
		l := &s.Rounds[len(s.Rounds)-1]
		l.Stop = eng.Pick(r, "stop", "cancel")
		if r.P(0.6) {
			l.Log, l.Tune = r.Heavy(100), eng.Pick(r, 0, 30, 300, 3000)
		}
	}
	if r.P(0.3) {
		s.Yield = r.Uint64() | 1
	}
	return s
}

// def18: without WithBackoff the delays are those of the exponential back-off of the package backoff.
type def18 struct {
	Fails  []int // failed attempts before each connection
	Life   int64
	AtOnce bool
}

func runDef18(c *eng.C, s def18) error {
	if s.Life < 1 {
		return eng.Discard
	}
	for _, n := range s.Fails {
		if n < 0 || n > 15 {
			return eng.Discard
		}
	}
	return InBubble(c, func(b *B) error {
		v := &srv18{b: b, proto: "json", calls: map[int][]string{}}
		var at, ended []time.Duration // when the connector is called, when the attempt before ended
		var oks []bool
		n, f := 0, 0
		var done atomic.Bool
		cl, err := signalr.NewClient(b.Ctx, Quiet(nil), signalr.HandshakeTimeout(time.Minute), signalr.TimeoutInterval(1000*time.Hour), signalr.KeepAliveInterval(500*time.Hour),
			signalr.WithConnector(func() (signalr.Connection, error) {
				at = append(at, b.Now())
				if f < len(s.Fails) && n < s.Fails[f] {
					n++
					ended = append(ended, b.Now())
					oks = append(oks, false)
					return nil, fmt.Errorf("no")
				}
				n = 0
				life := s.Life
				if f++; f > len(s.Fails) {
					life = -1
					done.Store(true)
				}
				se, ce := NewPipe(b.Ctx, "c", "c")
				go v.serve(f, att18{Kind: "ok", Life: life, End: "eof"}, se)
				ended = append(ended, b.Now()+time.Duration(s.Life)*time.Millisecond)
				oks = append(oks, true)
				return ce, nil
			}))
		if err != nil {
			return err
		}
		cl.Start()
		for i := 0; i < 3000 && !done.Load(); i++ {
			b.Sleep(time.Minute)
		}
		b.Sleep(time.Millisecond)
		if cl.State() != signalr.ClientConnected {
			return eng.Errf("the client has not reconnected: state %d, %v; the connector was called at %v", cl.State(), cl.Err(), at)
		}
		k := 0
		for i := 1; i < len(at); i++ {
			if oks[i-1] {
				k = 0
			}
			mid := float64(backoff.DefaultInitialInterval)
			for range k {
				mid = min(mid*backoff.DefaultMultiplier, float64(backoff.DefaultMaxInterval))
			}
			k++
			d := float64(at[i] - ended[i-1])
			if d < mid*(1-backoff.DefaultRandomizationFactor)-1 || d > mid*(1+backoff.DefaultRandomizationFactor)+1e6 {
				return eng.Errf("the connector is called at %v, attempts ended at %v (connected: %v): delay %d (number %d since the last connection) is %v, should be about %v", at, ended, oks, i, k, time.Duration(d), time.Duration(mid))
			}
			c.NonTrivial()
		}
		return nil
	})
}

func init() {
	eng.Register(&eng.Check{
		ID:   "C18",
		Rule: "a case is non-trivial when a connection was lost, the connector was called several times, the client was stopped, or callers raced with changes of the state",
		Families: []eng.Family{
			eng.Fam("histories", 30000, 300000, gen18, run18),
			eng.Fam("races", 1500, 20000, genRace18, runRace18),
			eng.Fam("default", 300, 3000, func(r *eng.R) def18 {
				s := def18{Life: int64(r.N(1, 100000))}
				for k := r.N(1, 4); k > 0; k-- {
					s.Fails = append(s.Fails, eng.Pick(r, 0, 1, r.N(0, 8)))
				}
				return s
			}, runDef18),
		},
	})
}
