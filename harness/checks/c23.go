package checks

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// peer23 is a connection whose output is looked at.
type peer23 struct {
	T, P  string
	Cap   int `json:",omitempty"` // the transport takes so many bytes before the peer reads
	Pace  int `json:",omitempty"` // the peer reads every so many milliseconds
	Piece int `json:",omitempty"` // the peer reads so many bytes at once
	// "fail": from the At-th byte on, all writes fail. "once", "short": one write takes data only up to there. It returns
	// an error (once) or the number of bytes only (short). The next write would be accepted
	F  string `json:",omitempty"`
	At int    `json:",omitempty"`
}

// snd23 sends N messages with payloads of Sz bytes.
type snd23 struct {
	K   string
	C   int
	N   int
	Sz  int
	Gap int `json:",omitempty"` // milliseconds between the messages
}

type sc23 struct {
	Peers   []peer23
	Senders []snd23
	KA      int    // milliseconds
	End     string `json:",omitempty"` // what ends the connection EndC (stop: all of them)
	EndC    int    `json:",omitempty"`
	EndAt   int    `json:",omitempty"`
	Yield   uint64 `json:",omitempty"`
}

const chars23 = "abc \"\\/\n\r\t<>&'{}[]:,\u001e\u2028\u0000\u007fäß€\U0001F600z0123456789"

var runes23 = []rune(chars23)

// pad23 is the payload of the k-th message of a sender.
func pad23(tag string, k, sz int) string {
	var w strings.Builder
	fmt.Fprintf(&w, "%s.%d:", tag, k)
	x := uint64(len(tag))*7919 + uint64(k)*2654435761 + uint64(tag[len(tag)-1])
	for i := 0; i < sz; i++ {
		x = x*6364136223846793005 + 1442695040888963407
		w.WriteRune(runes23[int(x>>40)%len(runes23)])
	}
	return w.String()
}

type hub23 struct {
	signalr.Hub
	x *x23
}

func (h *hub23) Echo(tag string, k, sz int) string { return pad23(tag, k, sz) }
func (h *hub23) Fail(tag string, k, sz int) error  { return errors.New(pad23(tag, k, sz)) }
func (h *hub23) Void(tag string)                   {}
func (h *hub23) Late(tag string, k, sz int) <-chan string {
	ch := make(chan string, 1)
	go func() {
		time.Sleep(time.Duration(k%7) * time.Millisecond)
		ch <- pad23(tag, k, sz)
		close(ch)
	}()
	return ch
}
func (h *hub23) Pull(tag string, n, sz, gap int) <-chan string {
	ch := make(chan string)
	go func() {
		defer close(ch)
		for k := 0; k < n; k++ {
			if gap > 0 {
				time.Sleep(time.Duration(gap) * time.Millisecond)
			}
			select {
			case ch <- pad23(tag, k, sz):
			case <-h.x.b.Ctx.Done():
				return
			}
		}
	}()
	return ch
}
func (h *hub23) Caller(tag string, n, sz, gap int) {
	c := h.Clients().Caller()
	for k := 0; k < n; k++ {
		if gap > 0 {
			time.Sleep(time.Duration(gap) * time.Millisecond)
		}
		c.Send("Note", pad23(tag, k, sz))
	}
}
func (h *hub23) Bye(tag string, k int) { _ = h.Close(fmt.Sprintf("%s.%d", tag, k), k%2 == 0) }
func (h *hub23) Quit()                 { h.Abort() }

// out23 is what one connection should transport.
type out23 struct {
	want    map[string]int      // complete messages
	streams map[string][]string // id of a stream and its items
	ids     map[string]string   // client: what a stream id stands for
	total   int                 // about so many bytes
	lossy   bool                // the connection ends at some time
	partial bool                // the last message may be incomplete
	base    int                 // bytes before the fault was set up
}

func (o *out23) add(n int, format string, a ...any) {
	o.want[fmt.Sprintf(format, a...)]++
	o.total += 60 + 2*n
}

type x23 struct {
	b     *B
	s     sc23
	conns []*conn22
	outs  []*out23
}

func newOut23() *out23 {
	return &out23{want: map[string]int{}, streams: map[string][]string{}, ids: map[string]string{}}
}

func (s sc23) valid(roles ...string) bool {
	if len(s.Peers) < 1 || len(s.Peers) > 6 || len(s.Senders) > 60 || s.KA < 20 || s.KA > 100000 || s.EndAt < 0 || s.EndAt > 100000 || s.EndC < 0 || s.EndC >= len(s.Peers) {
		return false
	}
	total := 0
	for _, p := range s.Peers {
		if !has21(protos[:], p.P) || !has21(roles, p.T) || p.T == "sse" && p.P != "json" || p.Cap != 0 && p.Cap < 10 || p.Pace < 0 || p.Pace > 50 || p.Piece < 0 || p.At < 0 ||
			!has21([]string{"", "fail", "once", "short"}, p.F) || p.F != "" && p.T != "pipe" || (p.Cap > 0) != (p.Pace > 0) && p.T == "pipe" {
			return false
		}
	}
	for _, d := range s.Senders {
		if d.C < 0 || d.C >= len(s.Peers) || d.N < 0 || d.N > 400 || d.Sz < 0 || d.Sz > 50000 || d.Gap < 0 || d.Gap > 50 {
			return false
		}
		total += d.N * (d.Sz + 30)
		if d.K == "all" {
			total += d.N * (d.Sz + 30) * (len(s.Peers) - 1)
		}
	}
	for _, p := range s.Peers {
		if p.Cap > 0 && total*2/p.Cap*(p.Pace+1) > 4000 {
			return false
		}
	}
	return total < 600000
}

// slow lets the peer of the connection read slowly.
func (x *x23) slow(p peer23, cn *conn22) {
	cut := func(n int) int { return max(1, p.Piece) }
	if p.T == "pipe" {
		if p.Cap > 0 {
			cn.srv.SetWriteCap(p.Cap)
			go func() {
				for x.b.Ctx.Err() == nil {
					time.Sleep(time.Duration(p.Pace) * time.Millisecond)
					cn.raw.Drain()
				}
			}()
		}
		switch p.F {
		case "fail":
			cn.srv.FailWriteAfter(p.At, errors.New("broken"))
		case "once":
			cn.srv.FailWriteOnce(p.At, errors.New("broken once"))
		case "short":
			cn.srv.FailWriteOnce(p.At, nil)
		}
		return
	}
	if p.Piece > 0 {
		cn.cli.SetCut(cut)
	}
	if p.Cap > 0 {
		cn.mem.SetCap(p.Cap)
	}
	if p.Pace > 0 {
		go func() {
			for x.b.Ctx.Err() == nil {
				cn.cli.Stall(true)
				time.Sleep(time.Duration(p.Pace) * time.Millisecond)
				cn.cli.Stall(false)
				time.Sleep(time.Millisecond)
			}
		}()
	}
}

// key names a message.
func key23(m Msg) (string, bool) {
	str := func(v any) (string, bool) { s, ok := v.(string); return s, ok }
	switch m.Type {
	case 1, 4:
		var l []string
		for _, a := range m.Args {
			s, ok := str(a)
			if !ok {
				return "", false
			}
			l = append(l, s)
		}
		return fmt.Sprintf("%d %s %q %d", m.Type, m.Target, l, len(m.StreamIDs)), true
	case 3:
		if m.Result == nil {
			return fmt.Sprintf("done %s <nil> %q", m.ID, m.Error), true
		}
		s, ok := str(m.Result)
		return fmt.Sprintf("done %s %q %q", m.ID, s, m.Error), ok
	case 7:
		return fmt.Sprintf("close %q %v", m.Error, m.Reconnect), true
	}
	return "", false
}

// judge compares what was received with what was sent. It returns how many messages are missing.
func (x *x23) judge(i int) (missing int, switches int, err error) {
	cn, o, p := x.conns[i], x.outs[i], x.s.Peers[i]
	raw, end := cn.got()
	fail := func(format string, a ...any) (int, int, error) {
		return 0, 0, eng.Errf("peer %d (%s %s): %s", i, p.T, p.P, fmt.Sprintf(format, a...))
	}
	if end != nil && !o.lossy {
		return fail("the connection has ended: %v", end)
	}
	raw = raw[min(cn.off, len(raw)):]
	ms, rest, err := DecodeAll(p.P, raw)
	if err != nil {
		at := 0
		for _, m := range ms {
			at += len(m.Raw) + 1
		}
		return fail("the bytes after %d messages are no message: %v: %s", len(ms), err, clip(fmt.Sprintf("%q", raw[min(at, len(raw)):])))
	}
	want := map[string]int{}
	for k, n := range o.want {
		want[k] = n
	}
	items := map[string]int{}
	doneStreams := map[string]bool{}
	last := ""
	for n, m := range ms {
		if m.Type == 6 {
			continue
		}
		who := ""
		if m.Type == 1 && len(m.StreamIDs) == 1 {
			// a stream of the client
			if tag, ok := m.Args[0].(string); ok && len(m.Args) == 1 {
				if old, ok := o.ids[m.StreamIDs[0]]; ok && old != tag {
					return fail("the streams of %s and %s have the same id %q", old, tag, m.StreamIDs[0])
				}
				o.ids[m.StreamIDs[0]] = tag
			}
		}
		id := m.ID
		if tag, ok := o.ids[id]; ok {
			id = tag
		}
		l, stream := o.streams[id]
		switch {
		case m.Type == 2 && stream:
			s, ok := m.Item.(string)
			k := items[id]
			if doneStreams[id] {
				return fail("message %d: item of the stream %s after its completion", n, id)
			}
			if !ok || k >= len(l) || s != l[k] {
				w := "nothing"
				if k < len(l) {
					w = l[k]
				}
				return fail("message %d: item %d of the stream %s is %s instead of %s", n, k, id, clip(fmt.Sprintf("%q", m.Item)), clip(fmt.Sprintf("%q", w)))
			}
			items[id]++
			who = id
		case m.Type == 3 && stream:
			if doneStreams[id] || items[id] != len(l) || m.Error != "" || m.Result != nil {
				return fail("message %d: %s after %d of %d items", n, clip(m.String()), items[id], len(l))
			}
			doneStreams[id] = true
			who = id
		default:
			k, ok := key23(m)
			if ok && want[k] == 0 && m.Type == 7 && o.lossy && n == len(ms)-1 {
				break // the connection was ended with it
			}
			if !ok || want[k] == 0 {
				return fail("message %d was not sent by anybody, or received before: %s", n, clip(m.String()))
			}
			want[k]--
			who = k[:min(len(k), 12)]
		}
		if who != last && last != "" {
			switches++
		}
		last = who
	}
	for k, n := range want {
		if p.Pace == 0 || !strings.HasPrefix(k, "close ") { // nobody waits for ever with a close message
			missing += n
		}
	}
	for id, l := range o.streams {
		missing += len(l) - items[id]
		if !doneStreams[id] {
			missing++
		}
	}
	if len(rest) > 0 && !o.partial {
		missing++
	}
	return missing, switches, nil
}

// finish waits until everything has arrived and judges it.
func (x *x23) finish(c *eng.C) error {
	b := x.b
	var d time.Duration = time.Second
	for i, p := range x.s.Peers {
		if p.Cap > 0 {
			d = max(d, time.Duration(x.outs[i].total/p.Cap*(p.Pace+1)*2)*time.Millisecond)
		}
	}
	for _, s := range x.s.Senders {
		d = max(d, time.Duration((s.N+1)*s.Gap+1000)*time.Millisecond)
	}
	all := 0
	for n := 0; ; n++ {
		b.Sleep(d / 8)
		for k := 0; k < 100 && x.midway(); k++ { // a ping is on its way
			b.Sleep(time.Millisecond)
		}
		missing := 0
		var what []string
		all = 0
		for i := range x.conns {
			m, sw, err := x.judge(i)
			if err != nil {
				return err
			}
			if m > 0 && !x.outs[i].lossy {
				missing += m
				what = append(what, fmt.Sprintf("peer %d (%s %s): %d messages have not arrived: %s", i, x.s.Peers[i].T, x.s.Peers[i].P, m, x.lacks(i)))
			}
			all += sw
		}
		if missing == 0 {
			break
		}
		if n == 48 {
			return eng.Errf("%s", strings.Join(what, "; "))
		}
	}
	for i, p := range x.s.Peers {
		o, cn := x.outs[i], x.conns[i]
		raw, _ := cn.got()
		_, rest, _ := DecodeAll(p.P, raw[min(cn.off, len(raw)):])
		if p.F == "once" || p.F == "short" {
			if !cn.srv.FailedOnce() {
				continue
			}
			c.Label("a write took only a part of a message (%s)", p.F)
			if hit := o.base + max(1, p.At); len(rest) > 0 && len(raw) > hit {
				return eng.Errf("peer %d (%s %s): a write ended after %d bytes within a message, and %d bytes of other messages followed: %s",
					i, p.T, p.P, hit, len(raw)-hit, clip(fmt.Sprintf("%q", rest)))
			}
		} else if len(rest) > 0 && !o.partial {
			return eng.Errf("peer %d (%s %s): the last message is incomplete: %s", i, p.T, p.P, clip(fmt.Sprintf("%q", rest)))
		}
	}
	if all >= 4 {
		c.NonTrivial()
		c.LabelN("switches between senders", all)
	}
	return nil
}

// midway tells if some connection, which should not, ends with an incomplete message.
func (x *x23) midway() bool {
	for i, p := range x.s.Peers {
		if !x.outs[i].partial {
			if _, rest, _ := DecodeAll(p.P, x.bytes(i)[x.conns[i].off:]); len(rest) > 0 {
				return true
			}
		}
	}
	return false
}

func (x *x23) bytes(i int) []byte {
	raw, _ := x.conns[i].got()
	return raw
}

// lacks lists some missing messages.
func (x *x23) lacks(i int) string {
	raw, _ := x.conns[i].got()
	ms, rest, _ := DecodeAll(x.s.Peers[i].P, raw[min(x.conns[i].off, len(raw)):])
	have := map[string]int{}
	for _, m := range ms {
		if k, ok := key23(m); ok {
			have[k]++
		}
	}
	var l []string
	for k, n := range x.outs[i].want {
		if have[k] < n {
			l = append(l, clip(k))
		}
	}
	sort.Strings(l)
	if len(l) > 5 {
		l = l[:5]
	}
	return fmt.Sprintf("%d arrived, rest %s, missing %v", len(ms), clip(fmt.Sprintf("%q", rest)), l)
}

func run23(c *eng.C, s sc23) error {
	if !s.valid("pipe", "net", "ws", "sse") || !has21([]string{"", "stop", "abort", "peerclose", "drop"}, s.End) {
		return eng.Discard
	}
	return InBubble(c, func(b *B) error {
		x := &x23{b: b, s: s}
		var y *Yield
		if s.Yield != 0 {
			y = NewYield(s.Yield, 30)
		}
		ctx, stop := context.WithCancel(b.Ctx)
		srv, err := signalr.NewServer(ctx, Quiet(y), signalr.TimeoutInterval(1000*time.Hour), signalr.KeepAliveInterval(time.Duration(s.KA)*time.Millisecond),
			signalr.MaximumReceiveMessageSize(1<<20), signalr.HubFactory(func() signalr.HubInterface { return &hub23{x: x} }))
		if err != nil {
			stop()
			return err
		}
		b.Cleanup(stop)
		x2 := &x22{c: c, b: b, srv: srv, onStop: map[string]bool{}}
		for _, p := range s.Peers {
			if p.T == "ws" || p.T == "sse" {
				x2.web = b.Web(srv, nil)
				break
			}
		}
		for i, p := range s.Peers {
			cn, err := x2.connect(op22{T: p.T, P: p.P})
			if err != nil {
				return err
			}
			cn.n = i
			cn.state = "good"
			x.conns = append(x.conns, cn)
			x2.conns = append(x2.conns, cn)
			x.outs = append(x.outs, newOut23())
			cn.write(b, Handshake(p.P))
			if p.T == "sse" {
				b.Sleep(100 * time.Millisecond)
			}
			raw, err := cn.got()
			if err != nil || len(raw) < 3 || string(raw[:3]) != "{}\x1e" {
				return eng.Errf("handshake response %q (%v)", raw, err)
			}
			cn.off = 3
			if p.T == "pipe" {
				cn.off = len(raw)
			}
			cn.state = "bad" // the writes are not followed by a pause
		}
		for i, p := range s.Peers {
			o := x.outs[i]
			o.lossy = p.F != "" || s.End == "stop" || s.End != "" && s.EndC == i
			o.partial = p.F != "" || o.lossy && (p.T != "pipe" || s.End == "drop")
			o.base = len(x.bytes(i))
			x.slow(p, x.conns[i])
		}
		// What is sent
		reqs := make([][]Msg, len(s.Peers))
		var outside []func()
		for n, d := range s.Senders {
			tag := fmt.Sprintf("s%d", n)
			o := x.outs[d.C]
			gap := time.Duration(d.Gap) * time.Millisecond
			switch d.K {
			case "echo", "fail", "late", "unknown", "void":
				for k := 0; k < d.N; k++ {
					id := fmt.Sprintf("%s.%d", tag, k)
					switch d.K {
					case "echo", "late":
						reqs[d.C] = append(reqs[d.C], Msg{Type: 1, ID: id, Target: d.K, Args: []any{tag, k, d.Sz}})
						o.add(d.Sz, "done %s %q %q", id, pad23(tag, k, d.Sz), "")
					case "fail":
						reqs[d.C] = append(reqs[d.C], Msg{Type: 1, ID: id, Target: d.K, Args: []any{tag, k, d.Sz}})
						o.add(d.Sz, "done %s <nil> %q", id, pad23(tag, k, d.Sz))
					case "unknown":
						reqs[d.C] = append(reqs[d.C], Msg{Type: 1, ID: id, Target: "unknown" + id, Args: []any{}})
						o.add(0, "done %s <nil> %q", id, "Unknown method unknown"+id)
					case "void":
						reqs[d.C] = append(reqs[d.C], Msg{Type: 1, ID: id, Target: d.K, Args: []any{tag}})
						o.add(0, "done %s <nil> %q", id, "")
					}
				}
			case "pull":
				reqs[d.C] = append(reqs[d.C], Msg{Type: 4, ID: tag, Target: "pull", Args: []any{tag, d.N, d.Sz, d.Gap}})
				o.streams[tag] = []string{}
				for k := 0; k < d.N; k++ {
					o.streams[tag] = append(o.streams[tag], pad23(tag, k, d.Sz))
					o.total += 60 + 2*d.Sz
				}
			case "caller":
				reqs[d.C] = append(reqs[d.C], Msg{Type: 1, Target: "caller", Args: []any{tag, d.N, d.Sz, d.Gap}})
				for k := 0; k < d.N; k++ {
					o.add(d.Sz, "1 Note %q 0", []string{pad23(tag, k, d.Sz)})
				}
			case "bye":
				for k := 0; k < d.N; k++ {
					reqs[d.C] = append(reqs[d.C], Msg{Type: 1, Target: "bye", Args: []any{tag, k}})
					o.add(0, "close %q %v", fmt.Sprintf("%s.%d", tag, k), k%2 == 0)
				}
			case "client", "all":
				cl := srv.HubClients().All()
				to := x.outs
				if d.K == "client" {
					cl = srv.HubClients().Client(x.conns[d.C].id)
					to = x.outs[d.C : d.C+1]
				}
				for k := 0; k < d.N; k++ {
					for _, o := range to {
						o.add(d.Sz, "1 Note %q 0", []string{pad23(tag, k, d.Sz)})
					}
				}
				outside = append(outside, func() {
					for k := 0; k < d.N; k++ {
						if gap > 0 {
							time.Sleep(gap)
						}
						cl.Send("Note", pad23(tag, k, d.Sz))
					}
				})
			default:
				return eng.Discard
			}
		}
		if s.End == "abort" {
			time.AfterFunc(time.Duration(s.EndAt)*time.Millisecond, func() {
				x.conns[s.EndC].writeNow(b, Encode(s.Peers[s.EndC].P, Msg{Type: 1, Target: "quit", Args: []any{}}, Style{}))
			})
		}
		var wg sync.WaitGroup
		for i, cn := range x.conns {
			var p []byte
			for _, m := range reqs[i] {
				p = append(p, Encode(s.Peers[i].P, m, Style{})...)
			}
			if len(p) > 0 {
				wg.Add(1)
				go func() { defer wg.Done(); cn.writeNow(b, p) }()
			}
		}
		for _, f := range outside {
			go f()
		}
		wg.Wait()
		if s.End != "" && s.End != "abort" {
			time.Sleep(time.Duration(s.EndAt) * time.Millisecond)
			cn := x.conns[s.EndC]
			switch s.End {
			case "stop":
				stop()
			case "peerclose":
				cn.writeNow(b, Encode(s.Peers[s.EndC].P, Msg{Type: 7, Error: "bye"}, Style{}))
			case "drop":
				x2.kill(cn)
			}
		}
		c.Label("end %q", s.End)
		return x.finish(c)
	})
}

// writeNow is write without waiting for anything.
func (cn *conn22) writeNow(b *B, p []byte) {
	switch cn.t {
	case "pipe":
		_, _ = cn.raw.Write(p)
	case "net":
		_, _ = cn.cli.Write(p)
	case "ws":
		cn.writeWS(b, p)
	case "sse":
		_ = cn.post(p)
	}
}

// cl23 is the client as writer.
type rcv23 struct{ x *x23 }

func (r *rcv23) Echo(tag string, k, sz int) string { return pad23(tag, k, sz) }
func (r *rcv23) Fail(tag string, k, sz int) error  { return errors.New(pad23(tag, k, sz)) }

func runCl23(c *eng.C, s sc23) error {
	if !s.valid("pipe", "net") || len(s.Peers) != 1 || !has21([]string{"", "stop", "peerclose", "drop"}, s.End) {
		return eng.Discard
	}
	p := s.Peers[0]
	return InBubble(c, func(b *B) error {
		x := &x23{b: b, s: s}
		var y *Yield
		if s.Yield != 0 {
			y = NewYield(s.Yield, 30)
		}
		cn := &conn22{t: p.T, p: p.P, state: "good"}
		var conn signalr.Connection
		if p.T == "pipe" {
			cli, srv := NewPipe(b.Ctx, "c", "c")
			cn.raw, cn.srv = &Raw{End: srv, Proto: p.P}, cli
			conn = cli
			b.Cleanup(func() { srv.CloseWith(nil) })
		} else {
			cn.mem, cn.cli = NewMemPipe()
			conn = signalr.NewNetConnection(b.Ctx, cn.mem)
			go func() {
				p := make([]byte, 1<<14)
				for {
					n, err := cn.cli.Read(p)
					cn.mx.Lock()
					cn.buf = append(cn.buf, p[:n]...)
					cn.mx.Unlock()
					if err != nil {
						return
					}
				}
			}()
			b.Cleanup(func() { _ = cn.cli.Close() })
		}
		x.conns, x.outs = []*conn22{cn}, []*out23{newOut23()}
		o := x.outs[0]
		cl, err := signalr.NewClient(b.Ctx, Quiet(y), signalr.WithConnection(conn), signalr.TransferFormat(FormatOf(p.P)), signalr.TimeoutInterval(1000*time.Hour),
			signalr.KeepAliveInterval(time.Duration(s.KA)*time.Millisecond), signalr.MaximumReceiveMessageSize(1<<20), signalr.WithReceiver(&rcv23{x}))
		if err != nil {
			return err
		}
		cl.Start()
		b.Wait()
		cn.writeNow(b, []byte("{}\x1e"))
		b.Wait()
		raw, _ := cn.got()
		if cn.off = len(raw); cn.off == 0 || raw[cn.off-1] != 0x1e {
			return eng.Errf("handshake request %q", raw)
		}
		o.lossy = p.F != "" || s.End != ""
		o.partial = p.F != "" || o.lossy && (p.T != "pipe" || s.End == "drop")
		o.base = len(x.bytes(0))
		x.slow(p, cn)
		var reqs []Msg
		var outside []func()
		for n, d := range s.Senders {
			tag := fmt.Sprintf("s%d", n)
			pause := func() {
				if d.Gap > 0 {
					time.Sleep(time.Duration(d.Gap) * time.Millisecond)
				}
			}
			switch d.K {
			case "echo", "fail", "unknown":
				for k := 0; k < d.N; k++ {
					id := fmt.Sprintf("%s.%d", tag, k)
					switch d.K {
					case "echo":
						o.add(d.Sz, "done %s %q %q", id, pad23(tag, k, d.Sz), "")
						reqs = append(reqs, Msg{Type: 1, ID: id, Target: d.K, Args: []any{tag, k, d.Sz}})
					case "fail":
						o.add(d.Sz, "done %s <nil> %q", id, pad23(tag, k, d.Sz))
						reqs = append(reqs, Msg{Type: 1, ID: id, Target: d.K, Args: []any{tag, k, d.Sz}})
					default:
						o.add(0, "done %s <nil> %q", id, "Unknown method unknown"+id)
						reqs = append(reqs, Msg{Type: 1, ID: id, Target: "unknown" + id, Args: []any{}})
					}
				}
			case "invoke", "send", "pull":
				typ := map[string]int{"invoke": 1, "send": 1, "pull": 4}[d.K]
				for k := 0; k < d.N; k++ {
					o.add(d.Sz, "%d %s %q 0", typ, d.K, []string{pad23(tag, k, d.Sz)})
				}
				outside = append(outside, func() {
					for k := 0; k < d.N; k++ {
						pause()
						switch d.K {
						case "invoke":
							cl.Invoke(d.K, pad23(tag, k, d.Sz))
						case "send":
							cl.Send(d.K, pad23(tag, k, d.Sz))
						case "pull":
							cl.PullStream(d.K, pad23(tag, k, d.Sz))
						}
					}
				})
			case "push":
				o.add(0, "1 push %q 1", []string{tag})
				o.streams[tag] = []string{}
				for k := 0; k < d.N; k++ {
					o.streams[tag] = append(o.streams[tag], pad23(tag, k, d.Sz))
					o.total += 60 + 2*d.Sz
				}
				outside = append(outside, func() {
					ch := make(chan string)
					cl.PushStreams(d.K, tag, ch)
					for k := 0; k < d.N; k++ {
						pause()
						select {
						case ch <- pad23(tag, k, d.Sz):
						case <-b.Ctx.Done():
							return
						}
					}
					close(ch)
				})
			default:
				return eng.Discard
			}
		}
		var pp []byte
		for _, m := range reqs {
			pp = append(pp, Encode(p.P, m, Style{})...)
		}
		cn.writeNow(b, pp)
		for _, f := range outside {
			go f()
		}
		if s.End != "" {
			time.Sleep(time.Duration(s.EndAt) * time.Millisecond)
			switch s.End {
			case "stop":
				go cl.Stop()
			case "peerclose":
				cn.writeNow(b, Encode(p.P, Msg{Type: 7, Error: "bye"}, Style{}))
			case "drop":
				if p.T == "pipe" {
					cn.raw.CloseWith(nil)
				} else {
					_ = cn.cli.Close()
				}
			}
		}
		c.Label("end %q", s.End)
		return x.finish(c)
	})
}

func gen23(client bool) func(r *eng.R) sc23 {
	return func(r *eng.R) sc23 {
		s := sc23{KA: eng.Pick(r, 20, 50, 300, 5000)}
		if r.P(0.7) {
			s.Yield = r.Uint64() | 1
		}
		n := 1
		if !client {
			n = r.Weighted(5, 2, 1, 1) + 1
		}
		faults := r.P(0.3)
		for i := 0; i < n; i++ {
			p := peer23{T: "pipe", P: protos[r.IntN(2)]}
			if client {
				p.T = eng.Pick(r, "pipe", "pipe", "net")
			} else {
				p.T = eng.Pick(r, "pipe", "pipe", "pipe", "net", "ws", "sse")
			}
			if p.T == "sse" {
				p.P = "json"
			}
			if r.P(0.6) {
				p.Cap = eng.Pick(r, 10, 50, 100, 1000, 5000)
				p.Pace = eng.Pick(r, 1, 1, 2, 20)
			}
			if p.T != "pipe" && r.P(0.4) {
				p.Piece = eng.Pick(r, 1, 3, 100, 5000)
			}
			if faults && p.T == "pipe" {
				p.F = eng.Pick(r, "fail", "once", "once", "short")
				p.At = eng.Pick(r, r.N(0, 200), r.N(0, 200), r.Heavy(30000))
			}
			s.Peers = append(s.Peers, p)
		}
		kinds := []string{"echo", "fail", "late", "unknown", "void", "pull", "pull", "pull", "caller", "bye", "client", "all", "all"}
		if client {
			kinds = []string{"echo", "fail", "unknown", "invoke", "send", "pull", "push", "push", "push"}
		}
		for k := 1 + r.Heavy(25); k > 0; k-- {
			s.Senders = append(s.Senders, snd23{K: kinds[r.IntN(len(kinds))], C: r.IntN(n), N: r.Heavy(80), Sz: eng.Pick(r, 0, 3, 30, 30, 300, 4000, 20000), Gap: eng.Pick(r, 0, 0, 0, 1, 5)})
		}
		if !faults && r.P(0.3) {
			ends := []string{"stop", "abort", "peerclose", "drop"}
			if client {
				ends = []string{"stop", "peerclose", "drop"}
			}
			s.End, s.EndC, s.EndAt = ends[r.IntN(len(ends))], r.IntN(n), eng.Pick(r, 0, r.N(0, 20), r.Heavy(2000))
		}
		for !s.valid("pipe", "net", "ws", "sse") { // too much
			for i := range s.Senders {
				if s.Senders[i].Sz > 30 {
					s.Senders[i].Sz /= 2
				} else {
					s.Senders[i].N /= 2
				}
			}
			for i := range s.Peers {
				if s.Peers[i].Cap > 0 {
					s.Peers[i].Cap *= 2
				}
			}
		}
		return s
	}
}

func init() {
	eng.Register(&eng.Check{
		ID:   "C23",
		Rule: "a case is non-trivial when messages of different senders alternate on a connection at least four times",
		Families: []eng.Family{
			eng.Fam("server", 2500, 40000, gen23(false), run23),
			eng.Fam("client", 2500, 40000, gen23(true), runCl23),
		},
	})
}
