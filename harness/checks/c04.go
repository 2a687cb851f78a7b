package checks

import (
	"fmt"
	"strings"
	"time"

	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// Messages of exactly chosen sizes, around the maximum, in batches and pieces.

type m04 struct {
	K    string // inv, item, result, handshake padding is not a message
	Size int    // encoded size without delimiter or length prefix
	Pad  int    // where the padding is: 0 argument, 1 unused id, 2 white space (JSON)
}

type sc04 struct {
	Role, Proto string
	Max         int
	Msgs        []m04
	Over        int    // size of a message which is too large, at the end, 0: none
	Sent        int    // so many bytes of it (with prefix) are sent, 0: all
	OverPad     int    `json:",omitempty"`
	Endless     bool   `json:",omitempty"` // Over is sent in pieces, again and again, without ever ending
	After       int    `json:",omitempty"` // messages behind the one which is too large
	Cuts        []int  `json:",omitempty"`
	Join        bool   `json:",omitempty"`
	Style       uint64 `json:",omitempty"`
}

type hub04 struct {
	signalr.Hub
	rec *Rec
}

func (h *hub04) Got(n int, s string) { h.rec.Add("Got", "", n, len(s)) }
func (h *hub04) Up(c <-chan string) {
	for s := range c {
		h.rec.Add("Up", "", len(s))
	}
}

type rcv04 struct {
	signalr.Receiver
	rec *Rec
}

func (h *rcv04) Got(n int, s string) { h.rec.Add("Got", "", n, len(s)) }

// sized returns the encoded message with exactly the given size (without delimiter or prefix)
func sized(proto string, size int, mk func(pad string, id string) Msg, pad int) (frame []byte, strLen int, ok bool) {
	body := func(p, id string, ws int) []byte {
		f := Encode(proto, mk(p, id), Style{})
		if proto == "json" {
			f = f[:len(f)-1]
			return append(f, strings.Repeat(" ", ws)...)
		}
		_, n := uvarint(f)
		return f[n:]
	}
	base := len(body("", "", 0))
	n := size - base
	if n < 0 {
		return nil, 0, false
	}
	var f []byte
	switch {
	case pad == 2 && proto == "json":
		f = body("", "", n)
	case pad == 1:
		for k := 0; k < 6; k++ { // prefixes of strings grow
			f = body("", strings.Repeat("i", max(0, n-k)), 0)
			if len(f) == size {
				break
			}
		}
	default:
		for k := 0; k < 6; k++ {
			strLen = max(0, n-k)
			f = body(strings.Repeat("p", strLen), "", 0)
			if len(f) == size {
				break
			}
		}
	}
	if len(f) != size {
		return nil, 0, false
	}
	if proto == "json" {
		return append(f, 0x1e), strLen, true
	}
	return append(putUvarint(len(f)), f...), strLen, true
}

func putUvarint(n int) (b []byte) {
	for n >= 0x80 {
		b = append(b, byte(n)|0x80)
		n >>= 7
	}
	return append(b, byte(n))
}

func uvarint(b []byte) (v, n int) {
	for s := 0; n < len(b); s += 7 {
		v |= int(b[n]&0x7f) << s
		n++
		if b[n-1] < 0x80 {
			break
		}
	}
	return
}

func run04(c *eng.C, s sc04) error {
	if s.Proto != "json" && s.Proto != "messagepack" || s.Role != "server" && s.Role != "client" || s.Max < 100 || s.Max > 1<<20 || s.Over != 0 && s.Over <= s.Max || s.Sent < 0 || len(s.Msgs) > 2000 || s.After > 20 {
		return eng.Discard
	}
	err, _ := Bubble(c, func(b *B) error {
		rec := &Rec{}
		var p *Raw
		var ended func() bool
		opts := []func(signalr.Party) error{Quiet(nil), signalr.MaximumReceiveMessageSize(uint(s.Max))}
		var head []byte
		var want []string
		up := false
		var pull *Collected[signalr.InvokeResult]
		if s.Role == "server" {
			srv, err := signalr.NewServer(b.Ctx, append(opts, signalr.HubFactory(func() signalr.HubInterface { return &hub04{rec: rec} }))...)
			if err != nil {
				return err
			}
			own, peer := NewPipe(b.Ctx, "c0", "c0")
			sv := Serve(srv, own)
			p = &Raw{End: peer, Proto: s.Proto}
			ended = sv.Ended
			b.Cleanup(func() { peer.CloseWith(nil) })
			head = Handshake(s.Proto)
		} else {
			own, peer := NewPipe(b.Ctx, "c0", "c0")
			p = &Raw{End: peer, Proto: s.Proto}
			cl, err := signalr.NewClient(b.Ctx, append(opts, signalr.WithConnection(own), signalr.WithReceiver(&rcv04{rec: rec}), signalr.TransferFormat(FormatOf(s.Proto)))...)
			if err != nil {
				return err
			}
			cl.Start()
			pull = Collect(cl.PullStream("Pull"))
			ended = func() bool { return cl.State() == signalr.ClientClosed }
			b.Cleanup(func() { peer.CloseWith(nil) })
			head = []byte("{}\x1e")
		}
		if !s.Join {
			_, _ = p.Write(head)
			head = nil
			b.Wait()
		}
		pullID := ""
		if s.Role == "client" && !s.Join {
			_, _ = p.HandshakeFrame()
			l, err := p.New()
			if err != nil || len(l) != 1 || l[0].ID == "" {
				return eng.Errf("harness: client sent %v %v", l, err)
			}
			pullID = l[0].ID
		}
		all := head
		ends := map[int]int{} // number of messages -> byte where the last one ends
		pulled := 0
		for i, m := range s.Msgs {
			var mk func(pad, id string) Msg
			switch {
			case m.K == "item" && s.Role == "server" && m.Pad != 1:
				if !up {
					f := Encode(s.Proto, Msg{Type: 1, Target: "Up", Args: []any{}, StreamIDs: []string{"s"}}, Style{})
					if len(f) > s.Max {
						return eng.Discard
					}
					all = append(all, f...)
					up = true
				}
				mk = func(pad, _ string) Msg { return Msg{Type: 2, ID: "s", Item: pad} }
			case m.K == "item" && s.Role == "client" && !s.Join && m.Pad != 1:
				mk = func(pad, _ string) Msg { return Msg{Type: 2, ID: pullID, Item: pad} }
			default:
				m.K = "inv"
				mk = func(pad, id string) Msg {
					x := Msg{Type: 1, Target: "Got", Args: []any{i, pad}}
					if m.Pad == 1 {
						x.ID, x.HasID = "i"+id, true
					}
					return x
				}
			}
			if m.Size > s.Max {
				return eng.Discard
			}
			f, n, ok := sized(s.Proto, m.Size, mk, m.Pad)
			if !ok {
				continue
			}
			all = append(all, f...)
			switch {
			case m.K == "inv":
				want = append(want, fmt.Sprintf("Got [%d %d]", i, n))
			case s.Role == "server":
				want = append(want, fmt.Sprintf("Up [%d]", n))
			default:
				pulled++
			}
			ends[len(want)+pulled] = len(all)
			if m.Size == s.Max {
				c.Label("maximal message")
			}
			if m.Size > s.Max-10 {
				c.NonTrivial()
			}
		}
		total := len(want) + pulled
		okLen := len(all)
		if s.Over > 0 {
			f, _, ok := sized(s.Proto, s.Over, func(pad, id string) Msg {
				x := Msg{Type: 1, Target: "Got", Args: []any{9999, pad}}
				if s.OverPad == 1 {
					x.ID, x.HasID = "i"+id, true
				}
				return x
			}, s.OverPad)
			if !ok {
				return eng.Discard
			}
			if s.Sent > 0 && s.Sent < len(f) {
				// There have to be more bytes than allowed
				if s.Sent < s.Max+6 {
					return eng.Discard
				}
				f = f[:s.Sent]
			} else if !s.Endless {
				for k := 0; k < s.After; k++ {
					f = append(f, Encode(s.Proto, Msg{Type: 1, Target: "Got", Args: []any{8888, "after"}}, Style{})...)
				}
			}
			all = append(all, f...)
			c.NonTrivial()
			c.Label("too large by %s", map[bool]string{true: "1", false: "more"}[s.Over == s.Max+1])
		}
		// handled looks at what was handled
		handled := func() error {
			var got []string
			for _, x := range rec.Calls() {
				got = append(got, fmt.Sprintf("%s %v", x.Method, x.Args))
			}
			// streams and invocations are concurrent, and so are the methods of invocations
			if err := sameSet(got, want); err != nil {
				return err
			}
			if pull != nil {
				l, _ := pull.Get()
				n := 0
				for _, x := range l {
					if x.Error == nil {
						n++
					}
				}
				if n != pulled {
					return eng.Errf("%d of %d stream items received", n, pulled)
				}
			}
			return nil
		}
		err := deliver(b, p, all, s.Cuts, nil, func(done int) error {
			if done <= okLen && ended() {
				return eng.Errf("connection ended although no message was too large (%d messages, max %d)", total, s.Max)
			}
			return nil
		})
		if err != nil {
			return err
		}
		if s.Over > 0 && s.Endless && s.Sent > 0 && s.Proto == "json" {
			// It never ends. The party must not read it for ever
			for k := 0; k < 30; k++ {
				_, _ = p.Write([]byte(strings.Repeat("x", s.Max)))
				b.Wait()
			}
			if n := len(p.Sent()) - p.Pending(); n > okLen+4*s.Max+(1<<18) {
				return eng.Errf("%d bytes of a message were read, the maximum is %d", n-okLen, s.Max)
			}
			c.Label("endless message")
		}
		b.Wait()
		if err := handled(); err != nil {
			return err
		}
		if s.Over == 0 {
			if ended() {
				return eng.Errf("connection ended although no message was too large (%d messages, max %d)", total, s.Max)
			}
			// and it works still
			f := Encode(s.Proto, Msg{Type: 1, Target: "Got", Args: []any{7777, "x"}}, Style{})
			_, _ = p.Write(f)
			want = append(want, "Got [7777 1]")
			b.Wait()
			return handled()
		}
		b.Sleep(time.Second)
		if !ended() {
			return eng.Errf("connection goes on after %d bytes of a message with size %d, the maximum is %d", len(all)-okLen, s.Over, s.Max)
		}
		if err := handled(); err != nil {
			return eng.Errf("after the message which is too large: %v", err)
		}
		return nil
	})
	if err != nil && err != eng.Discard {
		return eng.Errf("%s/%s max %d: %v", s.Role, s.Proto, s.Max, err)
	}
	return err
}

// sameSet compares ignoring the order
func sameSet(got, want []string) error {
	m := map[string]int{}
	for _, x := range want {
		m[x]++
	}
	for _, x := range got {
		m[x]--
		if m[x] < 0 {
			return eng.Errf("unexpected %s (all: %s)", x, clip(got))
		}
	}
	for x, n := range m {
		if n > 0 {
			return eng.Errf("missing %s (%d of %d)", x, len(got), len(want))
		}
	}
	return nil
}

func gen04(r *eng.R) sc04 {
	s := sc04{Role: eng.Pick(r, "server", "client"), Proto: protos[r.IntN(2)], Join: r.P(0.2)}
	s.Max = eng.Pick(r, 100, 127, 128, 129, 200, 255, 256, 257, 1000, 4095, 4096, 16383, 16384, 32767, 32768, 32769, 65536, 100000)
	if r.P(0.4) {
		s.Max = r.N(100, 3000)
	}
	size := func() int {
		switch r.IntN(6) {
		case 0, 1:
			return s.Max
		case 2:
			return s.Max - r.IntN(4)
		case 3:
			return s.Max/2 + r.N(-2, 2)
		default:
			return r.N(20, s.Max)
		}
	}
	n := r.N(0, 8)
	if r.P(0.2) {
		n = r.N(8, max(9, min(200, 400000/s.Max)))
	}
	fixed := 0
	if r.P(0.3) {
		fixed = size()
	}
	for k := 0; k < n; k++ {
		m := m04{K: eng.Pick(r, "inv", "inv", "item"), Size: size(), Pad: r.Weighted(6, 1, 1)}
		if fixed > 0 {
			m.Size = fixed
		}
		s.Msgs = append(s.Msgs, m)
	}
	total := 0
	for _, m := range s.Msgs {
		total += m.Size
	}
	if r.P(0.6) {
		s.Over = s.Max + eng.Pick(r, 1, 1, 2, 3, 10, s.Max, 10*s.Max, 1000)
		s.OverPad = r.Weighted(6, 1, 1)
		if r.P(0.3) {
			s.Over = max(s.Over, s.Max+20)
			s.Sent = r.N(s.Max+6, s.Over)
			s.Endless = r.P(0.5)
		} else {
			s.After = r.IntN(4)
		}
		total += s.Over
	}
	s.Cuts = genCuts(r, total)
	return s
}

func init() {
	eng.Register(&eng.Check{
		ID:   "C04",
		Rule: "a case is non-trivial when there is a message of nearly the maximal size or a message which is too large",
		Families: []eng.Family{
			eng.Fam("sizes", 6000, 80000, gen04, run04),
		},
	})
}
