package checks

import (
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// m02 is one message of a sequence. Kinds:
// server: echo, send, unknown, badargs, ping, cancel, stream, up, item, fin, upbad
// client: callback, unknown, ping, result, err, void, item, fin
type m02 struct {
	K     string
	S     string `json:",omitempty"` // payload
	N     int    // stream index
	Style uint64 `json:",omitempty"`
}

type sc02 struct {
	Proto string
	Msgs  []m02
	Cuts  []int  // sizes of the chunks; what is left over is one chunk
	Zero  uint64 `json:",omitempty"` // reads which return (0, nil) first
	Last  int    `json:",omitempty"` // the last read returns data together with: 1 io.EOF, 2 another error
	RW    bool   `json:",omitempty"` // the connection uses ReadWriteWithContext
	Bad   string `json:",omitempty"` // raw bytes (JSON) or hex appended as undecodable message
}

func genCuts(r *eng.R, total int) []int {
	var cuts []int
	switch r.IntN(6) {
	case 0: // all at once
	case 1: // single bytes
		n := min(total, 400)
		for i := 0; i < n; i++ {
			cuts = append(cuts, 1)
		}
	case 2: // tiny
		for s := 0; s < total && len(cuts) < 400; {
			c := r.N(1, 7)
			cuts = append(cuts, c)
			s += c
		}
	default:
		for s := 0; s < total && len(cuts) < 100; {
			c := 1 + r.Heavy(total)
			cuts = append(cuts, c)
			s += c
		}
	}
	return cuts
}

func str02(r *eng.R) string {
	if r.P(0.08) {
		return strings.Repeat(string(rune('a'+r.IntN(26))), eng.Pick(r, 127, 128, 129, 255, 256, 16383, 16384, 20000, 32760, 32767, 32768, 32769, 40000, 70000))
	}
	return GenString(r, 300)
}

func gen02(server bool) func(r *eng.R) sc02 {
	return func(r *eng.R) sc02 {
		s := sc02{Proto: protos[r.IntN(2)]}
		n := r.N(1, 12)
		streams := 0
		open := []int{}
		pend := []int{}
		for i := 0; i < n; i++ {
			m := m02{}
			if r.P(0.5) {
				m.Style = r.Uint64() | 1
			}
			if server {
				m.K = eng.Pick(r, "echo", "echo", "send", "unknown", "badargs", "ping", "cancel", "stream", "up", "item", "item", "item", "fin")
			} else {
				m.K = eng.Pick(r, "callback", "callback", "unknown", "ping", "invoke", "pull", "result", "err", "void", "item", "item", "item", "fin")
			}
			switch m.K {
			case "echo", "send", "callback", "badargs", "unknown":
				m.S = str02(r)
			case "stream":
				m.N = r.IntN(6)
			case "up":
				m.N = streams
				open = append(open, streams)
				streams++
			case "invoke":
				m.N = streams
				pend = append(pend, streams)
				streams++
			case "pull":
				m.N = streams
				open = append(open, streams)
				streams++
			case "item":
				if len(open) == 0 {
					i--
					if r.P(0.3) {
						n--
					}
					continue
				}
				m.N, m.S = open[r.IntN(len(open))], str02(r)
			case "fin":
				if len(open) == 0 {
					continue
				}
				k := r.IntN(len(open))
				m.N = open[k]
				open = append(open[:k], open[k+1:]...)
			case "result", "err", "void":
				if len(pend) == 0 {
					continue
				}
				k := r.IntN(len(pend))
				m.N, m.S = pend[k], "x"+str02(r)
				pend = append(pend[:k], pend[k+1:]...)
			}
			s.Msgs = append(s.Msgs, m)
		}
		if r.P(0.15) {
			if s.Proto == "json" {
				s.Bad = eng.Pick(r, "{", "nonsense", `{"type":99}`, `{"type":"x"}`, `[]`, `{"type":1,"target":5}`, `{"nothing":1}`, `{}`, `{"type":2,"invocationId":"none","item":1}`)
			} else {
				s.Bad = eng.Pick(r, "\x93", "\xa1a", "\x91\x63", "\x92\x63\x80", "\x94\x02\x80\xa4none\x01", "\xc0", "\x93\x01\x80\x01")
			}
		}
		total := 60
		for _, m := range s.Msgs {
			total += 60 + len(m.S)
		}
		s.Cuts = genCuts(r, total)
		if s.Bad == "" {
			s.Last = r.Weighted(8, 1, 1)
			s.RW = r.P(0.2)
		}
		if r.P(0.25) {
			s.Zero = r.Uint64() | r.Uint64()
		}
		return s
	}
}

// encode02 returns the encoded message for the server
func encode02(proto string, i int, m m02, seed uint64) ([]byte, bool) {
	st := Style{seed}
	id := fmt.Sprintf("i%d", i)
	sid := fmt.Sprintf("s%d", m.N)
	switch m.K {
	case "echo":
		return Encode(proto, Msg{Type: 1, ID: id, Target: "EchoString", Args: []any{m.S}}, st), true
	case "send":
		return Encode(proto, Msg{Type: 1, Target: "EchoString", Args: []any{m.S}}, st), true
	case "unknown":
		return Encode(proto, Msg{Type: 1, ID: id, Target: "No" + m.S, Args: []any{}}, st), true
	case "badargs":
		return Encode(proto, Msg{Type: 1, ID: id, Target: "EchoInt", Args: []any{m.S}}, st), true
	case "ping":
		return Encode(proto, Msg{Type: 6}, st), true
	case "cancel":
		return Encode(proto, Msg{Type: 5, ID: "nothing"}, st), true
	case "stream":
		l := []any{}
		for k := 0; k < m.N; k++ {
			l = append(l, k)
		}
		return Encode(proto, Msg{Type: 4, ID: id, Target: "StreamInt", Args: []any{l}}, st), true
	case "up":
		return Encode(proto, Msg{Type: 1, ID: "u" + sid, Target: "UploadString", StreamIDs: []string{sid}}, st), true
	case "item":
		return Encode(proto, Msg{Type: 2, ID: sid, Item: m.S}, st), true
	case "fin":
		return Encode(proto, Msg{Type: 3, ID: sid}, st), true
	}
	return nil, false
}

// zeroReads lets the reads of e return nothing once before they return data, as the bits of pattern tell.
func zeroReads(c *eng.C, e *End, pattern uint64) {
	if pattern == 0 {
		return
	}
	c.Label("reads of zero length")
	n, was := 0, false
	e.SetZeroReads(func() bool {
		if was {
			was = false
			return false
		}
		was = pattern>>(n%64)&1 == 1
		n++
		return was
	})
}

// rw02 is a connection of an application which uses ReadWriteWithContext.
type rw02 struct{ *End }

func (c rw02) Read(p []byte) (int, error) {
	return signalr.ReadWriteWithContext(c.Context(), func() (int, error) { return c.End.Read(p) }, func() {})
}

func (c rw02) Write(p []byte) (int, error) {
	return signalr.ReadWriteWithContext(c.Context(), func() (int, error) { return c.End.Write(p) }, func() {})
}

func conn02(e *End, rw bool) signalr.Connection {
	if rw {
		return rw02{e}
	}
	return e
}

// last02 is the error which comes with the last bytes.
func last02(c *eng.C, s sc02) error {
	switch s.Last {
	case 1:
		c.Label("data and end in one read")
		return io.EOF
	case 2:
		c.Label("data and error in one read")
		return errors.New("connection reset")
	}
	return nil
}

func badFrame(proto, bad string) []byte {
	if proto == "json" {
		return append([]byte(bad), 0x1e)
	}
	return append([]byte{byte(len(bad))}, bad...)
}

// deliver writes the bytes in chunks; after each chunk f is called with the number of bytes delivered.
func deliver(b *B, w *Raw, all []byte, cuts []int, last error, f func(done int) error) error {
	pos := 0
	for k := 0; pos < len(all); k++ {
		n := len(all) - pos
		if k < len(cuts) {
			n = min(n, max(1, cuts[k]))
		}
		if pos+n == len(all) && last != nil {
			w.WriteLast(all[pos:], last)
		} else {
			_, _ = w.Write(all[pos : pos+n])
		}
		b.Wait()
		pos += n
		if err := f(pos); err != nil {
			return eng.Errf("after %d of %d bytes: %v", pos, len(all), err)
		}
	}
	return nil
}

func run02server(c *eng.C, s sc02) error {
	if s.Proto != "json" && s.Proto != "messagepack" || s.Last < 0 || s.Last > 2 || s.Last > 0 && s.Bad != "" {
		return eng.Discard
	}
	return InBubble(c, func(b *B) error {
		rec := &Rec{}
		srv, err := NewServer(b.Ctx, signalr.HubFactory(func() signalr.HubInterface { return &TypeHub{Rec: rec} }), signalr.MaximumReceiveMessageSize(200000), signalr.StreamBufferCapacity(100))
		if err != nil {
			return err
		}
		all := Handshake(s.Proto)
		hs := len(all)
		var ends []int
		// expectations per message
		type exp struct {
			reply map[string][]string // id -> messages
			calls []string
		}
		count := map[int]int{}
		opened := map[int]bool{}
		var exps []exp
		for i, m := range s.Msgs {
			e, ok := encode02(s.Proto, i, m, m.Style)
			if !ok {
				return eng.Discard
			}
			if m.K == "up" && opened[m.N] || (m.K == "item" || m.K == "fin") && !opened[m.N] {
				return eng.Discard
			}
			all = append(all, e...)
			ends = append(ends, len(all))
			id := fmt.Sprintf("i%d", i)
			x := exp{reply: map[string][]string{}}
			switch m.K {
			case "echo":
				x.reply[id] = []string{"3 " + m.S}
				x.calls = []string{"EchoString " + m.S}
			case "send":
				x.calls = []string{"EchoString " + m.S}
			case "unknown", "badargs":
				x.reply[id] = []string{"3 error"}
			case "stream":
				x.calls = []string{"StreamInt"}
				for k := 0; k < m.N; k++ {
					x.reply[id] = append(x.reply[id], fmt.Sprintf("2 %d", k))
				}
				x.reply[id] = append(x.reply[id], "3 <nil>")
			case "up":
				opened[m.N] = true
			case "item":
				x.calls = []string{"UploadString " + m.S}
				count[m.N]++
				if count[m.N] > 90 {
					return eng.Discard
				}
			case "fin":
				x.reply[fmt.Sprintf("us%d", m.N)] = []string{fmt.Sprintf("3 %d", count[m.N])}
				delete(opened, m.N)
				opened[m.N] = false
			}
			exps = append(exps, x)
			c.Label("%s", m.K)
		}
		good := len(all)
		if s.Bad != "" {
			all = append(all, badFrame(s.Proto, s.Bad)...)
			c.Label("undecodable message")
		}
		cutIn, joined := 0, 0
		srvEnd, cli := NewPipe(b.Ctx, "c1", "peer")
		zeroReads(c, srvEnd, s.Zero)
		sv := Serve(srv, conn02(srvEnd, s.RW))
		raw := &Raw{End: cli, Proto: s.Proto}
		b.Cleanup(func() { cli.CloseWith(nil) })
		last := 0
		return deliver(b, raw, all, s.Cuts, last02(c, s), func(done int) error {
			if last < hs && done > hs && done != hs {
				c.Label("handshake shares a read")
				c.NonTrivial()
			}
			k := 0
			for k < len(ends) && ends[k] <= done {
				k++
			}
			if k > 0 && ends[k-1] != done {
				cutIn++
			}
			if k > 1 && ends[k-2] > last {
				joined++
			}
			if cutIn > 0 || joined > 0 {
				c.NonTrivial()
			}
			last = done
			// expected so far
			var calls []string
			replies := map[string][]string{}
			for _, x := range exps[:k] {
				calls = append(calls, x.calls...)
				for id, l := range x.reply {
					replies[id] = append(replies[id], l...)
				}
			}
			gotCalls := recStrings(rec)
			sort.Strings(calls)
			if !equalStrings(calls, gotCalls) {
				return eng.Errf("%s: messages %s arrived, called were %s instead of %s", s.Proto, clip(s.Msgs[:k]), clip(gotCalls), clip(calls))
			}
			if done > good {
				// only the undecodable message can be in the rest
				if done == len(all) && !sv.Ended() {
					return eng.Errf("%s: connection goes on after the undecodable message %q", s.Proto, s.Bad)
				}
				if done == len(all) {
					return nil
				}
			}
			if s.Last > 0 && done == len(all) {
				if !sv.Ended() {
					return eng.Errf("%s: Serve does not return although the connection ended", s.Proto)
				}
				return nil // the answers might not be sent any more
			}
			msgs, err := raw.Messages()
			if err != nil {
				return err
			}
			got := map[string][]string{}
			for _, m := range msgs {
				switch {
				case m.Type == 6:
				case m.Type == 3 && m.HasError:
					got[m.ID] = append(got[m.ID], "3 error")
				case m.Type == 3:
					got[m.ID] = append(got[m.ID], fmt.Sprintf("3 %v", m.Result))
				case m.Type == 2:
					got[m.ID] = append(got[m.ID], fmt.Sprintf("2 %v", m.Item))
				default:
					return eng.Errf("%s: server sent %v", s.Proto, m)
				}
			}
			for id := range got {
				if !equalStrings(got[id], replies[id]) {
					return eng.Errf("%s: messages %s arrived, reply to %s is %s instead of %s", s.Proto, clip(s.Msgs[:k]), id, clip(got[id]), clip(replies[id]))
				}
			}
			for id := range replies {
				if !equalStrings(got[id], replies[id]) {
					return eng.Errf("%s: messages %s arrived, reply to %s is %s instead of %s", s.Proto, clip(s.Msgs[:k]), id, clip(got[id]), clip(replies[id]))
				}
			}
			return nil
		})
	})
}

func recStrings(rec *Rec) []string {
	var l []string
	for _, c := range rec.Calls() {
		if strings.HasPrefix(c.Method, "Stream") {
			l = append(l, c.Method)
		} else {
			l = append(l, fmt.Sprintf("%s %v", c.Method, c.Args[0]))
		}
	}
	sort.Strings(l)
	return l
}

func equalStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// run02client delivers callbacks, results and stream items to a client. Calls are made before everything.
func run02client(c *eng.C, s sc02) error {
	if s.Proto != "json" && s.Proto != "messagepack" || s.Last < 0 || s.Last > 2 || s.Last > 0 && s.Bad != "" {
		return eng.Discard
	}
	return InBubble(c, func(b *B) error {
		rec := &Rec{}
		srvEnd, cliEnd := NewPipe(b.Ctx, "c1", "c1")
		raw := &Raw{End: srvEnd, Proto: s.Proto}
		zeroReads(c, cliEnd, s.Zero)
		cl, err := signalr.NewClient(b.Ctx, Quiet(nil), signalr.WithConnection(conn02(cliEnd, s.RW)), signalr.TransferFormat(FormatOf(s.Proto)),
			signalr.MaximumReceiveMessageSize(200000), signalr.WithReceiver(&TypeReceiver{Rec: rec, Name: "c1"}), signalr.StreamBufferCapacity(100))
		if err != nil {
			return err
		}
		b.Cleanup(func() { srvEnd.CloseWith(nil) })
		cl.Start()
		b.Wait()
		// The first chunk may contain what follows the handshake when no call is pending
		hs := []byte("{}\x1e")
		need := false
		for _, m := range s.Msgs {
			need = need || m.K == "invoke" || m.K == "pull"
		}
		all := append([]byte{}, hs...)
		if need {
			_, _ = raw.Write(hs)
			b.Wait()
			_, _ = raw.HandshakeFrame()
			all = nil
		}
		type call struct {
			id  string
			col *Collected[signalr.InvokeResult]
			exp []string
			fin bool
			prs bool
		}
		callsBy := map[int]*call{}
		for _, m := range s.Msgs {
			if m.K != "invoke" && m.K != "pull" {
				continue
			}
			if callsBy[m.N] != nil {
				return eng.Discard
			}
			x := &call{prs: m.K == "pull"}
			if m.K == "invoke" {
				x.col = Collect(cl.Invoke("M", m.N))
			} else {
				x.col = Collect(cl.PullStream("P", m.N))
			}
			b.Wait()
			l, err := raw.New()
			if err != nil || len(l) != 1 {
				return eng.Errf("client sent %v %v", l, err)
			}
			x.id = l[0].ID
			callsBy[m.N] = x
		}
		var ends []int
		type exp struct {
			n    int
			s    string
			fin  bool
			call string
		}
		var exps []exp
		for _, m := range s.Msgs {
			x := exp{n: -1}
			cb := callsBy[m.N]
			st := Style{m.Style}
			var e []byte
			switch m.K {
			case "invoke", "pull":
				continue
			case "callback":
				e = Encode(s.Proto, Msg{Type: 1, Target: "EchoString", Args: []any{m.S}}, st)
				x.call = "EchoString " + m.S
			case "unknown":
				e = Encode(s.Proto, Msg{Type: 1, Target: "Nope", Args: []any{m.S}}, st)
			case "ping":
				e = Encode(s.Proto, Msg{Type: 6}, st)
			case "result", "err", "void", "item", "fin":
				if cb == nil || cb.fin || cb.prs != (m.K == "item" || m.K == "fin") {
					return eng.Discard
				}
				x.n = m.N
				switch m.K {
				case "result":
					e = Encode(s.Proto, Msg{Type: 3, ID: cb.id, Result: m.S, HasResult: true}, st)
					x.s, x.fin = "v "+m.S, true
				case "err":
					e = Encode(s.Proto, Msg{Type: 3, ID: cb.id, Error: m.S}, st)
					x.s, x.fin = "e "+m.S, true
				case "void":
					e = Encode(s.Proto, Msg{Type: 3, ID: cb.id}, st)
					x.fin = true
				case "item":
					e = Encode(s.Proto, Msg{Type: 2, ID: cb.id, Item: m.S}, st)
					x.s = "v " + m.S
				case "fin":
					e = Encode(s.Proto, Msg{Type: 3, ID: cb.id}, st)
					x.fin = true
				}
				cb.fin = x.fin
			default:
				return eng.Discard
			}
			all = append(all, e...)
			ends = append(ends, len(all))
			exps = append(exps, x)
			c.Label("%s", m.K)
		}
		good := len(all)
		if s.Bad != "" && s.Bad != `{}` { // the client could not tell
			all = append(all, badFrame(s.Proto, s.Bad)...)
			c.Label("undecodable message")
		}
		last := 0
		return deliver(b, raw, all, s.Cuts, last02(c, s), func(done int) error {
			if !need && last < len(hs) && done > len(hs) {
				c.Label("handshake shares a read")
				c.NonTrivial()
			}
			k := 0
			for k < len(ends) && ends[k] <= done {
				k++
			}
			if k > 0 && ends[k-1] != done || k > 1 && ends[k-2] > last {
				c.NonTrivial()
			}
			last = done
			var calls []string
			want := map[int][]string{}
			closed := map[int]bool{}
			for _, x := range exps[:k] {
				if x.call != "" {
					calls = append(calls, x.call)
				}
				if x.n >= 0 {
					if x.s != "" {
						want[x.n] = append(want[x.n], x.s)
					}
					closed[x.n] = x.fin
				}
			}
			sort.Strings(calls)
			if g := recStrings(rec); !equalStrings(calls, g) {
				return eng.Errf("%s: called were %s instead of %s", s.Proto, clip(g), clip(calls))
			}
			for n, x := range callsBy {
				got, cls := x.col.Get()
				var l []string
				for _, ir := range got {
					if ir.Error != nil {
						l = append(l, "e "+ir.Error.Error())
					} else {
						l = append(l, fmt.Sprintf("v %v", ir.Value))
					}
				}
				if done > good || s.Last > 0 && done == len(all) {
					// the end of the connection adds an error to what is pending
					l = l[:min(len(l), len(want[n]))]
					cls = closed[n]
				}
				if !equalStrings(l, want[n]) || cls != closed[n] {
					return eng.Errf("%s: call %d (%v) yields %s closed %v instead of %s closed %v", s.Proto, n, x.id, clip(l), cls, clip(want[n]), closed[n])
				}
			}
			if done == len(all) && (len(all) > good || s.Last > 0) {
				if st := cl.State(); st != signalr.ClientClosed {
					return eng.Errf("%s: client is in state %v after the undecodable message %q", s.Proto, st, s.Bad)
				}
			}
			return nil
		})
	})
}

func init() {
	eng.Register(&eng.Check{
		ID:   "C02",
		Rule: "a case is non-trivial when at least one message is cut over two reads, or two messages (or handshake and message) share a read",
		Families: []eng.Family{
			eng.Fam("to-server", 4000, 60000, gen02(true), run02server),
			eng.Fam("to-client", 3000, 40000, gen02(false), run02client),
		},
	})
}
