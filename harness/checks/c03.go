package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// Hostile peers. An attack is a list of writes; some of them have to end the connection.

type at03 struct {
	B    []byte
	Must bool   `json:",omitempty"` // nothing but the end of the connection is right
	Why  string `json:",omitempty"`
}

type sc03 struct {
	Role  string
	Proto string
	NoHS  bool `json:",omitempty"` // attack instead of handshake
	Ops   []at03
	End   int      // how the attacker goes: 0 EOF 1 error 2 stays
	More  [][]at03 `json:",omitempty"` // other attackers at the same time
	Yield uint64
}

type hub03 struct {
	TypeHub
	w *w03
}

type w03 struct {
	b    *B
	tick chan int
	sum  []int
	end  bool
	rec  *Rec
}

func (h *hub03) Tick() <-chan int { return h.w.tick }
func (h *hub03) Sum(ch <-chan int) int {
	n := 0
	for x := range ch {
		h.w.sum = append(h.w.sum, x)
		n += x
	}
	h.w.end = true
	return n
}
func (h *hub03) Count(ch <-chan int) int {
	n := 0
	for range ch {
		n++
	}
	return n
}
func (h *hub03) Two(a <-chan int, s string, c <-chan []string) int {
	n := 0
	for range a {
		n++
	}
	for range c {
		n++
	}
	return n
}
func (h *hub03) Ignore(ch <-chan int) { <-h.w.b.Ctx.Done() }
func (h *hub03) Leave(ch <-chan int)  {}
func (h *hub03) Boom(n int) int       { Panics[abs(n)%len(Panics)](); return 0 }
func (h *hub03) Forever() <-chan int  { return make(chan int) }
func (h *hub03) Group(g string)       { h.Groups().AddToGroup(g, h.ConnectionID()) }
func (h *hub03) Item(k string, v any) { h.Items().Store(k, v) }
func (h *hub03) OnConnected(string)   {}

func abs(n int) int {
	if n < 0 {
		n = -n
	}
	if n < 0 {
		return 0
	}
	return n
}

type rcv03 struct {
	TypeReceiver
	b *B
}

func (h *rcv03) Count(ch <-chan int) int {
	n := 0
	for range ch {
		n++
	}
	return n
}
func (h *rcv03) Ignore(ch <-chan int) { <-h.b.Ctx.Done() }
func (h *rcv03) Leave(ch <-chan int)  {}
func (h *rcv03) Boom(n int) int       { Panics[abs(n)%len(Panics)](); return 0 }
func (h *rcv03) Forever() <-chan int  { return make(chan int) }

// mustJSON tells if a write contains a frame which can not be a message
func mustJSON(b []byte) bool {
	for {
		i := bytes.IndexByte(b, 0x1e)
		if i < 0 {
			return false
		}
		f := b[:i]
		b = b[i+1:]
		if !json.Valid(f) {
			return true
		}
	}
}

func run03(c *eng.C, s sc03) error {
	if s.Proto != "json" && s.Proto != "messagepack" || s.Role != "server" && s.Role != "client" || len(s.More) > 10 {
		return eng.Discard
	}
	for _, l := range append([][]at03{s.Ops}, s.More...) {
		for _, o := range l {
			if o.Must {
				c.NonTrivial()
			}
			if o.Why != "" {
				c.Label("%s", o.Why)
			}
		}
	}
	err, _ := Bubble(c, func(b *B) error {
		if s.Role == "server" {
			return attackServer(c, b, s)
		}
		return attackClient(c, b, s)
	})
	if err != nil && err != eng.Discard {
		return eng.Errf("%s/%s: %v", s.Role, s.Proto, err)
	}
	return err
}

func attackServer(c *eng.C, b *B, s sc03) error {
	w := &w03{b: b, tick: make(chan int), rec: &Rec{}}
	opts := []func(signalr.Party) error{Quiet(nil), signalr.MaximumReceiveMessageSize(1 << 17), signalr.TimeoutInterval(10000 * time.Hour), signalr.StreamBufferCapacity(3),
		signalr.HubFactory(func() signalr.HubInterface { return &hub03{TypeHub: TypeHub{Rec: &Rec{}}, w: w} })}
	if s.Yield != 0 {
		opts[0] = Quiet(NewYield(s.Yield, 30))
	}
	srv, err := signalr.NewServer(b.Ctx, opts...)
	if err != nil {
		return err
	}
	// The bystander has a running stream, an upload and makes calls
	by, bySv := b.Connect(srv, "bystander", "json")
	by.Send(Msg{Type: 4, ID: "tick", HasID: true, Target: "Tick", Args: []any{}},
		Msg{Type: 1, ID: "sum", HasID: true, Target: "Sum", Args: []any{}, StreamIDs: []string{"up"}})
	b.Wait()
	n := 0
	bystander := func() error {
		n++
		id := fmt.Sprint("echo", n)
		by.Send(Msg{Type: 1, ID: id, HasID: true, Target: "EchoString", Args: []any{id}}, Msg{Type: 2, ID: "up", Item: n})
		select {
		case w.tick <- n:
		default:
			b.Wait()
			select {
			case w.tick <- n:
			default:
				return eng.Errf("nobody takes the items of the bystander's stream any more")
			}
		}
		b.Wait()
		l, err := by.New()
		if err != nil {
			return eng.Errf("bystander: %v", err)
		}
		ok := len(l) == 2
		for _, m := range l {
			switch {
			case m.Type == 3 && m.ID == id && m.Result == id:
			case m.Type == 2 && m.ID == "tick" && fmt.Sprint(m.Item) == fmt.Sprint(n):
			default:
				ok = false
			}
		}
		if !ok || len(w.sum) != n || w.sum[n-1] != n || w.end || bySv.Ended() {
			return eng.Errf("bystander is disturbed: step %d gets %v, its upload received %d items (closed %v), ended %v", n, l, len(w.sum), w.end, bySv.Ended())
		}
		return nil
	}
	if err := bystander(); err != nil {
		return eng.Errf("before the attack: %v", err)
	}
	type attacker struct {
		r     *Raw
		sv    *Served
		ops   []at03
		items int
	}
	var as []*attacker
	for i, ops := range append([][]at03{s.Ops}, s.More...) {
		own, peer := NewPipe(b.Ctx, fmt.Sprint("a", i), "peer")
		a := &attacker{r: &Raw{End: peer, Proto: s.Proto}, sv: Serve(srv, own), ops: ops}
		b.Cleanup(func() { peer.CloseWith(nil) })
		if !s.NoHS {
			_, _ = peer.Write(Handshake(s.Proto))
		}
		as = append(as, a)
	}
	b.Wait()
	for k := 0; ; k++ {
		some := false
		for i, a := range as {
			if k >= len(a.ops) {
				continue
			}
			some = true
			o := a.ops[k]
			ended := a.sv.Ended()
			_, _ = a.r.Write(o.B)
			a.items += len(o.B)/4 + 1
			b.Wait()
			if o.Must && !ended {
				// Items before might have to wait for methods which do not receive them
				for t := 0; t < a.items && !a.sv.Ended(); t++ {
					b.Sleep(5001 * time.Millisecond)
				}
				if !a.sv.Ended() {
					return eng.Errf("attacker %d: connection goes on after %s %q", i, o.Why, clipBytes(o.B))
				}
			}
			if err := bystander(); err != nil {
				return eng.Errf("attacker %d: after %s %q: %v", i, o.Why, clipBytes(o.B), err)
			}
		}
		if !some {
			break
		}
	}
	for i, a := range as {
		switch s.End {
		case 0:
			a.r.CloseWith(io.EOF)
		case 1:
			a.r.CloseWith(io.ErrUnexpectedEOF)
		default:
			continue
		}
		for t := 0; t < a.items+10 && !a.sv.Ended(); t++ {
			b.Sleep(5001 * time.Millisecond)
		}
		if !a.sv.Ended() {
			return eng.Errf("attacker %d: Serve does not return after the connection was closed", i)
		}
	}
	if err := bystander(); err != nil {
		return eng.Errf("at the end: %v", err)
	}
	// A new connection is served
	r, _ := b.Connect(srv, "new", s.Proto)
	r.Send(Msg{Type: 1, ID: "x", HasID: true, Target: "EchoString", Args: []any{"new"}})
	b.Wait()
	if l, err := r.New(); err != nil || len(l) != 1 || l[0].Result != "new" {
		return eng.Errf("new connection after the attack gets %v %v", l, err)
	}
	return nil
}

func clipBytes(b []byte) []byte {
	if len(b) > 200 {
		return append(append([]byte{}, b[:200]...), "…"...)
	}
	return b
}

func attackClient(c *eng.C, b *B, s sc03) error {
	opts := []func(signalr.Party) error{Quiet(nil), signalr.MaximumReceiveMessageSize(1 << 17), signalr.TimeoutInterval(10000 * time.Hour), signalr.StreamBufferCapacity(3),
		signalr.WithReceiver(&rcv03{TypeReceiver: TypeReceiver{Rec: &Rec{}}, b: b}), signalr.TransferFormat(FormatOf(s.Proto))}
	own, peer := NewPipe(b.Ctx, "c", "c")
	b.Cleanup(func() { peer.CloseWith(nil) })
	cl, err := signalr.NewClient(b.Ctx, append(opts, signalr.WithConnection(own))...)
	if err != nil {
		return err
	}
	cl.Start()
	r := &Raw{End: peer, Proto: s.Proto}
	b.Wait()
	if !s.NoHS {
		_, _ = peer.Write([]byte("{}\x1e"))
		b.Wait()
	}
	up := make(chan int)
	cols := []*Collected[signalr.InvokeResult]{Collect(cl.Invoke("A", 1)), Collect(cl.PullStream("B")), Collect(cl.PushStreams("C", up, 1))}
	errs := Collect(cl.Send("D"))
	b.Wait()
	items := 0
	ended := func() bool { return cl.State() == signalr.ClientClosed }
	for _, o := range s.Ops {
		e := ended()
		_, _ = peer.Write(o.B)
		b.Wait()
		items += len(o.B)/4 + 1
		if o.Must && !e {
			for t := 0; t < items && !ended(); t++ {
				b.Sleep(5001 * time.Millisecond)
			}
			if !ended() {
				return eng.Errf("connection goes on after %s %q", o.Why, clipBytes(o.B))
			}
		}
	}
	_ = r
	if s.End == 2 && !ended() {
		return nil
	}
	peer.CloseWith(io.EOF)
	for t := 0; t < items+10 && !ended(); t++ {
		b.Sleep(5001 * time.Millisecond)
	}
	if !ended() {
		return eng.Errf("client is in state %d after the connection was closed", cl.State())
	}
	b.Wait()
	for i, x := range cols {
		if l, closed := x.Get(); !closed {
			return eng.Errf("call %d does not end: %v", i, l)
		}
	}
	if l, closed := errs.Get(); !closed {
		return eng.Errf("Send does not end: %v", l)
	}
	return nil
}

var ids03 = []string{"", "1", "2", "3", "4", "s1", "s2", "tick", "up", "sum", "unknown", "-1", "ä", strings.Repeat("i", 5000), "\x00"}

var targets03 = []string{"Count", "Two", "Ignore", "Leave", "Boom", "Forever", "Tick2", "EchoInt", "EchoString", "EchoDeep", "EchoAny", "EchoMapSD", "EchoTime", "EchoPInner", "UploadInt",
	"UploadDeep", "StreamInt", "StreamDeep", "StreamAnys", "Multi", "Many", "Nothing", "OnConnected", "OnDisconnected", "Initialize", "ConnectionID", "Context", "Clients", "Groups", "Items",
	"Logger", "", "\x00", "unknown", strings.Repeat("T", 3000), "Group", "Item", "count", "COUNT", "Hub", "Abort"}

func weird03(r *eng.R) any {
	switch r.IntN(14) {
	case 0:
		return nil
	case 1:
		return r.IntN(2) == 0
	case 2:
		return int64(r.IntN(100))
	case 3:
		return eng.Pick[any](r, int64(-1<<63), int64(1<<62), uint64(1<<63), 1e308, -0.5, 5e-324, int64(-1), int64(256), int64(1<<32))
	case 4, 5:
		return GenString(r, 50)
	case 6:
		return []any{}
	case 7:
		return map[string]any{}
	case 8:
		var v any = int64(1)
		for k := r.Heavy(3000); k > 0; k-- {
			v = []any{v}
		}
		return v
	case 9:
		var v any = "x"
		for k := r.IntN(50); k > 0; k-- {
			v = map[string]any{"A": v, "a": v}
			if k > 8 {
				v = map[string]any{"a": v}
				k -= 5
			}
			if k > 3 {
				break
			}
		}
		return v
	case 10:
		l := make([]any, r.IntN(30))
		for i := range l {
			l[i] = int64(i)
		}
		return l
	case 11:
		l := make([]any, r.IntN(6))
		for i := range l {
			l[i] = weird03(r)
		}
		return l
	case 12:
		return []byte(GenString(r, 20))
	default:
		return map[string]any{"A": weird03(r), "b": int64(1), "List": []any{nil}}
	}
}

func msg03(r *eng.R, proto string) Msg {
	m := Msg{Type: eng.Pick(r, 1, 1, 1, 1, 4, 2, 2, 3, 5, 6)}
	m.ID = ids03[r.IntN(len(ids03))]
	m.HasID = m.ID != "" || r.P(0.3)
	m.Target = targets03[r.IntN(len(targets03))]
	for k := r.Weighted(2, 5, 2, 1, 1); k > 0; k-- {
		m.Args = append(m.Args, weird03(r))
	}
	if m.Args == nil {
		m.Args = []any{}
	}
	if r.P(0.4) {
		for k := r.N(1, 3); k > 0; k-- {
			m.StreamIDs = append(m.StreamIDs, ids03[r.IntN(len(ids03))])
		}
		if r.P(0.05) {
			for k := r.Heavy(300); k > 0; k-- {
				m.StreamIDs = append(m.StreamIDs, fmt.Sprint("many", k))
			}
		}
	}
	m.Item = weird03(r)
	if r.P(0.4) {
		m.Result, m.HasResult = weird03(r), true
	} else if r.P(0.3) {
		m.Error, m.HasError = GenString(r, 20), true
	}
	if proto == "json" {
		m.Item, m.Result = noBytes(m.Item), noBytes(m.Result)
		for i := range m.Args {
			m.Args[i] = noBytes(m.Args[i])
		}
	}
	return m
}

func noBytes(v any) any {
	switch x := v.(type) {
	case []byte:
		return string(x)
	case []any:
		for i := range x {
			x[i] = noBytes(x[i])
		}
	case map[string]any:
		for k := range x {
			x[k] = noBytes(x[k])
		}
	}
	return v
}

var texts03 = []string{
	`{}`, `[]`, `null`, `1`, `"x"`, `true`, `{"type":null}`, `{"type":"1"}`, `{"type":1.5}`, `{"type":1e3}`, `{"Type":1,"Target":"EchoInt","Arguments":[1]}`,
	`{"type":1}`, `{"type":1,"target":5}`, `{"type":1,"target":null,"arguments":null}`, `{"type":1,"target":"EchoInt","arguments":{}}`, `{"type":1,"target":"EchoInt","arguments":5,"invocationId":"1"}`,
	`{"type":1,"target":"EchoInt","invocationId":1,"arguments":[1]}`, `{"type":1,"target":"Count","streamIds":[1,2],"arguments":[]}`, `{"type":1,"target":"Count","streamIds":"s1"}`,
	`{"type":1,"target":"Count","streamIds":[null],"arguments":[]}`, `{"type":1,"target":"EchoInt","arguments":[1e999],"invocationId":"1"}`, `{"type":2}`, `{"type":2,"invocationId":null,"item":1}`,
	`{"type":2,"invocationId":{},"item":1}`, `{"type":3}`, `{"type":3,"invocationId":"1","result":1,"error":"both"}`, `{"type":3,"invocationId":"1","error":5}`, `{"type":4}`, `{"type":4,"target":"Tick"}`,
	`{"type":5}`, `{"type":5,"invocationId":5}`, `{"type":6,"x":1}`, `{"type":7,"error":5}`, `{"type":7,"allowReconnect":"yes"}`, `{"type":1,"type":6}`, `{"type":1,"target":"EchoAny","arguments":[{"a":1,"a":2}]}`,
	`{"protocol":"json","version":1}`, `{"error":"x"}`, ``, ` `, "\n", "\xff", `{"type":1,"target":"EchoString","arguments":["` + "\xff\xfe" + `"]}`, `{"type":1,"target":"EchoString","arguments":["\ud800"]}`,
	`{"type":1,"target":"EchoString","arguments":["a` + "\x00" + `"]}`, `{"type":18446744073709551616}`, `{"type":-1}`, `{"type":1,"headers":5,"target":"Nothing","arguments":[]}`,
	strings.Repeat("[", 20000), strings.Repeat(`{"a":`, 15000), strings.Repeat("[", 9000) + strings.Repeat("]", 9000), `{"type":1,"target":"EchoAny","arguments":[` + strings.Repeat("[", 9990) + strings.Repeat("]", 9990) + `]}`,
}

var packs03 = []string{
	"\x90", "\x91", "\x91\x06", "\x91\x01", "\x92\x01\x80", "\x93\x01\x80\xc0", "\x95\x01\x80\xc0\xc0\x90", "\x95\x01\x80\xc0\xa1x\xc0", "\x95\x01\x80\xc0\xa1x\x90", "\x96\x01\x80\xc0\xa1x\x90\xc0", "\x96\x01\x80\xc0\xa5Count\x90\x91\x01",
	"\x96\x01\x80\xc0\xa5Count\x90\xdd\xff\xff\xff\xff", "\x95\x01\x80\xc0\xa7EchoInt\xdd\xff\xff\xff\xff", "\xdc\xff\xff\x01", "\xdd\xff\xff\xff\xff\x01\x80", "\xdf\xff\xff\xff\xff", "\x80", "\xc0", "\xc1", "\xa1x", "\x01", "\xff",
	"\x95\x01\xdf\xff\xff\xff\xff", "\x95\x01\xc1", "\x95\x01\x81\xc1\xc1\xc0\xa1x\x90", "\x95\x01\x81\x90\x01\xc0\xa1x\x90", "\x95\x01\x81\x81\x01\x02\x01\xc0\xa1x\x90", "\x95\x01\x81\xc4\x01a\x01\xc0\xa1x\x90", "\x95\x01\x80\xc0\xdb\xff\xff\xff\xff", "\x95\x01\x80\xc0\xc6\xff\xff\xff\xff",
	"\x95\xcb\x3f\xf0\x00\x00\x00\x00\x00\x00\x80\xc0\xa1x\x90", "\x95\xa11\x80\xc0\xa1x\x90", "\x95\xc0\x80\xc0\xa1x\x90", "\x94\x02\x80\xc0\x01", "\x94\x02\x80\xa1x\xc1", "\x94\x03\x80\xa11\x02", "\x94\x03\x80\xa11\x04", "\x94\x03\x80\xa11\x01", "\x95\x03\x80\xa11\x01\x05", "\x95\x03\x80\xa11\x03\xc1",
	"\x93\x05\x80\xc0", "\x92\x05\x80", "\x91\x07", "\x92\x07\xc0", "\x92\x07\x05", "\x93\x07\xc0\x05", "\x93\x07\xa1x\xc2", "\x92\x63\x80", "\x91\x00", "\x92\xff\x80", "\x92\xcf\xff\xff\xff\xff\xff\xff\xff\xff\x80",
	"\x95\x01\x80\xc0\xa8EchoTime\x91\xd6\xff\xff\xff\xff\xff", "\x95\x01\x80\xa11\xa8EchoTime\x91\xc7\x0c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", "\x95\x01\x80\xa11\xa8EchoTime\x91\xc7\x00\xff", "\x95\x01\x80\xa11\xa7EchoAny\x91\xd4\x05\x01", "\x95\x01\x80\xa11\xa7EchoAny\x91\x81\x01\x02", "\x95\x01\x80\xa11\xa7EchoAny\x91\x81\x90\x02", "\x95\x01\x80\xa11\xa7EchoAny\x91\x81\x80\x02",
	"\x95\x01\x80\xa11\xa7EchoAny\x91" + strings.Repeat("\x91", 9000) + "\x01", "\x95\x01" + strings.Repeat("\x81\xa1a", 9000) + "\x01\xc0\xa1x\x90", "\x95\x01\x80\xa11\xa9EchoMapSI\x91\x81\x01\x02", "\x95\x01\x80\xa11\xa9EchoMapIS\x91\x81\xa1x\x02", "\x95\x01\x80\xa11\xa9EchoBytes\x91\x93\x01\x02\x03", "\x95\x01\x80\xa11\xa8EchoInts\x91\xdd\x7f\xff\xff\xff",
}

func gen03(r *eng.R) sc03 {
	s := sc03{Role: eng.Pick(r, "server", "server", "server", "client"), Proto: protos[r.IntN(2)], End: r.IntN(3), NoHS: r.P(0.12)}
	if r.P(0.3) {
		s.Yield = r.Uint64() | 1
	}
	s.Ops = attack03(r, s)
	if s.Role == "server" && r.P(0.2) {
		for k := r.N(1, 3); k > 0; k-- {
			s.More = append(s.More, attack03(r, s))
		}
	}
	return s
}

func attack03(r *eng.R, s sc03) []at03 {
	var ops []at03
	frame := func(body string) []byte {
		if s.Proto == "json" {
			return append([]byte(body), 0x1e)
		}
		return append(putUvarint(len(body)), body...)
	}
	n := r.N(1, 12)
	for k := 0; k < n; k++ {
		var o at03
		switch r.IntN(12) {
		case 0, 1, 2, 3: // protocol messages without sense
			o.B = Encode(s.Proto, msg03(r, s.Proto), Style{Seed: r.Uint64() & -uint64(r.IntN(2))})
			o.Why = "message"
		case 4: // hand-made malformed messages
			if s.Proto == "json" {
				o.B = frame(texts03[r.IntN(len(texts03))])
			} else {
				o.B = frame(packs03[r.IntN(len(packs03))])
			}
			o.Why = "malformed message"
		case 5, 6: // mutated
			b := append([]byte{}, Encode(s.Proto, msg03(r, s.Proto), Style{})...)
			for j := r.N(1, 4); j > 0 && len(b) > 0; j-- {
				i := r.IntN(len(b))
				switch r.IntN(5) {
				case 0:
					b[i] = byte(r.IntN(256))
				case 1:
					b[i] ^= 1 << r.IntN(8)
				case 2:
					b = append(b[:i], b[i+1:]...)
				case 3:
					b = append(b[:i], append([]byte{byte(r.IntN(256))}, b[i:]...)...)
				case 4:
					b = append(b, b[i:]...)
				}
			}
			o.B, o.Why = b, "mutated message"
		case 7: // random bytes
			b := make([]byte, r.Heavy(2000)+1)
			for i := range b {
				b[i] = byte(r.Uint64())
			}
			o.B, o.Why = b, "random bytes"
		case 8: // truncated in the frame
			m := msg03(r, s.Proto)
			if m.Type == 6 || m.Type == 7 {
				m.Type = 1
			}
			f := Encode(s.Proto, m, Style{})
			if s.Proto == "json" {
				f = f[:len(f)-1]
			} else {
				_, l := uvarint(f)
				f = f[l:]
			}
			f = f[:r.N(1, len(f)-1)]
			o.B, o.Why, o.Must = frame(string(f)), "truncated message", s.Proto != "json" || mustJSON(frame(string(f)))
		case 9:
			o.Must, o.Why = true, "unknown type"
			t := eng.Pick(r, 8, 9, 99, 0, -1, 127, 128, 1000)
			if s.Proto == "json" {
				o.B = frame(fmt.Sprintf(`{"type":%d}`, t))
			} else {
				w := []byte{0x92}
				switch {
				case t >= 0 && t < 128:
					w = append(w, byte(t))
				case t < 0:
					w = append(w, 0xff)
				default:
					w = append(w, 0xcd, byte(t>>8), byte(t))
				}
				o.B = frame(string(append(w, 0x80)))
			}
		case 10:
			o.Must, o.Why = true, "item of unknown stream"
			o.B = Encode(s.Proto, Msg{Type: 2, ID: "never used", Item: int64(1)}, Style{})
		case 11:
			o.Must, o.Why = true, "completion with unknown id"
			m := Msg{Type: 3, ID: "never used"}
			switch r.IntN(3) {
			case 0:
				m.Result, m.HasResult = int64(1), true
			case 1:
				m.Error, m.HasError = "x", true
			}
			o.B = Encode(s.Proto, m, Style{})
		}
		if s.Proto == "json" && !o.Must {
			o.Must = mustJSON(o.B)
		}
		if s.Proto == "messagepack" && o.Must || len(o.B) > 1<<16 {
			// The bytes of incomplete frames before swallow this one
			for _, x := range ops {
				if x.Why == "mutated message" || x.Why == "random bytes" {
					o.Must = false
				}
			}
		}
		if s.Proto == "json" && o.Must && len(ops) > 0 && len(ops[len(ops)-1].B) > 0 {
			if last := ops[len(ops)-1].B; last[len(last)-1] != 0x1e {
				// a frame which was not complete
				all := append(append([]byte{}, last[bytes.LastIndexByte(last, 0x1e)+1:]...), o.B...)
				o.Must = mustJSON(all)
			}
		}
		if s.NoHS {
			o.Must = false
		}
		ops = append(ops, o)
		if r.P(0.1) {
			ops = append(ops, o)
		}
	}
	return ops
}

func init() {
	eng.Register(&eng.Check{
		ID:   "C03",
		Rule: "a case is non-trivial when the attack contains something which must end the connection; every case of ids-of-the-past does",
		Families: []eng.Family{
			eng.Fam("attacks", 12000, 200000, gen03, run03),
			eng.Fam("ids-of-the-past", 2000, 30000, gen03s, run03s),
		},
	})
}
