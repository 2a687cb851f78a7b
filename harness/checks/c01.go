package checks

import (
	"fmt"
	"reflect"

	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// op01 is one transfer of values.
type op01 struct {
	K     string // kind
	T     string // type
	V     []TV
	Style uint64
}

type sc01 struct {
	Proto string
	Ops   []op01
}

var protos = []string{"json", "messagepack"}

func genOp01(r *eng.R, kinds []string, not ...string) op01 {
	o := op01{K: kinds[r.IntN(len(kinds))], T: GenType(r, not...), Style: r.Uint64() | 1}
	if r.P(0.2) {
		o.Style = 0
	}
	n := 1
	switch o.K {
	case "stream", "upload":
		n = r.Heavy(30)
	}
	size := r.Heavy(20000)
	for i := 0; i < n; i++ {
		o.V = append(o.V, GenTV(r, o.T, size/max(n/2, 1)+8))
	}
	if o.K == "multi" {
		o.V = nil
		for _, t := range multiTypes {
			o.V = append(o.V, GenTV(r, t, size/4+8))
		}
	}
	return o
}

var multiTypes = []string{"Int", "String", "Bytes", "Deep", "Bool", "Float64"}

func gen01(kinds []string, notMsgpack ...string) func(r *eng.R) sc01 {
	return func(r *eng.R) sc01 {
		s := sc01{Proto: protos[r.IntN(2)]}
		not := []string{}
		if s.Proto == "messagepack" {
			not = notMsgpack
		}
		n := r.N(1, 8)
		for i := 0; i < n; i++ {
			s.Ops = append(s.Ops, genOp01(r, kinds, not...))
		}
		return s
	}
}

// values returns the Go values of an operation.
func (o op01) values() ([]reflect.Value, bool) {
	var l []reflect.Value
	for i, tv := range o.V {
		want := o.T
		if o.K == "multi" {
			if len(o.V) != len(multiTypes) {
				return nil, false
			}
			want = multiTypes[i]
		}
		v, ok := tv.Value()
		if !ok || tv.T != want {
			return nil, false
		}
		l = append(l, v)
	}
	if GoTypes[o.T] == nil {
		return nil, false
	}
	if len(l) != 1 && (o.K == "echo" || o.K == "callback") || len(l) != len(multiTypes) && (o.K == "multi" || o.K == "cbmulti") {
		return nil, false
	}
	return l, true
}

func ifaces(l []reflect.Value) []any {
	x := []any{}
	for _, v := range l {
		x = append(x, v.Interface())
	}
	return x
}

// lastArgs checks that exactly one call of method was recorded since the last check and that its arguments are want.
func lastCall(rec *Rec, method string, want []any, lossy bool) error {
	calls := rec.Calls()
	rec.Reset()
	if len(calls) != 1 || calls[0].Method != method {
		return eng.Errf("expected one call of %s, got %s", method, clip(calls))
	}
	if len(calls[0].Args) != len(want) {
		return eng.Errf("%s got %d arguments instead of %d", method, len(calls[0].Args), len(want))
	}
	for i := range want {
		same := SameGo(want[i], calls[0].Args[i])
		if lossy && !same {
			same = SameLossy(want[i], calls[0].Args[i])
		}
		if !same {
			return eng.Errf("%s: argument %d was sent as %s and arrived as %s", method, i, clip(want[i]), clip(calls[0].Args[i]))
		}
	}
	return nil
}

func items(rec *Rec, method string, want []any, lossy bool) error {
	calls := rec.Calls()
	rec.Reset()
	if len(calls) != len(want) {
		return eng.Errf("%s: %d items were sent and %d arrived", method, len(want), len(calls))
	}
	for i, c := range calls {
		if c.Method != method || len(c.Args) != 1 {
			return eng.Errf("expected item of %s, got %s", method, clip(c))
		}
		if !SameGo(want[i], c.Args[0]) && !(lossy && SameLossy(want[i], c.Args[0])) {
			return eng.Errf("%s: item %d was sent as %s and arrived as %s", method, i, clip(want[i]), clip(c.Args[0]))
		}
	}
	return nil
}

func clip(v any) string {
	s := fmt.Sprintf("%+v", v)
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	return s
}

// anyLossy: values in interfaces go through float64 in JSON
func anyLossy(t string) bool { return t == "Any" || t == "Anys" || t == "MapSA" }

func sameResult(proto, t string, want, got any) bool {
	if proto == "json" {
		return SameLossy(want, got)
	}
	return SameGo(want, got) && sameFloats(Tree(want), Tree(got))
}

// sameWire compares a value with what the wire says.
func sameWire(proto string, want, wire any) bool {
	return SameWire(want, wire) && (proto == "json" || sameFloats(Tree(want), wire))
}

func chanOf(t reflect.Type, vs []reflect.Value) reflect.Value {
	c := reflect.MakeChan(reflect.ChanOf(reflect.BothDir, t), len(vs))
	for _, v := range vs {
		c.Send(v)
	}
	c.Close()
	return c
}

// slice of the values for Stream methods
func sliceOf(t reflect.Type, vs []reflect.Value) any {
	s := reflect.MakeSlice(reflect.SliceOf(t), 0, len(vs))
	for _, v := range vs {
		s = reflect.Append(s, v)
	}
	return s.Interface()
}

func label01(c *eng.C, s sc01, o op01) {
	c.Label("%s/%s", s.Proto, o.K)
	c.Label("type %s", o.T)
	n := 0
	for _, v := range o.V {
		n += len(v.V)
	}
	if n > 0 {
		c.NonTrivial()
	}
	if n > 1000 {
		c.Label("large (>1000 bytes)")
	}
}

const bigMsg = 1 << 20

// run01lib: library client against library server.
func run01lib(c *eng.C, s sc01) error {
	if s.Proto != "json" && s.Proto != "messagepack" {
		return eng.Discard
	}
	return InBubble(c, func(b *B) error {
		rec, crec := &Rec{}, &Rec{}
		srv, err := NewServer(b.Ctx, signalr.HubFactory(func() signalr.HubInterface { return &TypeHub{Rec: rec} }), signalr.MaximumReceiveMessageSize(bigMsg))
		if err != nil {
			return err
		}
		cl, _, _, _, err := b.Client(srv, "c1", s.Proto, signalr.MaximumReceiveMessageSize(bigMsg), signalr.WithReceiver(&TypeReceiver{Rec: crec, Name: "c1"}))
		if err != nil {
			return err
		}
		for n, o := range s.Ops {
			vs, ok := o.values()
			if !ok {
				return eng.Discard
			}
			label01(c, s, o)
			t := GoTypes[o.T]
			fail := func(err error) error {
				if err == nil {
					return nil
				}
				return eng.Errf("%s, operation %d (%s %s): %v", s.Proto, n, o.K, o.T, err)
			}
			one := func(name string, ch <-chan signalr.InvokeResult, want any, nilOK bool) error {
				col := Collect(ch)
				b.Wait()
				got, closed := col.Get()
				if !closed {
					return eng.Errf("%s: no outcome", name)
				}
				if len(got) == 0 && want == nil && nilOK {
					return nil
				}
				if len(got) != 1 {
					return eng.Errf("%s: %d results %s", name, len(got), clip(got))
				}
				if got[0].Error != nil {
					return eng.Errf("%s: error %v", name, got[0].Error)
				}
				if !sameResult(s.Proto, o.T, want, got[0].Value) {
					return eng.Errf("%s: result was sent as %s and arrived as %s", name, clip(want), clip(got[0].Value))
				}
				return nil
			}
			switch o.K {
			case "echo":
				x := vs[0].Interface()
				if err := one("Echo"+o.T, cl.Invoke("Echo"+o.T, x), x, true); err != nil {
					return fail(err)
				}
				if err := lastCall(rec, "Echo"+o.T, []any{x}, anyLossy(o.T)); err != nil {
					return fail(err)
				}
			case "send":
				x := ifaces(vs)
				if len(x) != 1 {
					return eng.Discard
				}
				cl.Send("Echo"+o.T, x...)
				b.Wait()
				if err := lastCall(rec, "Echo"+o.T, x, anyLossy(o.T)); err != nil {
					return fail(err)
				}
			case "multi":
				x := ifaces(vs)
				want := []any{x[5], x[4], x[1], x[0]}
				if err := one("Multi", cl.Invoke("Multi", x...), want, false); err != nil {
					return fail(err)
				}
				if err := lastCall(rec, "Multi", x, true); err != nil {
					return fail(err)
				}
			case "callback":
				x := ifaces(vs)
				srv.HubClients().All().Send("Echo"+o.T, x...)
				b.Wait()
				if err := lastCall(crec, "Echo"+o.T, x, anyLossy(o.T)); err != nil {
					return fail(err)
				}
			case "stream":
				col := Collect(cl.PullStream("Stream"+o.T, sliceOf(t, vs)))
				b.Wait()
				got, closed := col.Get()
				if !closed {
					return fail(eng.Errf("stream did not end"))
				}
				if len(got) != len(vs) {
					return fail(eng.Errf("%d items were sent and %d arrived: %s", len(vs), len(got), clip(got)))
				}
				for i := range vs {
					if got[i].Error != nil || !sameResult(s.Proto, o.T, vs[i].Interface(), got[i].Value) {
						return fail(eng.Errf("item %d was sent as %s and arrived as %s", i, clip(vs[i]), clip(got[i])))
					}
				}
				rec.Reset()
			case "upload":
				if err := one("Upload"+o.T, cl.PushStreams("Upload"+o.T, chanOf(t, vs).Interface()), len(vs), false); err != nil {
					return fail(err)
				}
				if err := items(rec, "Upload"+o.T, ifaces(vs), anyLossy(o.T)); err != nil {
					return fail(err)
				}
			default:
				return eng.Discard
			}
		}
		return nil
	})
}

// run01server: raw client with its own encodings against the library server.
func run01server(c *eng.C, s sc01) error {
	if s.Proto != "json" && s.Proto != "messagepack" {
		return eng.Discard
	}
	return InBubble(c, func(b *B) error {
		rec := &Rec{}
		srv, err := NewServer(b.Ctx, signalr.HubFactory(func() signalr.HubInterface { return &TypeHub{Rec: rec} }), signalr.MaximumReceiveMessageSize(bigMsg), signalr.StreamBufferCapacity(50))
		if err != nil {
			return err
		}
		raw, _ := b.Connect(srv, "c1", s.Proto)
		for n, o := range s.Ops {
			vs, ok := o.values()
			if !ok {
				return eng.Discard
			}
			label01(c, s, o)
			fail := func(format string, args ...any) error {
				return eng.Errf("%s, operation %d (%s %s): %s", s.Proto, n, o.K, o.T, fmt.Sprintf(format, args...))
			}
			id := fmt.Sprintf("i%d", n)
			st := Style{Seed: o.Style}
			send := func(m Msg) {
				if o.Style != 0 {
					st.Seed = st.Seed*6364136223846793005 + 1442695040888963407 | 1
				}
				_, _ = raw.Write(Encode(s.Proto, m, st))
				b.Wait()
			}
			wires := []any{}
			for _, v := range vs {
				wires = append(wires, WireOf(v.Interface()))
			}
			// reply returns the only message of the server
			reply := func() (Msg, error) {
				l, err := raw.New()
				if err != nil {
					return Msg{}, err
				}
				if len(l) != 1 {
					return Msg{}, fmt.Errorf("%d messages instead of one: %v", len(l), l)
				}
				if l[0].Type == 3 && (l[0].ID != id || l[0].HasError) {
					return l[0], fmt.Errorf("wrong completion %v", l[0])
				}
				return l[0], nil
			}
			switch o.K {
			case "echo", "multi":
				m := "Echo" + o.T
				if o.K == "multi" {
					m = "Multi"
				}
				send(Msg{Type: 1, ID: id, Target: m, Args: wires})
				got, err := reply()
				if err != nil {
					return fail("%v", err)
				}
				x := ifaces(vs)
				if err := lastCall(rec, m, x, anyLossy(o.T)); err != nil {
					return fail("%v", err)
				}
				var want any = x
				if o.K == "echo" {
					want = x[0]
				} else {
					want = []any{x[5], x[4], x[1], x[0]}
				}
				if got.Type != 3 || !sameWire(s.Proto, want, got.Result) && !(anyLossy(o.T) && s.Proto == "json" && SameLossy(want, got.Result)) {
					return fail("result %s was sent as %v", clip(want), got)
				}
			case "callback":
				srv.HubClients().Client("c1").Send("Some/Target", ifaces(vs)...)
				b.Wait()
				got, err := reply()
				if err != nil {
					return fail("%v", err)
				}
				if got.Type != 1 || got.HasID && got.ID != "" || got.Target != "Some/Target" || len(got.Args) != 1 || !sameWire(s.Proto, vs[0].Interface(), got.Args[0]) {
					return fail("callback with %s was sent as %v", clip(vs[0]), got)
				}
			case "stream":
				send(Msg{Type: 4, ID: id, Target: "Stream" + o.T, Args: []any{WireOf(sliceOf(GoTypes[o.T], vs))}})
				l, err := raw.New()
				if err != nil {
					return fail("%v", err)
				}
				rec.Reset()
				if len(l) != len(vs)+1 {
					return fail("%d messages for %d items", len(l), len(vs))
				}
				for i, m := range l {
					if m.ID != id {
						return fail("id %q instead of %q", m.ID, id)
					}
					if i < len(vs) {
						if m.Type != 2 || !sameWire(s.Proto, vs[i].Interface(), m.Item) && !(anyLossy(o.T) && s.Proto == "json" && SameLossy(vs[i].Interface(), m.Item)) {
							return fail("item %s was sent as %v", clip(vs[i]), m)
						}
					} else if m.Type != 3 || m.HasError || m.HasResult {
						return fail("stream ended with %v", m)
					}
				}
			case "upload":
				sid := fmt.Sprintf("s%d", n)
				send(Msg{Type: 1, ID: id, Target: "Upload" + o.T, StreamIDs: []string{sid}})
				for _, w := range wires {
					send(Msg{Type: 2, ID: sid, Item: w})
				}
				send(Msg{Type: 3, ID: sid})
				got, err := reply()
				if err != nil {
					return fail("%v", err)
				}
				if err := items(rec, "Upload"+o.T, ifaces(vs), anyLossy(o.T)); err != nil {
					return fail("%v", err)
				}
				if got.Type != 3 || !sameWire(s.Proto, len(vs), got.Result) {
					return fail("count of %d was sent as %v", len(vs), got)
				}
			default:
				return eng.Discard
			}
		}
		return nil
	})
}

// run01client: raw server with its own encodings against the library client.
func run01client(c *eng.C, s sc01) error {
	if s.Proto != "json" && s.Proto != "messagepack" {
		return eng.Discard
	}
	return InBubble(c, func(b *B) error {
		rec := &Rec{}
		cl, raw, err := b.RawServer(s.Proto, signalr.MaximumReceiveMessageSize(bigMsg), signalr.WithReceiver(&TypeReceiver{Rec: rec, Name: "c1"}))
		if err != nil {
			return err
		}
		ids := map[string]bool{}
		for n, o := range s.Ops {
			vs, ok := o.values()
			if !ok {
				return eng.Discard
			}
			label01(c, s, o)
			t := GoTypes[o.T]
			fail := func(format string, args ...any) error {
				return eng.Errf("%s, operation %d (%s %s): %s", s.Proto, n, o.K, o.T, fmt.Sprintf(format, args...))
			}
			st := Style{Seed: o.Style}
			send := func(m Msg) {
				if o.Style != 0 {
					st.Seed = st.Seed*6364136223846793005 + 1442695040888963407 | 1
				}
				_, _ = raw.Write(Encode(s.Proto, m, st))
				b.Wait()
			}
			wires := []any{}
			for _, v := range vs {
				wires = append(wires, WireOf(v.Interface()))
			}
			// request returns the only message of the client and checks it
			request := func(typ int, target string, args []any, streams int) (Msg, error) {
				l, err := raw.New()
				if err != nil {
					return Msg{}, err
				}
				if len(l) == 0 {
					return Msg{}, fmt.Errorf("no message")
				}
				m := l[0]
				if typ != 0 && (m.Type != typ || m.Target != target || len(m.Args) != len(args) || len(m.StreamIDs) != streams || m.ID == "" || ids[m.ID]) {
					return m, fmt.Errorf("client sent %v for call of %s", m, target)
				}
				ids[m.ID] = true
				for i := range args {
					if !sameWire(s.Proto, args[i], m.Args[i]) {
						return m, fmt.Errorf("argument %d %s was sent as %v", i, clip(args[i]), m)
					}
				}
				if len(m.StreamIDs) == 0 && len(l) != 1 {
					return m, fmt.Errorf("client sent %v", l)
				}
				return m, nil
			}
			switch o.K {
			case "echo":
				col := Collect(cl.Invoke("Echo/X", ifaces(vs)...))
				b.Wait()
				m, err := request(1, "Echo/X", ifaces(vs), 0)
				if err != nil {
					return fail("%v", err)
				}
				send(Msg{Type: 3, ID: m.ID, Result: wires[0], HasResult: true})
				got, closed := col.Get()
				if !closed || len(got) > 1 || len(got) == 0 && wires[0] != nil || len(got) == 1 && got[0].Error != nil {
					return fail("outcome %s, closed %v", clip(got), closed)
				}
				if len(got) == 1 && !sameResult(s.Proto, o.T, wires[0], got[0].Value) {
					return fail("result was sent as %s and arrived as %s", clip(wires[0]), clip(got[0].Value))
				}
			case "callback", "cbmulti":
				m := "echo" + o.T
				if o.K == "cbmulti" {
					m = "Multi"
				}
				send(Msg{Type: 1, Target: m, Args: wires})
				if o.K == "callback" {
					m = "Echo" + o.T
				}
				if err := lastCall(rec, m, ifaces(vs), anyLossy(o.T)); err != nil {
					return fail("%v", err)
				}
				if l, err := raw.New(); err != nil || len(l) != 0 {
					return fail("client sent %v %v", l, err)
				}
			case "stream":
				col := Collect(cl.PullStream("str", 7))
				b.Wait()
				m, err := request(4, "str", []any{7}, 0)
				if err != nil {
					return fail("%v", err)
				}
				for _, w := range wires {
					send(Msg{Type: 2, ID: m.ID, Item: w})
				}
				send(Msg{Type: 3, ID: m.ID})
				got, closed := col.Get()
				if !closed || len(got) != len(wires) {
					return fail("%d items instead of %d, closed %v", len(got), len(wires), closed)
				}
				for i := range got {
					if got[i].Error != nil || !sameResult(s.Proto, o.T, wires[i], got[i].Value) {
						return fail("item %d was sent as %s and arrived as %s", i, clip(wires[i]), clip(got[i]))
					}
				}
			case "upload":
				col := Collect(cl.PushStreams("up", "x", chanOf(t, vs).Interface()))
				b.Wait()
				l, err := raw.New()
				if err != nil {
					return fail("%v", err)
				}
				if len(l) != len(vs)+2 || l[0].Type != 1 || l[0].Target != "up" || len(l[0].StreamIDs) != 1 || len(l[0].Args) != 1 || !sameWire(s.Proto, "x", l[0].Args[0]) || ids[l[0].ID] {
					return fail("client sent %s", clip(l))
				}
				ids[l[0].ID] = true
				for i, m := range l[1:] {
					if m.ID != l[0].StreamIDs[0] {
						return fail("wrong id in %v", m)
					}
					if i < len(vs) {
						if m.Type != 2 || !sameWire(s.Proto, vs[i].Interface(), m.Item) {
							return fail("item %s was sent as %v", clip(vs[i]), m)
						}
					} else if m.Type != 3 || m.HasError || m.HasResult {
						return fail("upload ended with %v", m)
					}
				}
				send(Msg{Type: 3, ID: l[0].ID, Result: "fin", HasResult: true})
				got, closed := col.Get()
				if !closed || len(got) != 1 || got[0].Error != nil || !Same("fin", Tree(got[0].Value), false) {
					return fail("outcome %s, closed %v", clip(got), closed)
				}
			default:
				return eng.Discard
			}
		}
		return nil
	})
}

func init() {
	eng.Register(&eng.Check{
		ID:   "C01",
		Rule: "a case is non-trivial when at least one operation transfers a non-empty value between two parties",
		Families: []eng.Family{
			eng.Fam("library-pair", 1500, 20000, gen01([]string{"echo", "echo", "send", "multi", "callback", "stream", "upload"}), run01lib),
			eng.Fam("raw-client", 1500, 20000, gen01([]string{"echo", "echo", "multi", "callback", "stream", "upload"}, "MapIS"), run01server),
			eng.Fam("raw-server", 1500, 20000, gen01([]string{"echo", "echo", "callback", "stream", "upload"}, "MapIS"), run01client),
			eng.Fam("sizes", 160, 4000, gen01z, run01z),
		},
	})
}
