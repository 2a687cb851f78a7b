package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"strings"
	"time"

	"github.com/philippseith/signalr"
	"github.com/vmihailenco/msgpack/v5"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// Values which can not be encoded, by JSON, by MessagePack or by both.

type (
	withFunc25 struct {
		A int
		F func()
	}
	withChan25 struct {
		A int
		C chan int
		Z string
	}
	merr25   struct{ N int }
	mpanic25 struct {
		N   int
		How int
	}
	mgoexit25 struct{ N int }
	errj25    struct{ N int }
	errm25    struct{ N int }
	mpart25   struct{ N int }
	mtext25   struct{ N int }
	mcust25   struct{ N int }
)

func (m merr25) MarshalJSON() ([]byte, error) { return []byte(`{"half":`), errors.New("no JSON") }
func (m merr25) MarshalMsgpack() ([]byte, error) {
	return []byte{0x92, 1}, errors.New("no MessagePack")
}

func (m mpanic25) panic() {
	switch m.How % 4 {
	case 0:
		panic("no encoding")
	case 1:
		panic(errors.New("no encoding"))
	case 2:
		var p *mpanic25
		_ = p.N
	case 3:
		panic(m)
	}
}
func (m mpanic25) MarshalJSON() ([]byte, error)    { m.panic(); return nil, nil }
func (m mpanic25) MarshalMsgpack() ([]byte, error) { m.panic(); return nil, nil }

func (m mgoexit25) MarshalJSON() ([]byte, error)    { runtime.Goexit(); return nil, nil }
func (m mgoexit25) MarshalMsgpack() ([]byte, error) { runtime.Goexit(); return nil, nil }

func (m errj25) MarshalJSON() ([]byte, error)    { return nil, errors.New("no JSON") }
func (m errm25) MarshalMsgpack() ([]byte, error) { return nil, errors.New("no MessagePack") }
func (m mpart25) MarshalJSON() ([]byte, error)   { return []byte(`{"half":`), nil }
func (m mtext25) MarshalText() ([]byte, error)   { return nil, errors.New("no text") }

func (m mcust25) EncodeMsgpack(e *msgpack.Encoder) error {
	_ = e.EncodeArrayLen(3)
	_ = e.EncodeString(strings.Repeat("half", m.N%700))
	return errors.New("no MessagePack")
}

// t25 is a parameter which decodes itself.
type t25 struct{ S string }

func (t *t25) set(s string) error {
	for _, w := range []string{"err", "panic", "nil", "error"} {
		if strings.Contains(s, "<"+w+">") {
			switch w {
			case "err":
				return errors.New("can not be decoded")
			case "panic":
				panic("can not be decoded")
			case "error":
				panic(errors.New("can not be decoded"))
			case "nil":
				var p *t25
				p.S = s
			}
		}
	}
	t.S = s
	return nil
}
func (t *t25) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	return t.set(s)
}
func (t *t25) UnmarshalMsgpack(b []byte) error { return t.set(string(b)) }

type v25 struct {
	K string
	S int `json:",omitempty"`
}

func (v v25) spec() string { return fmt.Sprintf("%s:%d", v.K, v.S) }

var good25 = []string{"nil", "int", "str", "big", "list", "map", "obj"}
var bad25 = []string{"chan", "func", "complex", "sfunc", "schan", "pfunc", "late", "mapchan", "merr", "mpanic", "mgoexit", "text", "nestpanic",
	"nan", "inf", "mapany", "raw", "errj", "part", "errm", "custom", "nestcustom"}

// val25 makes the value and tells which formats can encode it.
func val25(spec string) (v any, json25, mp25 bool) {
	k, t, _ := strings.Cut(spec, ":")
	n := 0
	_, _ = fmt.Sscan(t, &n)
	n &= 0xfffff
	switch k {
	case "nil":
		return nil, true, true
	case "int":
		return n, true, true
	case "str":
		return fmt.Sprint("text ", n), true, true
	case "big":
		return strings.Repeat("0123456789", n%2000), true, true
	case "list":
		return []any{n, "x", []string{"y"}}, true, true
	case "map":
		return map[string]any{"a": n, "b": "x"}, true, true
	case "obj":
		return P06{A: n, S: "s", L: []string{"l"}}, true, true
	case "chan":
		return []any{make(chan int)}, false, false
	case "func":
		return func() {}, false, false
	case "complex":
		return complex(1, float64(n)), false, false
	case "sfunc":
		return withFunc25{A: n}, false, false
	case "schan":
		return withChan25{A: n, C: make(chan int), Z: "z"}, false, false
	case "pfunc":
		return []*withFunc25{{A: n, F: func() {}}}, false, false
	case "late":
		return []any{strings.Repeat("0123456789", n%2000), n, []any{1, func() {}}}, false, false
	case "mapchan":
		return map[string]any{"a": 1, "b": []any{make(chan int)}, "c": "x"}, false, false
	case "merr":
		return merr25{n}, false, false
	case "mpanic":
		return mpanic25{n, n}, false, false
	case "nestpanic":
		return []any{strings.Repeat("0123456789", n%2000), map[string]any{"a": mpanic25{n, n}}}, false, false
	case "mgoexit":
		return mgoexit25{n}, false, false
	case "text":
		return mtext25{n}, false, false
	case "nan":
		return math.NaN(), false, true
	case "inf":
		return []any{1, math.Inf(n%2*2 - 1)}, false, true
	case "mapany":
		return map[any]any{"a": n}, false, true
	case "raw":
		return json.RawMessage(`{"half":`), false, true
	case "errj":
		return errj25{n}, false, true
	case "part":
		return mpart25{n}, false, true
	case "errm":
		return errm25{n}, true, false
	case "custom":
		return mcust25{n}, true, false
	case "nestcustom":
		return []any{strings.Repeat("0123456789", n%200), mcust25{n}}, true, false
	}
	return nil, false, false
}

func known25(k string) bool {
	for _, l := range [][]string{good25, bad25} {
		for _, x := range l {
			if x == k {
				return true
			}
		}
	}
	return false
}

func ok25(spec, proto string) bool {
	_, j, m := val25(spec)
	return proto == "json" && j || proto != "json" && m
}

// same25 compares a value of the wire with a value which can be encoded.
func same25(got any, spec, proto string) bool {
	k, _, _ := strings.Cut(spec, ":")
	switch k {
	case "nan", "inf", "mapany", "raw", "errj", "part", "errm", "custom", "nestcustom":
		return true
	}
	v, _, _ := val25(spec)
	if v == nil {
		return got == nil
	}
	return Same(got, Tree(v), false)
}

type callee25 struct {
	rec  *Rec
	conn func() string
}

func v25of(spec string) any { v, _, _ := val25(spec); return v }

func (h *callee25) Give(spec string) any             { return v25of(spec) }
func (h *callee25) GiveErr(spec string) (any, error) { return v25of(spec), nil }
func (h *callee25) Two(spec string) (int, any)       { return 1, v25of(spec) }
func (h *callee25) GiveChan(spec string) <-chan any {
	ch := make(chan any, 1)
	ch <- v25of(spec)
	close(ch)
	return ch
}
func (h *callee25) Series(specs []string) <-chan any {
	ch := make(chan any, len(specs))
	for _, s := range specs {
		ch <- v25of(s)
	}
	close(ch)
	return ch
}
func (h *callee25) SendOnly() chan<- int            { return make(chan int) }
func (h *callee25) Echo(s string) string            { return s }
func (h *callee25) Take(n int, v any) int           { h.rec.Add("Take", h.conn(), n); return n }
func (h *callee25) Note(n int, v any)               { h.rec.Add("Note", h.conn(), n) }
func (h *callee25) Dec(n int, v t25) int            { h.rec.Add("Dec", h.conn(), n, v.S); return n }
func (h *callee25) Decs(n int, l []t25, p *t25) int { h.rec.Add("Decs", h.conn(), n, len(l)); return n }
func (h *callee25) DecM(n int, m map[string]t25) int {
	h.rec.Add("DecM", h.conn(), n, len(m))
	return n
}
func (h *callee25) Push(n int, ch <-chan any) int {
	k := 0
	for range ch {
		k++
	}
	h.rec.Add("Push", h.conn(), n, k)
	return k
}

type hub25 struct {
	signalr.Hub
	callee25
}

func (h *hub25) OnConnected(id string) { h.Groups().AddToGroup("g", id) }

func (h *hub25) Tell(how string, n int, spec string) {
	cl := h.Clients()
	switch how {
	case "all":
		cl.All().Send("Note", n, v25of(spec))
	case "caller":
		cl.Caller().Send("Note", n, v25of(spec))
	case "group":
		cl.Group("g").Send("Note", n, v25of(spec))
	default:
		cl.Client(how).Send("Note", n, v25of(spec))
	}
}

type rcv25 struct {
	signalr.Receiver
	callee25
}

type op25 struct {
	K string
	P int    `json:",omitempty"` // which peer
	V []v25  `json:",omitempty"`
	T int    `json:",omitempty"` // type of the message
	H string `json:",omitempty"` // whom to tell, how to decode
	A bool   `json:",omitempty"` // do not wait
	N bool   `json:",omitempty"` // without id
}

type sc25 struct {
	Role  string
	Proto string
	Det   bool `json:",omitempty"`
	Ops   []op25
	Y     uint64 `json:",omitempty"`
	YP    int    `json:",omitempty"`
}

func gen25(r *eng.R) sc25 {
	s := sc25{Role: eng.Pick(r, "server", "server", "client"), Proto: protos[r.IntN(2)], Det: r.P(0.5)}
	if r.P(0.4) {
		s.Y, s.YP = r.Uint64()|1, eng.Pick(r, 5, 30, 80)
	}
	val := func() v25 {
		v := v25{K: good25[r.IntN(len(good25))], S: r.IntN(1000)}
		if r.P(0.6) {
			v.K = bad25[r.IntN(len(bad25))]
		}
		if r.P(0.1) {
			v.S = r.IntN(100000)
		}
		return v
	}
	async := eng.Pick(r, 0, 0.3, 0.9)
	n := r.N(1, 10) + r.Heavy(60)
	for i := 0; i < n; i++ {
		o := op25{P: r.IntN(2), A: r.P(async)}
		o.K = eng.Pick(r, "Give", "Give", "GiveErr", "Two", "GiveChan", "Series", "Series", "SendOnly", "Echo", "Dec", "Decs", "DecM",
			"invoke", "invoke", "send", "pull", "pusharg", "push", "push", "tell", "tell", "tell", "outside", "idle")
		o.T = eng.Pick(r, 1, 1, 4)
		o.N = r.P(0.1)
		switch o.K {
		case "Series", "push":
			for j := r.IntN(6) + r.Heavy(40); j > 0; j-- {
				v := val()
				if r.P(0.7) {
					v.K = good25[r.IntN(len(good25))]
				}
				o.V = append(o.V, v)
			}
		case "SendOnly", "Echo":
		case "Dec", "Decs", "DecM":
			o.H = eng.Pick(r, "ok", "<err>", "<panic>", "<nil>", "<error>")
		case "idle":
			if r.P(0.7) {
				o.A, o.H = false, "caller"
				o.V = []v25{val()}
			} else {
				continue
			}
		default:
			o.V = []v25{val()}
			o.H = eng.Pick(r, "all", "caller", "group", "p0", "p1", "cl", "nobody")
		}
		s.Ops = append(s.Ops, o)
	}
	return s
}

const ka25 = 5 * time.Second

func run25(c *eng.C, s sc25) error {
	if s.Proto != "json" && s.Proto != "messagepack" {
		return eng.Discard
	}
	other := "json"
	if s.Proto == "json" {
		other = "messagepack"
	}
	return InBubble(c, func(b *B) error {
		type peer struct {
			raw   *Raw
			proto string
			ended func() bool
			cl    signalr.Client // role client
			id    string
		}
		rec := &Rec{}
		var y *Yield
		if s.YP > 0 {
			y = NewYield(s.Y, s.YP)
		}
		common := []func(signalr.Party) error{Quiet(y), signalr.EnableDetailedErrors(s.Det), signalr.KeepAliveInterval(ka25), signalr.TimeoutInterval(1000 * ka25)}
		var peers []*peer
		var srv signalr.Server
		var cl signalr.Client
		var clEnded func() bool
		switch s.Role {
		case "server":
			var err error
			srv, err = NewServer(b.Ctx, append(common, signalr.HubFactory(func() signalr.HubInterface {
				h := &hub25{}
				h.callee25 = callee25{rec, h.ConnectionID}
				return h
			}))...)
			if err != nil {
				return err
			}
			for i, p := range []string{s.Proto, other} {
				id := fmt.Sprint("p", i)
				r, sv := b.Connect(srv, id, p)
				peers = append(peers, &peer{raw: r, proto: p, ended: sv.Ended, id: id})
			}
			h := &rcv25{}
			h.callee25 = callee25{rec, func() string { return "cl" }}
			x, _, _, sv, err := b.Client(srv, "cl", s.Proto, append(common, signalr.WithReceiver(h))...)
			if err != nil {
				return err
			}
			cl, clEnded = x, sv.Ended
		case "client":
			for i, p := range []string{s.Proto, other} {
				id := fmt.Sprint("p", i)
				h := &rcv25{}
				h.callee25 = callee25{rec, func() string { return id }}
				x, r, err := b.RawServer(p, append(common, signalr.WithReceiver(h))...)
				if err != nil {
					return err
				}
				peers = append(peers, &peer{raw: r, proto: p, ended: func() bool { return x.State() != signalr.ClientConnected }, cl: x, id: id})
			}
		default:
			return eng.Discard
		}
		// What has to be there
		type want struct {
			items []string // specs
			fail  bool
			none  bool // no value at all
			multi bool
			val   string
			text  string // echo
			num   int    // dec
			isNum bool
		}
		wants := []map[string]want{{}, {}}
		notes := map[string]int{} // "who n" → count
		calls := map[string]int{}
		var later []func() error // answers of the raw servers
		var final []func() error
		ops := map[string]int{}
		note := func(n int, who string) { notes[fmt.Sprint(who, " ", n)]++ }
		check := func() error {
			if cl != nil && (cl.State() != signalr.ClientConnected || clEnded()) {
				return eng.Errf("the connection of the client has ended (state %v)", cl.State())
			}
			gotNotes := map[string]int{}
			for i, p := range peers {
				if p.ended() {
					return eng.Errf("the connection %s (%s) has ended", p.id, p.proto)
				}
				l, err := p.raw.Messages()
				if err != nil {
					return eng.Errf("%s (%s) received: %v", p.id, p.proto, err)
				}
				byID := map[string][]Msg{}
				for _, m := range l {
					switch {
					case m.Type == 6:
					case s.Role == "server" && m.Type == 1 && !m.HasID && m.Target == "Note" && len(m.Args) == 2:
						n := fmt.Sprint(m.Args[0])
						gotNotes[p.id+" "+n]++
						k := 0
						_, _ = fmt.Sscan(n, &k)
						if k < len(s.Ops) && len(s.Ops[k].V) == 1 && !same25(m.Args[1], s.Ops[k].V[0].spec(), p.proto) {
							return eng.Errf("%s got %v instead of a %v", p.id, m, s.Ops[k].V[0])
						}
					case s.Role == "client" && (m.Type == 1 || m.Type == 4) && strings.HasPrefix(m.Target, "Api"):
					case s.Role == "client" && (m.Type == 2 || m.Type == 3) && !strings.HasPrefix(m.ID, "s"):
						// the streams of uploads
					case m.Type == 2 || m.Type == 3:
						byID[m.ID] = append(byID[m.ID], m)
					default:
						return eng.Errf("%s: unexpected message %v", p.id, m)
					}
				}
				for id, m := range byID {
					if _, ok := wants[i][id]; !ok {
						return eng.Errf("%s: unexpected messages %v", p.id, m)
					}
				}
				for id, w := range wants[i] {
					m := byID[id]
					k := len(w.items)
					if len(m) != k+1 {
						return eng.Errf("%s (%s): the answers to %s (%+v) are %v", p.id, p.proto, id, s.Ops[ops[id]], m)
					}
					for j, it := range w.items {
						if m[j].Type != 2 || !same25(m[j].Item, it, p.proto) {
							return eng.Errf("%s (%s): item %d of %s (%+v) is %v", p.id, p.proto, j, id, s.Ops[ops[id]], m[j])
						}
					}
					e := m[k]
					ok := e.Type == 3
					switch {
					case w.fail:
						ok = ok && e.HasError && e.Error != "" && !(e.HasResult && e.Result != nil)
					case w.none:
						ok = ok && !e.HasError && !(e.HasResult && e.Result != nil)
					case w.text != "":
						ok = ok && !e.HasError && e.Result == any(w.text)
					case w.isNum:
						ok = ok && !e.HasError && fmt.Sprint(e.Result) == fmt.Sprint(w.num)
					case w.multi:
						l, isList := e.Result.([]any)
						ok = ok && !e.HasError && isList && len(l) == 2 && fmt.Sprint(l[0]) == "1" && same25(l[1], w.val, p.proto)
					default:
						ok = ok && !e.HasError && same25(e.Result, w.val, p.proto)
					}
					if !ok {
						return eng.Errf("%s (%s): the answer to %s (%+v) is %v instead of %+v", p.id, p.proto, id, s.Ops[ops[id]], e, w)
					}
				}
			}
			gotCalls := map[string]int{}
			for _, x := range rec.Calls() {
				k := x.Method + "@" + x.Conn + fmt.Sprint(x.Args)
				if x.Method == "Note" {
					gotNotes[fmt.Sprint(x.Conn, " ", x.Args[0])]++
				} else {
					gotCalls[k]++
				}
			}
			if !reflect.DeepEqual(notes, gotNotes) {
				return eng.Errf("notes are %v instead of %v", gotNotes, notes)
			}
			if !reflect.DeepEqual(calls, gotCalls) {
				return eng.Errf("calls are %v instead of %v", gotCalls, calls)
			}
			for _, f := range final {
				if err := f(); err != nil {
					return err
				}
			}
			return nil
		}
		flush := func() error {
			b.Wait()
			for _, f := range later {
				if err := f(); err != nil {
					return err
				}
			}
			later = nil
			b.Wait()
			return check()
		}
		for i, o := range s.Ops {
			if o.P < 0 || o.P > 1 || o.T != 1 && o.T != 4 {
				return eng.Discard
			}
			for _, v := range o.V {
				if !known25(v.K) {
					return eng.Discard
				}
			}
			p := peers[o.P]
			id := fmt.Sprint("s", i)
			ops[id] = i
			one := ""
			if len(o.V) == 1 {
				one = o.V[0].spec()
			}
			fine := ok25(one, p.proto)
			m := Msg{Type: o.T, ID: id, HasID: true, Target: o.K}
			if o.N && o.T == 1 {
				m.ID, m.HasID = "", false
			}
			ask := func(w want) {
				if m.HasID {
					if m.Type == 4 && w.items == nil && !w.fail {
						w = want{items: []string{w.val}, none: true}
					}
					wants[o.P][id] = w
					c.Label("%s %s type %d fails=%v", s.Role, o.K, o.T, w.fail)
				}
				if w.fail {
					c.NonTrivial()
				}
				_, _ = p.raw.Write(Encode(p.proto, m, Style{}))
			}
			api := func() (signalr.Client, string) {
				if s.Role == "server" {
					return cl, s.Proto
				}
				return p.cl, p.proto
			}
			switch o.K {
			case "Give", "GiveErr", "GiveChan":
				if one == "" {
					return eng.Discard
				}
				if o.K == "GiveChan" {
					m.Type = 1
				}
				m.Args = []any{one}
				ask(want{val: one, fail: !fine})
			case "Two":
				if one == "" {
					return eng.Discard
				}
				m.Args, m.Type = []any{one}, 1
				ask(want{val: one, multi: true, fail: !fine})
			case "SendOnly":
				ask(want{fail: true})
			case "Echo":
				m.Type, m.Args = 1, []any{id}
				ask(want{text: id})
			case "Series":
				m.Type, m.ID, m.HasID = 4, id, true
				var l []any
				w := want{none: true, items: []string{}}
				for _, v := range o.V {
					l = append(l, v.spec())
					if !ok25(v.spec(), p.proto) {
						w.fail, w.none = true, false
					}
					if !w.fail {
						w.items = append(w.items, v.spec())
					}
				}
				if l == nil {
					l = []any{}
				}
				m.Args = []any{l}
				ask(w)
			case "Dec", "Decs", "DecM":
				switch o.H {
				case "ok", "<err>", "<panic>", "<nil>", "<error>":
				default:
					return eng.Discard
				}
				x := "x" + o.H
				m.Type = 1
				w := want{num: i, isNum: true, fail: o.H != "ok"}
				var key string
				switch o.K {
				case "Dec":
					m.Args = []any{i, x}
					// MessagePack gives the bytes with their type
					key = fmt.Sprint("Dec@", p.id, []any{i, "xok"})
					if p.proto != "json" {
						key = fmt.Sprint("Dec@", p.id, []any{i, "\xa3xok"})
					}
				case "Decs":
					m.Args = []any{i, []any{"a", x, "b"}, "c"}
					if i%2 == 0 {
						m.Args = []any{i, []any{"a", "d", "b"}, x}
					}
					key = fmt.Sprint("Decs@", p.id, []any{i, 3})
				case "DecM":
					m.Args = []any{i, map[string]any{"a": "a", "b": x}}
					key = fmt.Sprint("DecM@", p.id, []any{i, 2})
				}
				if !w.fail {
					calls[key]++
				}
				ask(w)
			case "tell", "outside":
				if one == "" || s.Role != "server" {
					continue
				}
				for who, proto := range map[string]string{"p0": peers[0].proto, "p1": peers[1].proto, "cl": s.Proto} {
					if ok25(one, proto) {
						if o.H == "all" || o.H == "group" || o.H == who || o.H == "caller" && o.K == "tell" && who == p.id {
							note(i, who)
						}
					} else {
						c.NonTrivial()
					}
				}
				c.Label("tell %s %s: json %v messagepack %v", o.K, o.H, ok25(one, "json"), ok25(one, "messagepack"))
				if o.K == "tell" {
					m = Msg{Type: 1, Target: "Tell", Args: []any{o.H, i, one}}
					_, _ = p.raw.Write(Encode(p.proto, m, Style{}))
					break
				}
				cs := srv.HubClients()
				switch o.H {
				case "all":
					cs.All().Send("Note", i, v25of(one))
				case "group":
					cs.Group("g").Send("Note", i, v25of(one))
				default:
					cs.Client(o.H).Send("Note", i, v25of(one))
				}
			case "idle":
				// messages which are not written do not postpone the pings
				if one == "" {
					return eng.Discard
				}
				if err := flush(); err != nil {
					return eng.Errf("%s/%s: before op %d (%+v): %v", s.Role, s.Proto, i, o, err)
				}
				if s.Role == "server" && fine {
					continue
				}
				x, proto := api()
				if s.Role == "client" && ok25(one, proto) {
					continue
				}
				from := b.Now()
				var errs []*Collected[error]
				for k := 0; k < 20; k++ {
					if s.Role == "server" {
						_, _ = p.raw.Write(Encode(p.proto, Msg{Type: 1, Target: "Tell", Args: []any{"caller", i, one}}, Style{}))
					} else {
						errs = append(errs, Collect(x.Send("ApiTake", i, v25of(one))))
					}
					b.Sleep(time.Second + time.Millisecond)
				}
				l, err := p.raw.Messages()
				if err != nil {
					return err
				}
				last := from
				for _, m := range append(l, Msg{At: b.Start.Add(b.Now())}) {
					if at := m.At.Sub(b.Start); at > last {
						if at-last > 2*ka25 {
							return eng.Errf("%s/%s op %d (%+v): %s got nothing for %v", s.Role, s.Proto, i, o, p.id, at-last)
						}
						last = at
					}
				}
				for _, e := range errs {
					if l, closed := e.Get(); len(l) != 1 || !closed {
						return eng.Errf("%s/%s op %d (%+v): Send returned %v, closed %v", s.Role, s.Proto, i, o, l, closed)
					}
				}
				c.Label("idle")
				c.NonTrivial()
			case "invoke", "pull", "pusharg":
				if one == "" {
					return eng.Discard
				}
				x, proto := api()
				fine := ok25(one, proto)
				target := "Take"
				if s.Role == "client" {
					target = "ApiTake"
				}
				var res *Collected[signalr.InvokeResult]
				v := v25of(one)
				switch o.K {
				case "invoke":
					res = Collect(x.Invoke(target, i, v))
				case "pull":
					res = Collect(x.PullStream(target, i, v))
				case "pusharg":
					ch := make(chan any, 1)
					close(ch)
					if s.Role == "server" && fine {
						continue // Take has no stream
					}
					res = Collect(x.PushStreams(target, i, v, ch))
				}
				c.Label("%s %s fine=%v", s.Role, o.K, fine)
				if !fine {
					c.NonTrivial()
				} else if s.Role == "server" {
					calls[fmt.Sprint("Take@cl", []any{i})]++
				}
				if s.Role == "client" {
					later = append(later, func() error { return answer25(p.raw, i, fine, o.K == "pull") })
				}
				final = append(final, func() error {
					l, closed := res.Get()
					switch {
					case !closed || len(l) != 1:
					case !fine && l[0].Error == nil:
					case fine && (l[0].Error != nil || fmt.Sprint(l[0].Value) != fmt.Sprint(i)):
					default:
						return nil
					}
					return eng.Errf("op %d (%+v): the call returned %v, closed %v", i, o, l, closed)
				})
			case "send":
				if one == "" {
					return eng.Discard
				}
				x, proto := api()
				fine := ok25(one, proto)
				target := "Take"
				if s.Role == "client" {
					target = "ApiTake"
					later = append(later, func() error { return answer25(p.raw, i, fine, false) })
				} else if fine {
					calls[fmt.Sprint("Take@cl", []any{i})]++
				}
				res := Collect(x.Send(target, i, v25of(one)))
				c.Label("%s send fine=%v", s.Role, fine)
				if !fine {
					c.NonTrivial()
				}
				final = append(final, func() error {
					l, closed := res.Get()
					if !closed || fine && len(l) > 0 && l[0] != nil || !fine && (len(l) != 1 || l[0] == nil) {
						return eng.Errf("op %d (%+v): Send returned %v, closed %v", i, o, l, closed)
					}
					return nil
				})
			case "push":
				x, proto := api()
				ch := make(chan any, len(o.V))
				k, bad := 0, false
				for _, v := range o.V {
					ch <- v25of(v.spec())
					if !ok25(v.spec(), proto) {
						bad = true
					}
					if !bad {
						k++
					}
				}
				close(ch)
				c.Label("%s push fails=%v", s.Role, bad)
				if bad {
					c.NonTrivial()
				}
				if s.Role == "server" {
					res := Collect(x.PushStreams("Push", i, ch))
					calls[fmt.Sprint("Push@cl", []any{i, k})]++
					final = append(final, func() error {
						// The one who pushes may learn that an item could not be sent
						l, closed := res.Get()
						if !closed || len(l) != 1 || l[0].Error == nil && fmt.Sprint(l[0].Value) != fmt.Sprint(k) || l[0].Error != nil && !bad {
							return eng.Errf("op %d (%+v): the call returned %v, closed %v", i, o, l, closed)
						}
						return nil
					})
					break
				}
				res := Collect(x.PushStreams("ApiPush", i, ch))
				later = append(later, func() error {
					l, err := p.raw.Messages()
					if err != nil {
						return err
					}
					for _, m := range l {
						if m.Type == 1 && m.Target == "ApiPush" && len(m.Args) == 1 && fmt.Sprint(m.Args[0]) == fmt.Sprint(i) && len(m.StreamIDs) == 1 {
							n, done := 0, 0
							for _, it := range l {
								if it.ID == m.StreamIDs[0] && it.Type == 2 {
									if done > 0 || n >= k || !same25(it.Item, o.V[n].spec(), p.proto) {
										return eng.Errf("op %d (%+v): item %d is %v", i, o, n, it)
									}
									n++
								}
								if it.ID == m.StreamIDs[0] && it.Type == 3 {
									done++
									if it.HasError && !bad || it.HasResult && it.Result != nil {
										return eng.Errf("op %d (%+v): the upload ends with %v", i, o, it)
									}
								}
							}
							if n != k || done != 1 {
								return eng.Errf("op %d (%+v): %d items and %d completions have been sent", i, o, n, done)
							}
							p.raw.Send(Msg{Type: 3, ID: m.ID, HasID: true, Result: int64(i), HasResult: true})
							return nil
						}
					}
					return eng.Errf("op %d (%+v): no invocation", i, o)
				})
				final = append(final, func() error {
					l, closed := res.Get()
					if !closed || len(l) != 1 || l[0].Error != nil && !bad || l[0].Error == nil && fmt.Sprint(l[0].Value) != fmt.Sprint(i) {
						return eng.Errf("op %d (%+v): the call returned %v, closed %v", i, o, l, closed)
					}
					return nil
				})
			default:
				return eng.Discard
			}
			if !o.A {
				if err := flush(); err != nil {
					return eng.Errf("%s/%s: after op %d (%+v): %v", s.Role, s.Proto, i, o, err)
				}
			}
		}
		if err := flush(); err != nil {
			return eng.Errf("%s/%s: at the end: %v", s.Role, s.Proto, err)
		}
		return nil
	})
}

// answer25 answers a call of the client, if there should be one.
func answer25(raw *Raw, n int, fine, stream bool) error {
	l, err := raw.Messages()
	if err != nil {
		return err
	}
	var found []Msg
	for _, m := range l {
		if (m.Type == 1 || m.Type == 4) && m.Target == "ApiTake" && len(m.Args) > 0 && fmt.Sprint(m.Args[0]) == fmt.Sprint(n) {
			found = append(found, m)
		}
	}
	if !fine && len(found) == 0 {
		return nil
	}
	if !fine || len(found) != 1 {
		return eng.Errf("call %d has been sent as %v", n, found)
	}
	if stream {
		raw.Send(Msg{Type: 2, ID: found[0].ID, HasID: true, Item: int64(n)}, Msg{Type: 3, ID: found[0].ID, HasID: true})
	} else {
		raw.Send(Msg{Type: 3, ID: found[0].ID, HasID: true, Result: int64(n), HasResult: true})
	}
	return nil
}

func init() {
	eng.Register(&eng.Check{
		ID:   "C25",
		Rule: "a case is non-trivial when a value which can not be encoded or decoded had to fail its own call only",
		Families: []eng.Family{
			eng.Fam("values", 5000, 80000, gen25, run25),
		},
	})
}
