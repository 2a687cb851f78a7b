package checks

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// What is not a message of the protocol ends the connection, and nothing of it, or after it, has an effect.

type sc30 struct {
	Role, Proto   string
	Before, After []string // messages which are right
	Base          string   // the message which is made wrong
	Op            string
	Field, N      int
	GlueB, GlueA  bool // with the message before, after, in one write
	Style         uint64
}

// part30 is a field of a message in both formats.
type part30 struct {
	name string
	js   string
	mp   []byte
}

func mpStr30(s string) []byte {
	if len(s) > 31 {
		return append([]byte{0xd9, byte(len(s))}, s...)
	}
	return append([]byte{0xa0 | byte(len(s))}, s...)
}

func str30(name, s string) part30 {
	b, _ := json.Marshal(s)
	return part30{name, string(b), mpStr30(s)}
}

var bases30 = map[string][]string{
	"server": {"zero", "zeroid", "two", "var", "text", "item", "done", "fail", "cancel", "ping", "close", "end"},
	"client": {"zero", "zeroid", "two", "var", "item", "done", "fail", "result", "resulterr", "cancel", "ping", "close", "end"},
}

// fields30 tells the fields of a base message. The first one is the type.
func fields30(base string, x *x30) []part30 {
	typ := func(n int) part30 { return part30{"type", fmt.Sprint(n), []byte{byte(n)}} }
	head := part30{"header", "", []byte{0x80}}
	args := func(js string, mp ...byte) part30 { return part30{"args", js, mp} }
	streams := part30{"streams", "[]", []byte{0x90}}
	noID := part30{"id", "", []byte{0xc0}}
	kind := func(n byte) part30 { return part30{"kind", "", []byte{n}} }
	switch base {
	case "zero":
		return []part30{typ(1), head, noID, str30("target", "Zero"), args("[]", 0x90), streams}
	case "zeroid":
		return []part30{typ(1), head, str30("id", "bad"), str30("target", "Zero"), args("[]", 0x90), streams}
	case "two":
		return []part30{typ(1), head, str30("id", "bad"), str30("target", "Two"), args(`[99,"x"]`, 0x92, 99, 0xa1, 'x'), streams}
	case "var":
		return []part30{typ(1), head, noID, str30("target", "Var"), args(`[["a","b"]]`, 0x91, 0x92, 0xa1, 'a', 0xa1, 'b'), streams}
	case "text":
		return []part30{typ(4), head, str30("id", "bad"), str30("target", "Text"), args("[]", 0x90), streams}
	case "item":
		return []part30{typ(2), head, str30("id", x.up), {"item", "99", []byte{99}}}
	case "done":
		return []part30{typ(3), head, str30("id", x.up), kind(2)}
	case "fail":
		return []part30{typ(3), head, str30("id", x.up), kind(1), str30("error", "bad")}
	case "result":
		return []part30{typ(3), head, str30("id", x.call), kind(3), {"result", "99", []byte{99}}}
	case "resulterr":
		return []part30{typ(3), head, str30("id", x.call), kind(1), str30("error", "bad")}
	case "cancel":
		return []part30{typ(5), head, str30("id", x.down)}
	case "ping":
		return []part30{typ(6)}
	case "close":
		return []part30{typ(7), str30("error", "bad"), {"reconnect", "true", []byte{0xc3}}}
	}
	if base == "end" {
		return []part30{typ(7), {"error", "", []byte{0xc0}}, {"reconnect", "true", []byte{0xc3}}}
	}
	return nil
}

var jsonNames30 = map[string]string{"type": "type", "id": "invocationId", "target": "target", "args": "arguments", "streams": "streamIds",
	"item": "item", "error": "error", "result": "result", "reconnect": "allowReconnect"}

// Values which a field can not have
var (
	jsStr30  = []string{"5", "-1", "1.5", "true", "false", "[]", "{}", `["a"]`, `{"a":1}`, "[[]]"}
	jsList30 = []string{"5", "0", "true", `"a"`, `""`, "{}", `{"0":1}`, "-1.5", "false"}
	jsBad30  = map[string][]string{"type": {"true", `"1"`, `""`, "[]", "[1]", "{}", "1.5", "1e99", "99999999999999999999"}, "id": jsStr30, "target": jsStr30, "error": jsStr30,
		"args": jsList30, "streams": append([]string{"[1]", "[{}]", "[[]]", `["a",1]`, "[true]"}, jsList30...), "reconnect": {"1", `"true"`, "[]", "{}", "0", `""`},
		"item": {"", "x", "{", "[1", `"`, "nul", "01", "1.", "'a'", "NaN", "{1:2}", "[1,]", `{"a"}`, `"\x"`, "\"\x01\"", "+1", "--1", "1 2"}}
	mpStrB30 = [][]byte{{5}, {0xff}, {0xc2}, {0xc3}, {0x90}, {0x91, 1}, {0x80}, {0x81, 0xa1, 'a', 1}, {0xcd, 1, 0}, {0xc1}, {0xca, 0, 0, 0, 0}}
	mpList30 = [][]byte{{5}, {0}, {0xc2}, {0xc3}, {0xa0}, {0xa1, 'a'}, {0x80}, {0x81, 0xa1, 'a', 1}, {0xc1}, {0xcc, 200}, {0xff}}
	mpBad30  = map[string][][]byte{"type": {{0xa1, '1'}, {0xa0}, {0x90}, {0x91, 1}, {0x80}, {0xc2}, {0xc3}, {0xc1}}, "header": {{5}, {0xa1, 'a'}, {0x90}, {0x91, 1}, {0xc3}, {0xc1}, {0x81, 0xc1}, {0x81, 0xc1, 1}, {0x81, 0xa1, 'a', 0xc1}, {0x82, 0xa1, 'a', 1, 0xc1, 1}},
		"id": mpStrB30, "target": mpStrB30, "error": mpStrB30, "args": append([][]byte{{0x91, 0xc1}, {0x92, 1, 0xc1}}, mpList30...), "streams": append([][]byte{{0x91, 1}, {0x92, 0xa1, 'a', 1}, {0x91, 0x90}}, mpList30...),
		"kind": {{0}, {4}, {5}, {100}, {0xff}, {0xa1, '2'}, {0x90}, {0x80}, {0xc3}, {0xc1}, {0xc0}}, "item": {{0xc1}, {0x91, 0xc1}, {0x81, 0xc1, 1}}, "result": {{0xc1}, {0x91, 0xc1}, {0x81, 0xa1, 'a', 0xc1}},
		"reconnect": {{1}, {0}, {0xa4, 't', 'r', 'u', 'e'}, {0x90}, {0x80}, {0xc1}}}
	types30   = []int{0, 8, 9, 10, 42, 99, 127}
	jsWhole30 = []string{"5", `"a"`, "[]", "true", "[{}]", "null", "x", " ", "1", "{", "}", "[1]", `{"type":`, "\x00", "{}", "0", "[6]", `"{\"type\":6}"`}
	mpWhole30 = [][]byte{{5}, {0xa1, 'a'}, {0x80}, {0x81, 1, 1}, {0xc0}, {0xc3}, {0x90}, {0xc1}, {0xdc}, {0xdd, 0xff}, {0xdc, 0, 6}, {6}, {0x91}, {0x91, 0xc1}}
	lex30     = []string{"tail}", "tailx", "double", "equals", "single", "comma", "comment", "lead", "colon", "control"}
	least30   = map[byte]int{1: 5, 4: 5, 2: 4, 3: 4, 5: 3, 6: 1, 7: 2}
)

func init() { jsBad30["result"] = jsBad30["item"] }

func (p part30) mp0() byte { return p.mp[0] }

func array30(n int, parts ...[]byte) []byte {
	b := []byte{0x90 | byte(n)}
	for _, p := range parts {
		b = append(b, p...)
	}
	return b
}

// wrong30 makes the body of the message which is wrong.
func wrong30(s sc30, x *x30) (body []byte, what string, ok bool) {
	fs := fields30(s.Base, x)
	if fs == nil || s.N < 0 || s.Field < 0 {
		return nil, "", false
	}
	js := s.Proto == "json"
	if js {
		var l []part30
		for _, f := range fs {
			if f.js != "" {
				l = append(l, f)
			}
		}
		fs = l
	}
	f := &fs[s.Field%len(fs)]
	full := func() []byte {
		if js {
			var l []string
			for _, f := range fs {
				l = append(l, fmt.Sprintf("%q:%s", jsonNames30[f.name], f.js))
			}
			return []byte("{" + strings.Join(l, ",") + "}")
		}
		var l [][]byte
		for _, f := range fs {
			l = append(l, f.mp)
		}
		return array30(len(fs), l...)
	}
	// The header is an element of the array
	switch s.Op {
	case "value":
		what = fmt.Sprintf("%s with wrong %s", s.Base, f.name)
		if js {
			l := jsBad30[f.name]
			if len(l) == 0 {
				return nil, "", false
			}
			f.js = l[s.N%len(l)]
		} else {
			l := mpBad30[f.name]
			if len(l) == 0 {
				return nil, "", false
			}
			f.mp = l[s.N%len(l)]
		}
		return full(), what, true
	case "type":
		n := types30[s.N%len(types30)]
		fs[0].js, fs[0].mp = fmt.Sprint(n), []byte{byte(n)}
		return full(), fmt.Sprintf("%s with type %d", s.Base, n), true
	case "unknown":
		// Items and completions are for streams and calls which exist
		if !has21([]string{"item", "done", "fail", "result", "resulterr"}, s.Base) {
			return nil, "", false
		}
		for k := range fs {
			if fs[k].name == "id" {
				fs[k] = str30("id", []string{"nobody", "Up", "", "50", "-1", "00", "upcall", "down "}[s.N%8])
			}
		}
		return full(), s.Base + " for nobody", true
	case "whole":
		if js {
			return []byte(jsWhole30[s.N%len(jsWhole30)]), "something else", true
		}
		return mpWhole30[s.N%len(mpWhole30)], "something else", true
	case "cut":
		b := full()
		if len(b) < 2 {
			return nil, "", false
		}
		return b[:1+s.N%(len(b)-1)], s.Base + ", cut", true
	case "drop":
		// The array is shorter than allowed
		what = s.Base + " with fewer fields"
		if js {
			fs = fs[1:]
			return full(), s.Base + " without type", true
		}
		min := least30[fs[0].mp0()]
		if s.Base == "fail" || s.Base == "result" || s.Base == "resulterr" {
			min = 5
		}
		if min < 2 {
			return nil, "", false
		}
		fs = fs[:1+s.N%(min-1)]
		return full(), what, true
	case "under":
		// The array is longer than it pretends to be, and than allowed
		min := least30[fs[0].mp0()]
		if js || min < 2 {
			return nil, "", false
		}
		b := full()
		b[0] = 0x90 | byte(1+s.N%(min-1))
		return b, s.Base + " with more fields than announced", true
	case "short":
		// The array pretends to be longer than it is
		if js {
			return nil, "", false
		}
		var l [][]byte
		for _, f := range fs[:s.N%len(fs)] {
			l = append(l, f.mp)
		}
		return array30(len(fs), l...), s.Base + " with fewer fields than announced", true
	case "lex":
		if !js {
			return nil, "", false
		}
		b := string(full())
		k := lex30[s.N%len(lex30)]
		switch k {
		case "tail}":
			b += "}"
		case "tailx":
			b += " x"
		case "double":
			b += b
		case "equals":
			b = strings.Replace(b, ":", "=", 1)
		case "single":
			b = strings.ReplaceAll(b, `"`, "'")
		case "comma":
			b = b[:len(b)-1] + ",}"
		case "comment":
			b = "/**/" + b
		case "lead":
			b = "x" + b
		case "colon":
			b = strings.Replace(b, ":", "::", 1)
		case "control":
			b = "{\"a\x02\":1," + b[1:]
		}
		return []byte(b), s.Base + ": " + k, true
	}
	return nil, "", false
}

func frame30(proto string, body []byte) []byte {
	if proto == "json" {
		return append(append([]byte{}, body...), 0x1e)
	}
	return append(binary.AppendUvarint(nil, uint64(len(body))), body...)
}

type x30 struct {
	up, down, call string // ids of the streams and of the call
	mx             sync.Mutex
	rec            []string
	feed           chan int
}

func (x *x30) add(f string, a ...any) {
	x.mx.Lock()
	x.rec = append(x.rec, fmt.Sprintf(f, a...))
	x.mx.Unlock()
}

type hub30 struct {
	signalr.Hub
	*work30
}

type rcv30 struct {
	signalr.Receiver
	*work30
}

type work30 struct{ x *x30 }

func (w *work30) Zero()                      { w.x.add("zero") }
func (w *work30) Two(n int, s string) string { w.x.add("two %d %s", n, s); return fmt.Sprint(n, s) }
func (w *work30) Var(l []string)             { w.x.add("var %v", l) }
func (w *work30) Text() string               { w.x.add("text"); return "text" }
func (w *work30) Feed() <-chan int           { return w.x.feed }
func (w *work30) Up(ch <-chan int) {
	for n := range ch {
		w.x.add("item %d", n)
	}
}

var right30 = map[string][]string{"server": {"zero", "two", "var", "item", "ping", "text"}, "client": {"zero", "two", "var", "item", "ping"}}

// msg30 is a right message.
func (x *x30) msg30(kind string, n int) (m Msg, rec string) {
	id := fmt.Sprint("r", n)
	switch kind {
	case "zero":
		return Msg{Type: 1, Target: "Zero", Args: []any{}}, "zero"
	case "two":
		return Msg{Type: 1, ID: id, HasID: true, Target: "Two", Args: []any{n, id}}, fmt.Sprintf("two %d %s", n, id)
	case "var":
		return Msg{Type: 1, Target: "Var", Args: []any{[]any{id}}}, fmt.Sprintf("var [%s]", id)
	case "text":
		return Msg{Type: 4, ID: id, HasID: true, Target: "Text", Args: []any{}}, "text"
	case "item":
		return Msg{Type: 2, ID: x.up, Item: n}, fmt.Sprintf("item %d", n)
	}
	return Msg{Type: 6}, ""
}

func run30(c *eng.C, s sc30) error {
	if !has21([]string{"server", "client"}, s.Role) || !has21(protos, s.Proto) || !has21(bases30[s.Role], s.Base) || len(s.Before) > 40 || len(s.After) > 40 {
		return eng.Discard
	}
	for _, k := range append(append([]string{}, s.Before...), s.After...) {
		if !has21(right30[s.Role], k) {
			return eng.Discard
		}
	}
	if _, _, ok := wrong30(s, &x30{up: "u", down: "d", call: "c"}); !ok {
		return eng.Discard
	}
	return InBubble(c, func(b *B) error {
		x := &x30{feed: make(chan int)}
		w := &work30{x: x}
		var r *Raw
		var cl signalr.Client
		var ended func() bool
		var call, pull, push *Collected[signalr.InvokeResult]
		if s.Role == "server" {
			srv, err := NewServer(b.Ctx, signalr.HubFactory(func() signalr.HubInterface { return &hub30{work30: w} }), signalr.StreamBufferCapacity(100))
			if err != nil {
				return err
			}
			raw, sv := b.Connect(srv, "c", s.Proto)
			r, ended = raw, sv.Ended
			x.up, x.down, x.call = "up", "down", "none"
			r.Send(Msg{Type: 1, ID: "upcall", HasID: true, Target: "Up", Args: []any{}, StreamIDs: []string{x.up}},
				Msg{Type: 4, ID: x.down, HasID: true, Target: "Feed", Args: []any{}})
			b.Wait()
			if ms, err := r.New(); err != nil || len(ms) > 0 || ended() {
				return eng.Errf("%v %v", ms, err)
			}
		} else {
			var err error
			cl, r, err = b.RawServer(s.Proto, signalr.WithReceiver(&rcv30{work30: w}), signalr.StreamBufferCapacity(100))
			if err != nil {
				return err
			}
			ended = func() bool { return cl.State() == signalr.ClientClosed }
			call = Collect(cl.Invoke("A"))
			b.Wait()
			pull = Collect(cl.PullStream("B"))
			b.Wait()
			push = Collect(cl.PushStreams("C", x.feed))
			b.Wait()
			ms, err := r.New()
			if err != nil || len(ms) != 3 || len(ms[2].StreamIDs) != 1 {
				return eng.Errf("the client sends %v %v", ms, err)
			}
			x.call, x.up, x.down = ms[0].ID, ms[1].ID, ms[2].StreamIDs[0]
		}
		x.mx.Lock()
		x.rec = nil
		x.mx.Unlock()
		var want, items []string
		answers := map[string]string{}
		enc := func(l []string, from int, count bool) []byte {
			var out []byte
			for i, k := range l {
				m, rec := x.msg30(k, from+i)
				out = append(out, Encode(s.Proto, m, Style{Seed: s.Style + uint64(from+i)})...)
				if !count {
					continue
				}
				if k == "item" {
					items = append(items, fmt.Sprint(from+i))
				}
				if rec != "" && !(k == "item" && s.Role == "client") {
					want = append(want, rec)
				}
				if m.HasID {
					answers[m.ID] = fmt.Sprint(m.Type, " ", rec)
				}
			}
			return out
		}
		bad, what, _ := wrong30(s, x)
		bad = frame30(s.Proto, bad)
		before, after := enc(s.Before, 1, true), enc(s.After, 50, false)
		check := func(all bool) error {
			x.mx.Lock()
			got := append([]string{}, x.rec...)
			x.mx.Unlock()
			g, w := append([]string{}, got...), append([]string{}, want...)
			sort.Strings(g)
			sort.Strings(w)
			if fmt.Sprint(g) != fmt.Sprint(w) {
				return eng.Errf("%s %s: the messages before call %v, called were %v", s.Proto, what, want, got)
			}
			var it []string
			for _, s := range got {
				if strings.HasPrefix(s, "item ") {
					it = append(it, s[5:])
				}
			}
			if s.Role == "client" {
				l, _ := pull.Get()
				for _, v := range l {
					if v.Error != nil {
						if !all {
							return eng.Errf("the stream ends with %v", v.Error)
						}
						continue
					}
					it = append(it, fmt.Sprint(v.Value))
				}
			}
			if fmt.Sprint(it) != fmt.Sprint(items) {
				return eng.Errf("%s %s: the items before are %v, received were %v", s.Proto, what, items, it)
			}
			return nil
		}
		if !s.GlueB {
			_, _ = r.Write(before)
			before = nil
			b.Wait()
			if ended() {
				return eng.Errf("%s: the connection ended after right messages", s.Proto)
			}
			if err := check(false); err != nil {
				return err
			}
		}
		if s.GlueA {
			_, _ = r.Write(append(append(before, bad...), after...))
			b.Wait()
		} else {
			_, _ = r.Write(append(before, bad...))
			b.Wait()
			_, _ = r.Write(after)
			b.Wait()
		}
		if !ended() {
			return eng.Errf("%s: the connection goes on after %s: %q", s.Proto, what, clipBytes(bad))
		}
		if err := check(true); err != nil {
			return err
		}
		ms, err := r.New()
		if err != nil {
			return err
		}
		closed := false
		for _, m := range ms {
			if closed {
				return eng.Errf("%v after the close message", m)
			}
			switch m.Type {
			case 6:
			case 7:
				closed = true
				if !m.HasError || m.Error == "" {
					return eng.Errf("%s: after %s, the close message has no error", s.Proto, what)
				}
			case 2, 3:
				a, ok := answers[m.ID]
				if !ok && s.Role == "server" && m.ID == "upcall" && m.Type == 3 {
					continue
				}
				if !ok || strings.HasPrefix(a, "1") && m.Type == 2 {
					return eng.Errf("%s: after %s, there is the answer %v", s.Proto, what, m)
				}
				if m.HasError {
					return eng.Errf("%s: with %s, a call before it is answered with %v", s.Proto, what, m)
				}
			default:
				return eng.Errf("%s: after %s, there is %v", s.Proto, what, m)
			}
			if m.Type == 3 {
				delete(answers, m.ID)
			}
		}
		if !s.GlueB && len(answers) > 0 {
			return eng.Errf("%s: the calls %v were not answered", s.Proto, answers)
		}
		if s.Role == "server" && !closed {
			return eng.Errf("%s: after %s, no close message is sent", s.Proto, what)
		}
		if cl != nil {
			if cl.Err() == nil {
				return eng.Errf("%s: after %s, Err of the client is nil", s.Proto, what)
			}
			for k, x := range []*Collected[signalr.InvokeResult]{call, pull, push} {
				l, done := x.Get()
				if !done {
					return eng.Errf("%s: after %s, call %d does not end", s.Proto, what, k)
				}
				if k != 1 && (len(l) != 1 || l[0].Error == nil || l[0].Value != nil) || k == 1 && (len(l) == 0 || l[len(l)-1].Error == nil) {
					return eng.Errf("%s: after %s, the result of call %d is %v", s.Proto, what, k, l)
				}
			}
		}
		c.Label("%s %s", s.Op, s.Proto)
		c.NonTrivial()
		return nil
	})
}

func gen30(r *eng.R) sc30 {
	for {
		s := sc30{Role: eng.Pick(r, "server", "client"), Proto: eng.Pick(r, protos...), Op: eng.Pick(r, "value", "value", "value", "value", "value", "type", "whole", "cut", "cut", "drop", "short", "under", "lex", "unknown"),
			Field: r.IntN(6), N: r.N(0, 120), GlueB: r.P(0.4), GlueA: r.P(0.5), Style: r.Uint64()}
		s.Base = eng.Pick(r, bases30[s.Role]...)
		for n := r.N(0, eng.Pick(r, 0, 3, 10)); n > 0; n-- {
			s.Before = append(s.Before, eng.Pick(r, right30[s.Role]...))
		}
		for n := r.N(0, eng.Pick(r, 0, 3, 10)); n > 0; n-- {
			s.After = append(s.After, eng.Pick(r, right30[s.Role]...))
		}
		if _, _, ok := wrong30(s, &x30{up: "u", down: "d", call: "c"}); ok {
			return s
		}
	}
}

func init() {
	eng.Register(&eng.Check{
		ID:   "C30",
		Rule: "a case is non-trivial when a message which is not one of the protocol was sent and everything around it was judged",
		Families: []eng.Family{
			eng.Fam("wrong", 12000, 400000, gen30, run30),
		},
	})
}
