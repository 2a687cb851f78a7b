package checks

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// P06 is a struct parameter
type P06 struct {
	A int               `json:"a"`
	S string            `json:"s"`
	L []string          `json:"l"`
	M map[string]int    `json:"m"`
	P *P06              `json:"p"`
	X map[string]string `json:"-"`
}

func show06(v any) string {
	switch x := v.(type) {
	case P06:
		var in string
		if x.P != nil {
			in = show06(*x.P)
		}
		var m []string
		for k, v := range x.M {
			m = append(m, fmt.Sprintf("%s=%d", k, v))
		}
		sort.Strings(m)
		return fmt.Sprintf("P06{%d %q %q %v %s}", x.A, x.S, x.L, m, in)
	case *P06:
		if x == nil {
			return "nil"
		}
		return show06(*x)
	case map[string]int:
		var m []string
		for k, v := range x {
			m = append(m, fmt.Sprintf("%s=%d", k, v))
		}
		sort.Strings(m)
		return fmt.Sprint(m)
	case []string:
		return fmt.Sprintf("%q", x)
	case string:
		return fmt.Sprintf("%q", x)
	case []byte:
		return fmt.Sprintf("% x", x)
	}
	return fmt.Sprintf("%v", v)
}

// callee06 has methods of many shapes, each records what it was called with.
type callee06 struct {
	rec  *Rec
	conn func() string
}

func (h *callee06) add(m string, args ...any) string {
	l := make([]any, len(args))
	var s []string
	for i, a := range args {
		l[i] = show06(a)
		s = append(s, show06(a))
	}
	h.rec.Add(m, h.conn(), l...)
	return m + "(" + strings.Join(s, ",") + ")"
}

func (h *callee06) Nothing() string                              { return h.add("Nothing") }
func (h *callee06) Int(a int) string                             { return h.add("Int", a) }
func (h *callee06) Text(a string) string                         { return h.add("Text", a) }
func (h *callee06) Flag(a bool) string                           { return h.add("Flag", a) }
func (h *callee06) List(a []string) string                       { return h.add("List", a) }
func (h *callee06) Map(a map[string]int) string                  { return h.add("Map", a) }
func (h *callee06) Obj(a P06) string                             { return h.add("Obj", a) }
func (h *callee06) Ptr(a *P06) string                            { return h.add("Ptr", a) }
func (h *callee06) Small(a uint8) string                         { return h.add("Small", a) }
func (h *callee06) Float(a float64) string                       { return h.add("Float", a) }
func (h *callee06) Bytes(a []byte) string                        { return h.add("Bytes", a) }
func (h *callee06) Pair(a int, b string) string                  { return h.add("Pair", a, b) }
func (h *callee06) Pair2(a string, b int) string                 { return h.add("Pair2", a, b) }
func (h *callee06) Quad(a int, b []string, c bool, d P06) string { return h.add("Quad", a, b, c, d) }
func (h *callee06) Same(a, b, c string) string                   { return h.add("Same", a, b, c) }
func (h *callee06) SameX(a, b, c string) string                  { return h.add("SameX", a, b, c) }
func (h *callee06) Sam(a, b, c string) string                    { return h.add("Sam", a, b, c) }
func (h *callee06) Äpfel(a int) string                           { return h.add("Äpfel", a) }
func (h *callee06) Snake_Case9(a int) string                     { return h.add("Snake_Case9", a) }
func (h *callee06) Fails(a string) error                         { return errors.New(h.add("Fails", a)) }
func (h *callee06) Fails2(a string) (int, error)                 { return 7, errors.New(h.add("Fails2", a)) }
func (h *callee06) Fails3(a string) (int, string, error) {
	return 7, "x", errors.New(h.add("Fails3", a))
}
func (h *callee06) Fine(a string) error               { h.add("Fine", a); return nil }
func (h *callee06) Fine2(a string) (string, error)    { return h.add("Fine2", a), nil }
func (h *callee06) Fine3(a string) (*P06, error)      { h.add("Fine3", a); return &P06{S: a}, nil }
func (h *callee06) ErrFirst(a string) (error, string) { return nil, h.add("ErrFirst", a) }
func (h *callee06) private(a string) string           { return h.add("private", a) }
func (h *callee06) Many(a ...string) string           { return h.add("Many", a) }
func (h *callee06) More(a int, b ...[]string) string  { return h.add("More", a, fmt.Sprint(b)) }
func (h *callee06) Deep(a [][]int, b map[string][]string) string {
	return h.add("Deep", fmt.Sprint(a), fmt.Sprint(b))
}

type hub06 struct {
	signalr.Hub
	callee06
}

type rcv06 struct {
	signalr.Receiver
	callee06
}

var sigs06 = map[string]string{
	"Nothing": "", "Int": "i", "Text": "s", "Flag": "b", "List": "l", "Map": "m", "Obj": "o", "Ptr": "o", "Small": "u", "Float": "f", "Bytes": "y",
	"Pair": "is", "Pair2": "si", "Quad": "ilbo", "Same": "sss", "SameX": "sss", "Sam": "sss", "Äpfel": "i", "Snake_Case9": "i",
	"Fails": "s", "Fails2": "s", "Fails3": "s", "Fine": "s", "Fine2": "s", "Fine3": "s", "Deep": "nN", "Many": "l", "More": "iL",
}

type arg06 struct {
	Kind string // i s b l m o u f y n N L, z: null
	Seed uint64
	Bad  bool // a value which does not fit
}

type call06 struct {
	Name  string // method
	Case  int    // 0 exact, 1 lower, 2 upper, 3 mixed
	Alt   int    // 1+: use the alternate name
	Other string // this target instead: unknown
	Args  []arg06
	NoID  bool
	T     int
	Style uint64
}

type sc06 struct {
	Role, Proto string
	Alts        map[string]string // alternate name -> method name as given to the option
	Calls       []call06
	Together    bool
}

// value06 returns the wire value and what the method should see
func value06(a arg06, proto string) (any, string) {
	r := eng.NewR(a.Seed, "arg", 0)
	if a.Bad {
		var l []any
		arr, obj, str, num, boo := any([]any{1, "x"}), any(map[string]any{"q": "x"}), any("abc"), any(int64(77)), any(true)
		switch a.Kind {
		case "i", "u", "f":
			l = []any{str, arr, obj, boo}
			if a.Kind == "u" && proto == "json" {
				l = append(l, int64(256), int64(-1))
			}
			if a.Kind == "i" && proto == "json" {
				l = append(l, 1.5)
			}
		case "s":
			l = []any{arr, obj, num, boo}
		case "b":
			l = []any{str, arr, obj, num}
		case "l", "n", "L":
			l = []any{obj, num, boo, str, []any{[]any{"a"}, true}}
		case "m", "N":
			l = []any{arr, num, boo, str}
		case "o":
			l = []any{num, boo, str, map[string]any{"a": "text"}, map[string]any{"l": 5}, map[string]any{"m": map[string]any{"x": []any{}}}}
		case "y":
			l = []any{obj, boo}
		default:
			return nil, ""
		}
		return l[r.IntN(len(l))], "!"
	}
	strs := func(n int) ([]any, []string) {
		var w []any
		l := []string{}
		for i := 0; i < n; i++ {
			s := GenString(r, 20)
			w, l = append(w, s), append(l, s)
		}
		if w == nil {
			w = []any{}
		}
		return w, l
	}
	switch a.Kind {
	case "z":
		return nil, "null"
	case "i":
		v := int64(r.N(-1000, 1000))
		if r.P(0.2) {
			v = r.Int64() >> 12
		}
		return v, show06(v)
	case "u":
		v := int64(r.IntN(256))
		return v, show06(v)
	case "f":
		v := float64(r.N(-1000, 1000)) / 8
		return v, show06(v)
	case "s":
		v := GenString(r, 40)
		return v, show06(v)
	case "b":
		v := r.P(0.5)
		return v, show06(v)
	case "l":
		w, l := strs(r.IntN(4))
		return w, show06(l)
	case "y":
		v := make([]byte, r.IntN(20))
		for i := range v {
			v[i] = byte(r.Uint32())
		}
		return v, show06(v)
	case "m":
		w, m := map[string]any{}, map[string]int{}
		for i := r.IntN(4); i > 0; i-- {
			k, v := fmt.Sprintf("k%d", r.IntN(9)), r.IntN(100)
			w[k], m[k] = v, v
		}
		return w, show06(m)
	case "o":
		var mk func(d int) (map[string]any, P06)
		mk = func(d int) (map[string]any, P06) {
			w, p := map[string]any{}, P06{}
			if r.P(0.7) {
				p.A = r.IntN(99)
				w["a"] = p.A
			}
			if r.P(0.7) {
				p.S = GenString(r, 10)
				w["s"] = p.S
			}
			if r.P(0.5) {
				wl, l := strs(r.IntN(3))
				p.L, w["l"] = l, wl
			}
			if r.P(0.5) {
				p.M = map[string]int{"x": 1}
				w["m"] = map[string]any{"x": 1}
			}
			if d > 0 && r.P(0.5) {
				w2, p2 := mk(d - 1)
				p.P, w["p"] = &p2, w2
			}
			if r.P(0.2) {
				w["unknown"] = []any{1, map[string]any{"b": nil}}
			}
			return w, p
		}
		w, p := mk(2)
		return w, show06(p)
	case "L":
		w, l := []any{}, [][]string{}
		for i := r.IntN(4); i > 0; i-- {
			wi, li := strs(r.IntN(3))
			w, l = append(w, wi), append(l, li)
		}
		return w, show06(fmt.Sprint(l))
	case "n":
		w, l := []any{}, [][]int{}
		for i := r.IntN(4); i > 0; i-- {
			wi, li := []any{}, []int{}
			for j := r.IntN(3); j > 0; j-- {
				v := r.IntN(9)
				wi, li = append(wi, v), append(li, v)
			}
			w, l = append(w, wi), append(l, li)
		}
		return w, show06(fmt.Sprint(l))
	case "N":
		w, m := map[string]any{}, map[string][]string{}
		if r.P(0.6) {
			wl, l := strs(2)
			w["k"], m["k"] = wl, l
		}
		return w, show06(fmt.Sprint(m))
	}
	return nil, ""
}

func case06(s string, c int) string {
	switch c {
	case 1:
		return strings.ToLower(s)
	case 2:
		return strings.ToUpper(s)
	case 3:
		var b strings.Builder
		for i, r := range s {
			if i%2 == 0 {
				b.WriteString(strings.ToLower(string(r)))
			} else {
				b.WriteString(strings.ToUpper(string(r)))
			}
		}
		return b.String()
	}
	return s
}

var names06 = func() []string {
	var l []string
	for k := range sigs06 {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}()

var altNames06 = []string{"alt", "Alt.Name", "do-it", "nothing2", "ünicode", "a b", "", "1", "Wrap/Text", "$"}

func gen06(r *eng.R) sc06 {
	s := sc06{Role: eng.Pick(r, "server", "client"), Proto: protos[r.IntN(2)], Alts: map[string]string{}, Together: r.P(0.3)}
	for i := r.IntN(5); i > 0; i-- {
		s.Alts[altNames06[r.IntN(len(altNames06))]] = case06(names06[r.IntN(len(names06))], r.IntN(4))
	}
	n := r.N(1, 8)
	for i := 0; i < n; i++ {
		c := call06{Name: names06[r.IntN(len(names06))], Case: r.IntN(4), T: 1, NoID: r.P(0.15)}
		if r.P(0.2) {
			c.T = 4
		}
		if r.P(0.25) {
			c.Alt = r.N(1, 10)
			var alts []string
			for a := range s.Alts {
				alts = append(alts, a)
			}
			if sort.Strings(alts); len(alts) > 0 {
				for _, n := range names06 {
					if strings.EqualFold(n, s.Alts[alts[(c.Alt-1)%len(alts)]]) {
						c.Name = n
					}
				}
			}
		}
		if r.P(0.15) {
			c.Other = eng.Pick(r, "Unknown", "", " ", c.Name+" ", " "+c.Name, c.Name+"X", c.Name[:len(c.Name)-1], "private", "add", "Private", "\""+c.Name, c.Name+"\x00",
				"OnConnected", "ondisconnected", "INITIALIZE", "callee06.Text", "rec", "Hub", "alt9", c.Name+"."+c.Name, "*", "%s")
		}
		for _, k := range sigs06[c.Name] {
			c.Args = append(c.Args, arg06{Kind: string(k), Seed: r.Uint64(), Bad: r.P(0.08)})
		}
		switch r.IntN(12) {
		case 0:
			if len(c.Args) > 0 {
				k := r.IntN(len(c.Args))
				c.Args = append(c.Args[:k:k], c.Args[k+1:]...)
			}
		case 1:
			k := r.IntN(len(c.Args) + 1)
			if r.P(0.3) {
				k = len(c.Args)
			}
			for j := 1 + r.Heavy(4); j > 0; j-- {
				c.Args = append(c.Args[:k:k], append([]arg06{{Kind: eng.Pick(r, "i", "s", "b", "l", "o", "z", "z"), Seed: r.Uint64()}}, c.Args[k:]...)...)
			}
		case 2:
			c.Args = nil
			for j := r.IntN(25); j > 0; j-- {
				c.Args = append(c.Args, arg06{Kind: eng.Pick(r, "i", "s", "b", "l", "o", "z"), Seed: r.Uint64()})
			}
		}
		if r.P(0.4) {
			c.Style = r.Uint64() | 1
		}
		s.Calls = append(s.Calls, c)
	}
	return s
}

// fits06 tells if a value of kind a surely fits (1), surely does not fit (0) or may fit (-1) a parameter of kind p
func fits06(a arg06, p string, proto string) int {
	if a.Bad {
		if a.Kind == p {
			return 0
		}
		return -1
	}
	if a.Kind == p {
		return 1
	}
	if a.Kind == "z" {
		return -1
	}
	num := func(k string) bool { return k == "i" || k == "u" || k == "f" }
	switch {
	case num(a.Kind) && num(p):
		return -1
	case a.Kind == "y" || p == "y", a.Kind == "u" || p == "u":
		return -1
	case a.Kind == "L" || p == "L":
		return -1
	case a.Kind == "l" && p == "o", a.Kind == "l" && p == "n", a.Kind == "n" && p == "l", a.Kind == "n" && p == "o":
		return -1 // structs may be given as arrays in MessagePack, empty lists fit
	case strings.Contains("mNo", a.Kind) && strings.Contains("mNo", p):
		return -1
	}
	return 0
}

func run06(c *eng.C, s sc06) error {
	return InBubble(c, func(b *B) error {
		if s.Proto != "json" && s.Proto != "messagepack" {
			return eng.Discard
		}
		rec := &Rec{}
		var opts []func(signalr.Party) error
		var altNames []string
		for a := range s.Alts {
			altNames = append(altNames, a)
		}
		sort.Strings(altNames)
		for _, a := range altNames {
			opts = append(opts, signalr.WithAlternateMethodName(s.Alts[a], a))
		}
		var raw *Raw
		var ended func() bool
		switch s.Role {
		case "server":
			srv, err := NewServer(b.Ctx, append(opts, signalr.HubFactory(func() signalr.HubInterface {
				h := &hub06{}
				h.callee06 = callee06{rec, h.ConnectionID}
				return h
			}))...)
			if err != nil {
				return err
			}
			r, sv := b.Connect(srv, "c1", s.Proto)
			raw, ended = r, sv.Ended
		case "client":
			h := &rcv06{}
			h.callee06 = callee06{rec, func() string { return "c1" }}
			cl, r, err := b.RawServer(s.Proto, append(opts, signalr.WithReceiver(h))...)
			if err != nil {
				return err
			}
			raw, ended = r, func() bool { return cl.State() != signalr.ClientConnected }
		default:
			return eng.Discard
		}
		var wantCalls []string
		type exp struct {
			kind string // ok, fail, refused, any
			text string
			t    int
		}
		want := map[string]exp{}
		check := func() error {
			if ended() {
				return eng.Errf("the connection has ended")
			}
			l, err := raw.Messages()
			if err != nil {
				return err
			}
			byID := map[string][]Msg{}
			for _, m := range l {
				if m.Type == 6 {
					continue
				}
				if _, ok := want[m.ID]; !ok || m.Type != 2 && m.Type != 3 {
					return eng.Errf("unexpected message %v", m)
				}
				byID[m.ID] = append(byID[m.ID], m)
			}
			for id, e := range want {
				l := byID[id]
				ok := false
				switch e.kind {
				case "ok":
					if e.t == 1 {
						ok = len(l) == 1 && l[0].Type == 3 && !l[0].HasError && (e.text == "" || l[0].Result == any(e.text))
					} else {
						ok = len(l) == 2 && l[0].Type == 2 && (e.text == "" || l[0].Item == any(e.text)) && l[1].Type == 3 && !l[1].HasError
					}
				case "fail":
					ok = len(l) == 1 && l[0].Type == 3 && l[0].HasError && l[0].Error == e.text
				case "refused":
					ok = len(l) == 1 && l[0].Type == 3 && l[0].HasError && l[0].Error != ""
				case "any":
					ok = len(l) >= 1 && l[len(l)-1].Type == 3
				}
				if !ok {
					return eng.Errf("answer to %s is %v instead of %+v", id, l, e)
				}
			}
			var got []string
			for _, x := range rec.Calls() {
				var p []string
				for _, a := range x.Args {
					p = append(p, a.(string))
				}
				got = append(got, x.Method+"("+strings.Join(p, ",")+")")
				if x.Conn != "c1" {
					return eng.Errf("called for connection %q", x.Conn)
				}
			}
			sort.Strings(got)
			w := append([]string{}, wantCalls...)
			sort.Strings(w)
			if !equalStrings(w, got) {
				return eng.Errf("methods called: %s instead of %s", clip(got), clip(w))
			}
			return nil
		}
		for i, x := range s.Calls {
			name := x.Name
			target := case06(name, x.Case)
			how := fmt.Sprintf("case variant %d", x.Case)
			if x.Alt > 0 && len(altNames) > 0 {
				target = altNames[(x.Alt-1)%len(altNames)]
				how = "alternate name"
			}
			if x.Other != "" {
				target = x.Other
				how = "other name"
			}
			// Which method is it?
			method := ""
			lookup := target
			if m, ok := s.Alts[target]; ok {
				lookup = m
			}
			for _, n := range names06 {
				if strings.EqualFold(n, lookup) {
					method = n
				}
			}
			if method == "" && (strings.EqualFold(lookup, "ErrFirst")) {
				continue
			}
			var args []any
			var seen []string
			fit := 1
			if method != "" {
				sig := strings.Split(sigs06[method], "")
				if sigs06[method] == "" {
					sig = nil
				}
				if len(sig) != len(x.Args) {
					fit = 0
					c.Label("wrong number of arguments")
				} else {
					for j, a := range x.Args {
						f := fits06(a, sig[j], s.Proto)
						if f == 0 {
							fit = 0
							c.Label("misfitting argument")
							break
						}
						if f < 0 {
							fit = -1
						}
					}
				}
			}
			for _, a := range x.Args {
				w, t := value06(a, s.Proto)
				if t == "" {
					return eng.Discard
				}
				args, seen = append(args, w), append(seen, t)
			}
			if fit < 0 {
				continue // nobody can tell
			}
			id := fmt.Sprintf("i%d", i)
			msg := Msg{Type: x.T, Target: target, Args: args}
			if !x.NoID {
				msg.ID, msg.HasID = id, true
			}
			if x.T != 1 && x.T != 4 {
				return eng.Discard
			}
			e := exp{t: x.T}
			run := method + "(" + strings.Join(seen, ",") + ")"
			out := 1
			switch method {
			case "Fails", "Fine":
				out = 0
			case "Fails3":
				out = 2
			}
			switch {
			case method == "":
				e.kind = "refused"
				c.Label("unknown target")
			case fit == 0, x.T == 4 && out != 1:
				e.kind = "refused"
			case strings.HasPrefix(method, "Fails"):
				e.kind, e.text = "fail", run
				wantCalls = append(wantCalls, run)
			case method == "Fine", method == "Fine3":
				e.kind = "ok"
				wantCalls = append(wantCalls, run)
			default:
				e.kind, e.text = "ok", run
				wantCalls = append(wantCalls, run)
			}
			if e.kind == "ok" && how == "alternate name" || e.kind == "ok" && x.Case != 0 || e.kind == "refused" {
				c.NonTrivial()
			}
			c.Label("%s, %s", how, e.kind)
			if !x.NoID {
				want[id] = e
			}
			_, _ = raw.Write(Encode(s.Proto, msg, Style{x.Style}))
			if !s.Together {
				b.Wait()
				if err := check(); err != nil {
					return eng.Errf("%s/%s: after call %d of %q with %s (method %q): %v", s.Role, s.Proto, i, target, clip(args), method, err)
				}
			}
		}
		b.Wait()
		if err := check(); err != nil {
			return eng.Errf("%s/%s: %v", s.Role, s.Proto, err)
		}
		return nil
	})
}

func init() {
	eng.Register(&eng.Check{
		ID:       "C06",
		Rule:     "a case is non-trivial when a method was called with another spelling or an alternate name, or a call had to be refused",
		Families: []eng.Family{eng.Fam("dispatch", 10000, 150000, gen06, run06)},
	})
}
