package checks

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// hub26 does what it is told.
type hub26 struct {
	signalr.Hub
	w *w26
}

type w26 struct{ act sync.Map }

func (h *hub26) Act(key string) string {
	if f, ok := h.w.act.Load(key); ok {
		f.(func(h *hub26))(h)
	}
	return key
}

type op26 struct {
	K string // conn end add remove all client group caller drop down stuck
	C int    `json:",omitempty"` // connection which acts (conn, end, stuck: which is meant); -1-s: server s acts outside of hubs
	I int    `json:",omitempty"` // connection which is meant
	G int    `json:",omitempty"` // group
	N int    `json:",omitempty"` // how often
	S int    `json:",omitempty"` // server
	P string `json:",omitempty"` // protocol
	V uint64 `json:",omitempty"` // arguments
}

type sc26 struct {
	Servers int
	Groups  []string
	Conns   int
	Steps   [][]op26
	Y       uint64 `json:",omitempty"`
	YP      int    `json:",omitempty"`
}

var groups26 = []string{"g", "G", "g1", "", "a:b", "*", "group:*", "g?", "[x]", "ünï", "all", "a b", "{tag}", "\\", "group members", "1", "g ", " g", "\t", "G1"}

func gen26(r *eng.R) sc26 {
	s := sc26{Servers: r.N(1, 3), Conns: r.N(2, 8) + r.Heavy(20)}
	if r.P(0.4) {
		s.Y, s.YP = r.Uint64()|1, eng.Pick(r, 5, 30, 80)
	}
	for i := r.N(1, 4); i > 0; i-- {
		g := groups26[r.IntN(len(groups26))]
		if r.P(0.3) {
			g = "g"
		}
		dup := false
		for _, x := range s.Groups {
			dup = dup || x == g
		}
		if !dup {
			s.Groups = append(s.Groups, g)
		}
	}
	actor := func() int {
		if r.P(0.25) {
			return -1 - r.IntN(s.Servers)
		}
		return r.IntN(s.Conns)
	}
	n := r.N(2, 14) + r.Heavy(40)
	busy := eng.Pick(r, 1, 1, 3, 12)
	for i := 0; i < n; i++ {
		var l []op26
		for j := r.N(1, busy); j > 0; j-- {
			o := op26{C: actor(), I: r.IntN(s.Conns), G: r.IntN(len(s.Groups)), V: r.Uint64()}
			o.K = eng.Pick(r, "conn", "conn", "add", "add", "add", "remove", "all", "client", "group", "group", "caller", "end")
			if i < 2 {
				o.K = "conn"
			}
			if r.P(0.02) {
				o.K = eng.Pick(r, "drop", "down", "stuck")
			}
			if r.P(0.001) {
				o.K = "pause"
			}
			switch o.K {
			case "conn":
				o.C, o.S, o.P = r.IntN(s.Conns), r.IntN(s.Servers), protos[r.IntN(2)]
			case "end", "stuck":
				o.C = r.IntN(s.Conns)
			case "drop":
				o.S = r.IntN(s.Servers)
			case "client":
				if r.P(0.1) {
					o.I = -1 - r.IntN(3)
				}
			}
			if r.P(0.05) {
				o.N = r.IntN(40)
			}
			l = append(l, o)
		}
		s.Steps = append(s.Steps, l)
	}
	return s
}

func args26(v uint64) []any {
	var l []any
	for n := v % 4; n > 0; n-- {
		v /= 7
		switch v % 9 {
		case 0:
			l = append(l, int(v>>20))
		case 1:
			l = append(l, fmt.Sprintf("text %d <&>\u2028\"ä😀", v))
		case 2:
			l = append(l, v%2 == 0)
		case 3:
			l = append(l, nil)
		case 4:
			l = append(l, []any{int(v % 100), "x", []string{"y"}})
		case 5:
			l = append(l, map[string]any{"a": int(v % 100), "b": map[string]any{"c": nil}})
		case 6:
			l = append(l, -1.5*float64(v%1000))
		case 7:
			l = append(l, v>>1, -int64(v>>1), v|1<<63)
		case 8:
			l = append(l, P06{A: int(v % 1000), S: "s", L: []string{"a"}, M: map[string]int{"x": 1}})
		}
	}
	return l
}

func run26(c *eng.C, s sc26) error {
	if s.Servers < 1 || s.Servers > 8 || s.Conns < 0 || s.Conns > 100 || len(s.Groups) == 0 {
		return eng.Discard
	}
	for i, g := range s.Groups {
		for _, h := range s.Groups[:i] {
			if g == h {
				return eng.Discard
			}
		}
	}
	return InBubble(c, func(b *B) error {
		var y *Yield
		if s.YP > 0 {
			y = NewYield(s.Y, s.YP)
		}
		w := &w26{}
		red := NewRedis()
		var srvs []signalr.Server
		for i := 0; i < s.Servers; i++ {
			srv, err := signalr.NewServer(b.Ctx, Quiet(y), signalr.HubFactory(func() signalr.HubInterface { return &hub26{w: w} }),
				signalr.KeepAliveInterval(10000*time.Hour), signalr.TimeoutInterval(10000*time.Hour), red.Backplane(b, fmt.Sprint("s", i), y))
			if err != nil {
				return err
			}
			srvs = append(srvs, srv)
		}
		b.Wait()
		type conn struct {
			raw   *Raw
			srv   *End
			sv    *Served
			state int // 0 not yet, 1 connected, 2 ended
			proto string
			s     int
			stuck bool
			seen  int
		}
		conns := make([]conn, s.Conns)
		id := func(i int) string {
			switch i {
			case -1:
				return ""
			case -2:
				return "nobody"
			case -3:
				return "*"
			}
			return fmt.Sprint("conn", i)
		}
		member := map[[2]int]tri{}
		foreign := map[[2]int]bool{} // added by a hub of another server
		type send struct {
			op   op26
			args []any
			must map[int]bool
			may  map[int]bool
			n    int
			name string
		}
		num := 0
		for step, ops := range s.Steps {
			trans := map[int]string{}
			acts := map[int]bool{}
			var run []op26
			wait := time.Duration(0)
			for _, o := range ops {
				if o.N < 0 || o.N > 1000 || o.G < 0 || o.G >= len(s.Groups) || o.S < 0 || o.S >= s.Servers {
					return eng.Discard
				}
				switch o.K {
				case "conn":
					if o.C < 0 || o.C >= s.Conns || o.P != "json" && o.P != "messagepack" {
						return eng.Discard
					}
					if conns[o.C].state == 1 || conns[o.C].stuck || trans[o.C] != "" {
						continue
					}
					trans[o.C] = "conn"
				case "end":
					if o.C < 0 || o.C >= s.Conns {
						return eng.Discard
					}
					if conns[o.C].state != 1 || trans[o.C] != "" || acts[o.C] {
						continue
					}
					trans[o.C] = "end"
				case "stuck":
					if o.C < 0 || o.C >= s.Conns {
						return eng.Discard
					}
					if conns[o.C].state != 1 || conns[o.C].stuck || trans[o.C] != "" || acts[o.C] {
						continue
					}
				case "drop", "down", "pause":
					if len(run) > 0 {
						continue
					}
					// Only this happens in this step
					wait = 30 * time.Second
					if o.K == "pause" {
						wait = time.Duration(1+o.V%30) * time.Hour
						c.Label("hours pass")
					}
				case "add", "remove", "all", "client", "group", "caller":
					if o.C < -s.Servers || o.C >= s.Conns || o.I < -3 || o.I >= s.Conns {
						return eng.Discard
					}
					if o.C >= 0 && (conns[o.C].state != 1 || conns[o.C].stuck || trans[o.C] == "end") || o.C < 0 && o.K == "caller" {
						continue
					}
					if (o.K == "add" || o.K == "remove") && o.C < 0 && o.K == "add" {
						// only hubs have groups
						continue
					}
					if (o.K == "add" || o.K == "remove") && (o.I < 0 || o.C < 0 || conns[o.I].state != 1) {
						continue
					}
					if o.C >= 0 {
						acts[o.C] = true
					}
				default:
					return eng.Discard
				}
				run = append(run, o)
				if wait > 0 {
					break
				}
			}
			seq := len(run) == 1
			before := map[[2]int]tri{}
			for k, v := range member {
				before[k] = v
			}
			adds, removes := map[[2]int]int{}, map[[2]int]int{}
			for _, o := range run {
				switch o.K {
				case "add":
					adds[[2]int{o.G, o.I}]++
					if conns[o.C].s != conns[o.I].s {
						foreign[[2]int{o.G, o.I}] = true
					}
				case "remove":
					removes[[2]int{o.G, o.I}]++
				}
			}
			var sent []*send
			var start []func()
			for _, o := range run {
				switch o.K {
				case "conn":
					x := &conns[o.C]
					if x.state == 2 {
						c.Label("id comes back")
					}
					x.proto, x.s, x.seen = o.P, o.S, 0
					srv, cli := NewPipe(b.Ctx, id(o.C), id(o.C)+"-peer")
					x.srv, x.raw = srv, &Raw{End: cli, Proto: o.P}
					b.Cleanup(func() { srv.CloseWith(nil); cli.CloseWith(nil) })
					start = append(start, func() {
						x.sv = Serve(srvs[o.S], srv)
						_, _ = x.raw.Write(Handshake(o.P))
					})
				case "end":
					x := &conns[o.C]
					start = append(start, func() { x.raw.CloseWith(nil) })
				case "stuck":
					x := &conns[o.C]
					x.stuck = true
					x.srv.SetWriteCap(1)
					x.raw.StallRead(true)
					c.Label("stuck")
				case "drop":
					start = append(start, func() { red.Drop(fmt.Sprint("s", o.S)) })
					c.Label("redis connections of a server cut")
				case "pause":
				case "down":
					start = append(start, func() {
						red.Down(true)
						b.Sleep(time.Duration(o.V%20) * time.Second)
						red.Down(false)
					})
					c.Label("redis down")
				default:
					k := [2]int{o.G, o.I}
					if seq && o.K == "add" {
						member[k] = yes
					}
					if seq && o.K == "remove" {
						member[k], foreign[k] = no, false
					}
					var mine []*send
					if o.K != "add" && o.K != "remove" {
						for j := 0; j <= o.N; j++ {
							x := &send{op: o, args: args26(o.V), must: map[int]bool{}, may: map[int]bool{}, n: num, name: fmt.Sprint("note", num)}
							num++
							for i := range conns {
								sure := conns[i].state == 1 && trans[i] != "end"
								might := conns[i].state == 1 || trans[i] == "conn"
								switch o.K {
								case "client":
									if i != o.I {
										continue
									}
								case "caller":
									if i != o.C {
										continue
									}
								case "group":
									g := [2]int{o.G, i}
									sure = sure && before[g] == yes && removes[g] == 0
									might = might && (before[g] != no || adds[g] > 0)
								}
								if sure && !conns[i].stuck {
									x.must[i] = true
								}
								if might {
									x.may[i] = true
								}
							}
							sent = append(sent, x)
							mine = append(mine, x)
							away := 0
							for i := range x.must {
								if o.C >= 0 && conns[i].s != conns[o.C].s || o.C < 0 && conns[i].s != -1-o.C {
									away++
								}
							}
							if away > 0 {
								c.NonTrivial()
							}
							c.Label("%s remote=%v local=%v", o.K, away > 0, len(x.must) > away)
						}
					}
					do := func(cl signalr.HubClients, g signalr.GroupManager) {
						for j := 0; j <= o.N; j++ {
							switch o.K {
							case "add":
								g.AddToGroup(s.Groups[o.G], id(o.I))
							case "remove":
								g.RemoveFromGroup(s.Groups[o.G], id(o.I))
							case "all":
								cl.All().Send(mine[j].name, mine[j].args...)
							case "client":
								cl.Client(id(o.I)).Send(mine[j].name, mine[j].args...)
							case "group":
								cl.Group(s.Groups[o.G]).Send(mine[j].name, mine[j].args...)
							case "caller":
								cl.Caller().Send(mine[j].name, mine[j].args...)
							}
						}
					}
					if o.C < 0 {
						start = append(start, func() { do(srvs[-1-o.C].HubClients(), nil) })
						break
					}
					key := fmt.Sprintf("k%d.%d", step, len(start))
					w.act.Store(key, func(h *hub26) { do(h.Clients(), h.Groups()) })
					x := &conns[o.C]
					start = append(start, func() { x.raw.Send(Msg{Type: 1, Target: "Act", Args: []any{key}}) })
				}
			}
			if !seq {
				for k := range adds {
					if removes[k] == 0 && trans[k[1]] != "end" {
						member[k] = yes
					} else {
						// What is known of the groups for the end of the connection might differ from what holds
						member[k], foreign[k] = maybe, true
					}
				}
				for k := range removes {
					if adds[k] == 0 {
						member[k], foreign[k] = no, false
					}
				}
			}
			for _, f := range start {
				if f != nil {
					f()
				}
			}
			b.Wait()
			// The client of Redis waits before it tries again
			b.Sleep(max(wait, 2*time.Second))
			for i, t := range trans {
				switch t {
				case "conn":
					conns[i].state = 1
					_, _ = conns[i].raw.HandshakeFrame()
				case "end":
					conns[i].state = 2
					for k := range member {
						switch {
						case k[1] != i:
						case adds[k] > 0 || foreign[k]:
							// What another server, or a hub which came too late, has added might stay
							member[k], foreign[k] = maybe, true
						default:
							member[k] = no
						}
					}
				}
			}
			// What has arrived?
			got := make([]map[string]int, len(conns))
			byName := map[string]*send{}
			for _, x := range sent {
				byName[x.name] = x
			}
			for i := range conns {
				x := &conns[i]
				got[i] = map[string]int{}
				if x.state == 0 || x.stuck {
					continue
				}
				if x.state == 1 && x.sv.Ended() {
					return eng.Errf("step %d %+v: connection %d (%s at server %d) has ended: %v", step, run, i, x.proto, x.s, x.sv.Err)
				}
				l, err := x.raw.Messages()
				if err != nil && x.state == 1 {
					return eng.Errf("step %d %+v: connection %d received: %v", step, run, i, err)
				}
				for _, m := range l[min(x.seen, len(l)):] {
					if m.Type == 6 || m.Type == 7 && x.state == 2 {
						continue
					}
					o := byName[m.Target]
					if m.Type != 1 || o == nil {
						return eng.Errf("step %d %+v: connection %d got the unexpected message %v", step, run, i, m)
					}
					if m.HasID && m.ID != "" {
						return eng.Errf("step %d %+v: connection %d is asked for an answer to %v", step, run, i, m)
					}
					if !o.may[i] {
						return eng.Errf("step %d %+v: connection %d got %v of %+v, which is not for it", step, run, i, m, o.op)
					}
					ok := len(m.Args) == len(o.args)
					for j := 0; ok && j < len(o.args); j++ {
						if o.args[j] == nil {
							ok = m.Args[j] == nil
						} else {
							ok = Same(m.Args[j], Tree(o.args[j]), false)
						}
					}
					if !ok {
						return eng.Errf("step %d %+v: connection %d (%s) got %v instead of the arguments %v", step, run, i, x.proto, m, o.args)
					}
					if got[i][m.Target]++; got[i][m.Target] > 1 {
						return eng.Errf("step %d %+v: connection %d got %v twice", step, run, i, m)
					}
				}
				x.seen = len(l)
			}
			for _, o := range sent {
				for i := range o.must {
					if got[i][o.name] == 0 && !conns[i].stuck {
						return eng.Errf("step %d %+v: connection %d (%s at server %d) did not get %s of %+v", step, run, i, conns[i].proto, conns[i].s, o.name, o.op)
					}
				}
			}
		}
		return nil
	})
}

// storm26: hubs change the groups of the same connections at the same time.
type storm26 struct {
	Servers int
	Targets int
	Actors  []string // what each does with its own group, for its target: a add, r remove
	Repeat  int
	Y       uint64 `json:",omitempty"`
}

func genStorm26(r *eng.R) storm26 {
	s := storm26{Servers: r.N(1, 2), Targets: r.N(1, 2), Repeat: eng.Pick(r, 1, 10, 30)}
	if r.P(0.3) {
		s.Y = r.Uint64() | 1
	}
	for i := r.N(2, 12); i > 0; i-- {
		var b strings.Builder
		for j := r.N(1, 12); j > 0; j-- {
			b.WriteString(eng.Pick(r, "a", "a", "r"))
		}
		s.Actors = append(s.Actors, b.String())
	}
	return s
}

func runStorm26(c *eng.C, s storm26) error {
	if s.Servers < 1 || s.Servers > 4 || s.Targets < 1 || s.Targets > 8 || s.Repeat < 1 || s.Repeat > 100 || len(s.Actors) == 0 || len(s.Actors) > 50 {
		return eng.Discard
	}
	return InBubble(c, func(b *B) error {
		var y *Yield
		if s.Y != 0 {
			y = NewYield(s.Y, 20)
		}
		w := &w26{}
		red := NewRedis()
		var srvs []signalr.Server
		for i := 0; i < s.Servers; i++ {
			srv, err := signalr.NewServer(b.Ctx, Quiet(y), signalr.HubFactory(func() signalr.HubInterface { return &hub26{w: w} }),
				signalr.KeepAliveInterval(10000*time.Hour), signalr.TimeoutInterval(10000*time.Hour), red.Backplane(b, fmt.Sprint("s", i), y))
			if err != nil {
				return err
			}
			srvs = append(srvs, srv)
		}
		b.Wait()
		var targets []*Raw
		for i := 0; i < s.Targets; i++ {
			r, _ := b.Connect(srvs[i%s.Servers], fmt.Sprint("t", i), protos[i%2])
			targets = append(targets, r)
		}
		ctl, _ := b.Connect(srvs[0], "ctl", "json")
		go1 := make(chan struct{})
		want := make([]bool, len(s.Actors))
		for i, a := range s.Actors {
			if strings.Trim(a, "ar") != "" || a == "" || len(a) > 1000 {
				return eng.Discard
			}
			want[i] = a[len(a)-1] == 'a'
			w.act.Store(fmt.Sprint("k", i), func(h *hub26) {
				<-go1
				g, id := h.Groups(), fmt.Sprint("t", i%s.Targets)
				for k := 0; k < s.Repeat; k++ {
					for _, x := range a {
						if x == 'a' {
							g.AddToGroup(fmt.Sprint("group", i), id)
						} else {
							g.RemoveFromGroup(fmt.Sprint("group", i), id)
						}
					}
				}
			})
			ctl.Send(Msg{Type: 1, Target: "Act", ID: fmt.Sprint("k", i), HasID: true, Args: []any{fmt.Sprint("k", i)}})
		}
		b.Wait()
		close(go1)
		b.Sleep(2 * time.Second)
		l, err := ctl.New()
		if err != nil || len(l) != len(s.Actors) {
			return eng.Errf("answers of the actors are %v, %v", l, err)
		}
		for i := range s.Actors {
			srvs[(i+1)%s.Servers].HubClients().Group(fmt.Sprint("group", i)).Send("note", i)
		}
		b.Sleep(2 * time.Second)
		for t, raw := range targets {
			l, err := raw.New()
			if err != nil {
				return err
			}
			got := map[string]int{}
			for _, m := range l {
				if m.Type != 1 || len(m.Args) != 1 {
					return eng.Errf("target %d got %v", t, m)
				}
				got[fmt.Sprint(m.Args[0])]++
			}
			for i := range s.Actors {
				n := 0
				if want[i] && i%s.Targets == t {
					n = 1
				}
				if got[fmt.Sprint(i)] != n {
					return eng.Errf("target %d got %d messages to the group of actor %d instead of %d", t, got[fmt.Sprint(i)], i, n)
				}
			}
		}
		if len(s.Actors) > 2 && s.Servers > 1 {
			c.NonTrivial()
		}
		return nil
	})
}

func init() {
	eng.Register(&eng.Check{
		ID:   "C26",
		Rule: "a case is non-trivial when a message had to reach a connection of another server",
		Families: []eng.Family{
			eng.Fam("servers", 3000, 40000, gen26, run26),
			eng.Fam("storm", 300, 4000, genStorm26, runStorm26),
		},
	})
}
