package checks

import (
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"time"
	"weak"

	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// p14 is one call of the sending or grouping API.
type p14 struct {
	K    string // all caller client group add remove
	I    int    `json:",omitempty"` // connection
	G    int    `json:",omitempty"` // group
	T    string `json:",omitempty"` // target
	N    int    `json:",omitempty"` // repetitions of add
	Args []TV   `json:",omitempty"`
}

// o14 is one operation of a step.
type o14 struct {
	K     string // conn half shake end act server late onconn
	C     int    // connection
	Proto string `json:",omitempty"`
	How   int    `json:",omitempty"` // way to end
	P     []p14  `json:",omitempty"` // act server late: what is done; conn: what OnConnected does
}

type sc14 struct {
	Hub    int      // 0 factory 1 per connection 2 simple 3 use
	IDs    []string // names of connections. The ones without a connection are unknown
	Groups []string
	Steps  [][]o14
	Yield  uint64
	Mgr    int `json:",omitempty"` // 1 the application has its own HubLifetimeManager (option first), 2 option last
}

type w14 struct {
	acts map[string]func(h *hub14)
	on   map[string]func(h *hub14)
	late map[string]signalr.HubClients
	mx   sync.Mutex
}

type hub14 struct {
	signalr.Hub
	w *w14
}

var world14 *w14 // for SimpleHubFactory

func (h *hub14) world() *w14 {
	if h.w != nil {
		return h.w
	}
	return world14
}

func (h *hub14) OnConnected(id string) {
	w := h.world()
	w.mx.Lock()
	f := w.on[id]
	w.mx.Unlock()
	if f != nil {
		f(h)
	}
}
func (h *hub14) Act(key string) string {
	w := h.world()
	w.mx.Lock()
	f := w.acts[key]
	w.mx.Unlock()
	f(h)
	return key
}
func (h *hub14) Quit() { h.Abort() }

type tri int

const (
	no tri = iota
	yes
	maybe
)

// send14 is a send which was made, with the connections which must or may get it.
type send14 struct {
	p    p14
	args []any
	must map[int]bool
	may  map[int]bool
}

func (s *send14) String() string {
	return fmt.Sprintf("%s(%d,%d).Send(%q, %.200v)", s.p.K, s.p.I, s.p.G, s.p.T, s.args)
}

func run14(c *eng.C, s sc14) error {
	if s.Hub < 0 || s.Hub > 3 || s.Mgr < 0 || s.Mgr > 2 || len(s.IDs) > 200 || len(s.Groups) > 100 {
		return eng.Discard
	}
	seen := map[string]bool{}
	for _, id := range s.IDs {
		if seen[id] {
			return eng.Discard
		}
		seen[id] = true
	}
	return InBubble(c, func(b *B) error { return exec14(c, b, s) })
}

func exec14(c *eng.C, b *B, s sc14) error {
	w := &w14{acts: map[string]func(h *hub14){}, on: map[string]func(h *hub14){}, late: map[string]signalr.HubClients{}}
	world14 = w
	var y *Yield
	if s.Yield != 0 {
		y = NewYield(s.Yield, 30)
	}
	opts := []func(signalr.Party) error{Quiet(y), signalr.KeepAliveInterval(10000 * time.Hour), signalr.TimeoutInterval(10000 * time.Hour)}
	switch s.Hub {
	case 0:
		opts = append(opts, signalr.HubFactory(func() signalr.HubInterface { return &hub14{w: w} }))
	case 1:
		opts = append(opts, signalr.PerConnectionHubFactory(func(string) signalr.HubInterface { return &hub14{w: w} }))
	case 2:
		opts = append(opts, signalr.SimpleHubFactory(&hub14{}))
	case 3:
		opts = append(opts, signalr.UseHub(&hub14{w: w}))
	}
	mgr := newMgr14()
	switch s.Mgr {
	case 1:
		opts = append([]func(signalr.Party) error{mgr.option(nil)}, opts...)
	case 2:
		no := errors.New("no manager")
		if srv, err := signalr.NewServer(b.Ctx, append([]func(signalr.Party) error{newMgr14().option(no)}, opts...)...); srv != nil || !errors.Is(err, no) {
			return eng.Errf("NewServer with a manager which can not be made: %v %v", srv, err)
		}
		opts = append(opts, mgr.option(nil))
	}
	srv, err := signalr.NewServer(b.Ctx, opts...)
	if err != nil {
		return err
	}
	type conn struct {
		raw   *Raw
		sv    *Served
		state int // 0 not connected 1 half 2 connected
		proto string
	}
	conns := make([]conn, len(s.IDs))
	member := map[[2]int]tri{} // group, connection
	type old struct {
		i   int
		raw *Raw
		n   int
	}
	var olds []old
	idOf := func(i int) string {
		if i >= 0 && i < len(s.IDs) {
			return s.IDs[i]
		}
		return fmt.Sprint("nobody", i)
	}
	groupOf := func(g int) string {
		if g >= 0 && g < len(s.Groups) {
			return s.Groups[g]
		}
		return fmt.Sprint("nogroup", g)
	}
	sends, delivered := 0, 0
	var weaks []weak.Pointer[conn15]
	var names []string
	for step, ops := range s.Steps {
		if s.Hub == 3 && len(ops) > 1 {
			ops = ops[:1]
		}
		// What changes in this step
		trans := map[int]string{}
		starts := map[int]bool{}
		var todo []o14
		for _, o := range ops {
			if o.C < 0 || o.C >= len(conns) {
				continue
			}
			switch o.K {
			case "conn", "half":
				if conns[o.C].state != 0 || trans[o.C] != "" || o.Proto != "json" && o.Proto != "messagepack" {
					continue
				}
				trans[o.C] = o.K
			case "shake":
				if conns[o.C].state != 1 || trans[o.C] != "" {
					continue
				}
				trans[o.C] = "conn"
			case "end":
				if conns[o.C].state == 0 || trans[o.C] != "" {
					continue
				}
				if conns[o.C].state == 1 {
					trans[o.C] = "endhalf"
				} else {
					trans[o.C] = "end"
				}
			case "act":
				if conns[o.C].state != 2 || starts[o.C] {
					continue
				}
				starts[o.C] = true
			case "late":
				if w.late[idOf(o.C)] == nil {
					continue
				}
			case "server":
			default:
				continue
			}
			if (o.K == "act" || o.K == "conn" && len(o.P) > 0) && trans[o.C] == "end" {
				continue // it might not run any more
			}
			todo = append(todo, o)
		}
		for _, o := range todo {
			// an end chosen after an act of the same connection
			if o.K == "act" && trans[o.C] == "end" {
				trans[o.C] = ""
			}
		}
		var run []o14
		for _, o := range todo {
			if o.K == "end" && conns[o.C].state == 2 && trans[o.C] != "end" {
				continue
			}
			run = append(run, o)
		}
		// The changes of groups
		adds, removes := map[[2]int]int{}, map[[2]int]int{}
		for _, o := range run {
			for _, p := range o.P {
				switch p.K {
				case "add":
					adds[[2]int{p.G, p.I}]++
				case "remove":
					removes[[2]int{p.G, p.I}]++
				}
			}
		}
		seq := len(run) == 1 // the operations happen one after the other
		var sent []*send14
		before := map[[2]int]tri{}
		for k, v := range member {
			before[k] = v
		}
		apply := func(o o14, p p14) {
			k := [2]int{p.G, p.I}
			in := p.I >= 0 && p.I < len(conns)
			connected := in && (conns[p.I].state == 2 || o.K == "conn" && o.C == p.I)
			switch p.K {
			case "add", "remove":
				if seq && in {
					if p.K == "remove" {
						member[k] = no
					} else if connected {
						member[k] = yes
					}
				}
				return
			}
			x := &send14{p: p, must: map[int]bool{}, may: map[int]bool{}}
			for i := range conns {
				self := o.K == "conn" && o.C == i
				was := conns[i].state == 2 && trans[i] != "end"
				might := conns[i].state == 2 || trans[i] == "conn"
				sure := was || self
				switch p.K {
				case "all":
				case "caller":
					if i != o.C {
						continue
					}
				case "client":
					if i != p.I {
						continue
					}
				case "group":
					g := [2]int{p.G, i}
					if seq {
						sure = sure && member[g] == yes
						might = might && member[g] != no
					} else {
						sure = sure && before[g] == yes && removes[g] == 0
						might = might && (before[g] != no || adds[g] > 0)
					}
				}
				if sure {
					x.must[i] = true
				}
				if might || sure {
					x.may[i] = true
				}
			}
			sent = append(sent, x)
		}
		args := func(p p14) ([]any, bool) {
			var l []any
			for _, t := range p.Args {
				v, ok := t.Value()
				if !ok {
					return nil, false
				}
				l = append(l, v.Interface())
			}
			return l, true
		}
		do := func(cl signalr.HubClients, gr signalr.GroupManager, ps []p14) {
			for _, p := range ps {
				a, _ := args(p)
				switch p.K {
				case "all":
					cl.All().Send(p.T, a...)
				case "caller":
					cl.Caller().Send(p.T, a...)
				case "client":
					cl.Client(idOf(p.I)).Send(p.T, a...)
				case "group":
					cl.Group(groupOf(p.G)).Send(p.T, a...)
				case "add":
					for k := 0; k < p.N+1; k++ {
						gr.AddToGroup(groupOf(p.G), idOf(p.I))
					}
				case "remove":
					gr.RemoveFromGroup(groupOf(p.G), idOf(p.I))
				}
			}
		}
		for _, o := range run {
			for _, p := range o.P {
				if _, ok := args(p); !ok {
					return eng.Discard
				}
				switch p.K {
				case "all", "caller", "client", "group", "add", "remove":
				default:
					return eng.Discard
				}
				if p.N < 0 || p.N > 10000 || p.G < 0 || p.G > len(s.Groups)+2 {
					return eng.Discard
				}
				if p.K == "caller" && o.K == "server" || (p.K == "add" || p.K == "remove") && (o.K == "server" || o.K == "late") {
					return eng.Discard
				}
				if o.K == "shake" {
					return eng.Discard
				}
				apply(o, p)
			}
		}
		// The membership afterwards
		for g := range len(s.Groups) + 3 {
			for i := range conns {
				k := [2]int{g, i}
				switch trans[i] {
				case "end":
					member[k] = no
				case "conn":
					member[k] = no
					own := 0
					for _, o := range run {
						if o.K == "conn" && o.C == i {
							for _, p := range o.P {
								if p.K == "add" && p.G == g && p.I == i {
									own++
								}
							}
						}
					}
					switch {
					case own > 0 && removes[k] == 0:
						member[k] = yes
					case seq && own > 0:
						member[k] = no
						for _, p := range run[0].P {
							if p.G == g && p.I == i && p.K == "add" {
								member[k] = yes
							} else if p.G == g && p.I == i && p.K == "remove" {
								member[k] = no
							}
						}
					case adds[k] > 0:
						member[k] = maybe
					}
				default:
					if conns[i].state == 2 && !seq {
						switch {
						case adds[k] > 0 && removes[k] > 0:
							member[k] = maybe
						case adds[k] > 0:
							member[k] = yes
						case removes[k] > 0:
							member[k] = no
						}
					}
				}
			}
		}
		// Now do it
		var wait []chan struct{}
		answers := map[int]string{}
		for n, o := range run {
			o := o
			id := idOf(o.C)
			cn := &conns[o.C]
			switch o.K {
			case "conn", "half":
				w.mx.Lock()
				w.on[id] = func(h *hub14) {
					w.mx.Lock()
					w.late[id] = h.Clients()
					w.mx.Unlock()
					do(h.Clients(), h.Groups(), o.P)
				}
				w.mx.Unlock()
				own, peer := NewPipe(b.Ctx, id, "peer")
				cc := &conn15{own}
				weaks = append(weaks, weak.Make(cc))
				names = append(names, id)
				*cn = conn{raw: &Raw{End: peer, Proto: o.Proto}, sv: Serve(srv, cc), state: 1, proto: o.Proto}
				b.Cleanup(func() { peer.CloseWith(nil) })
				if o.K == "conn" {
					_, _ = peer.Write(Handshake(o.Proto))
				}
			case "shake":
				_, _ = cn.raw.Write(Handshake(cn.proto))
			case "end":
				switch o.How {
				case 0:
					cn.raw.CloseWith(io.EOF)
				case 1:
					cn.raw.CloseWith(io.ErrUnexpectedEOF)
				case 2:
					if cn.state == 1 {
						cn.raw.CloseWith(io.EOF)
					} else {
						cn.raw.Send(Msg{Type: 7})
					}
				case 3:
					if cn.state == 1 {
						cn.raw.CloseWith(io.EOF)
					} else {
						cn.raw.Send(Msg{Type: 1, Target: "Quit", Args: []any{}})
					}
				default:
					if cn.state == 1 {
						cn.raw.CloseWith(io.EOF)
					} else {
						_, _ = cn.raw.Write([]byte("\x03\xc1\xc1\xc1\x1e\x1e"))
					}
				}
			case "act":
				key := fmt.Sprintf("act%d.%d", step, n)
				w.mx.Lock()
				w.acts[key] = func(h *hub14) { do(h.Clients(), h.Groups(), o.P) }
				w.mx.Unlock()
				answers[o.C] = key
				cn.raw.Send(Msg{Type: 1, ID: key, HasID: true, Target: "Act", Args: []any{key}})
			case "server", "late":
				cl := srv.HubClients()
				if o.K == "late" {
					w.mx.Lock()
					cl = w.late[id]
					w.mx.Unlock()
				}
				ch := make(chan struct{})
				wait = append(wait, ch)
				go func() {
					do(cl, nil, o.P)
					close(ch)
				}()
			}
		}
		for _, ch := range wait {
			<-ch
		}
		b.Wait()
		// Compare
		for i := range conns {
			cn := &conns[i]
			switch trans[i] {
			case "conn":
				cn.state = 2
				if f, ok := cn.raw.HandshakeFrame(); !ok || f != "{}" {
					return eng.Errf("step %d: connection %q: handshake response %q", step, idOf(i), f)
				}
			}
			if cn.state == 0 {
				continue
			}
			if cn.state == 1 && trans[i] != "endhalf" {
				if got := cn.raw.Received(); len(got) > 0 {
					return eng.Errf("step %d: connection %q got %q before its handshake", step, idOf(i), got)
				}
				continue
			}
			if trans[i] != "end" && trans[i] != "endhalf" && cn.sv.Ended() {
				return eng.Errf("step %d: connection %q has ended with %v", step, idOf(i), cn.sv.Err)
			}
			got, err := cn.raw.New()
			if err != nil && trans[i] != "end" {
				return eng.Errf("step %d: connection %q: %v", step, idOf(i), err)
			}
			var inv []Msg
			done := 0
			for _, m := range got {
				switch {
				case m.Type == 3 && m.ID == answers[i] && m.Error == "":
					done++
				case m.Type == 1:
					inv = append(inv, m)
				case m.Type == 7 && trans[i] == "end":
				default:
					return eng.Errf("step %d: connection %q gets %v", step, idOf(i), m)
				}
			}
			if answers[i] != "" && done != 1 {
				return eng.Errf("step %d: connection %q gets %d answers for its call", step, idOf(i), done)
			}
			var must, may []*send14
			for _, x := range sent {
				if x.must[i] {
					must = append(must, x)
				} else if x.may[i] {
					may = append(may, x)
				}
			}
			fits := func(m Msg, x *send14) bool {
				if m.Target != x.p.T || m.HasID && m.ID != "" || len(m.StreamIDs) > 0 || len(m.Args) != len(x.p.Args) {
					return false
				}
				for k, t := range x.p.Args {
					v, _ := t.Value()
					if !SameWire(v.Interface(), m.Args[k]) {
						return false
					}
				}
				return true
			}
			for _, x := range must {
				found := -1
				for k, m := range inv {
					if fits(m, x) {
						found = k
						break
					}
				}
				if found < 0 {
					return eng.Errf("step %d: %v does not arrive at connection %q %d, arrived: %v", step, describe14(x, groupOf, idOf), idOf(i), i, inv)
				}
				inv = append(inv[:found:found], inv[found+1:]...)
			}
			for _, m := range inv {
				found := -1
				for k, x := range may {
					if fits(m, x) {
						found = k
						break
					}
				}
				if found < 0 {
					return eng.Errf("step %d: connection %q %d gets %v, which was not sent to it (or twice)", step, idOf(i), i, m)
				}
				may = append(may[:found:found], may[found+1:]...)
				c.Label("delivery in a race")
			}
			c.LabelN("deliveries", len(must))
			delivered += len(must)
			if len(sent) > 0 && len(must) == 0 && len(conns) > 1 {
				c.Label("not addressed")
			}
			if trans[i] == "end" || trans[i] == "endhalf" {
				if trans[i] == "end" && !cn.sv.Ended() {
					return eng.Errf("step %d: Serve of connection %q does not return", step, idOf(i))
				}
				cn.raw.CloseWith(nil)
				olds = append(olds, old{i, cn.raw, len(cn.raw.Received())})
				cn.state = 0
			}
		}
		for _, o := range olds {
			if n := len(o.raw.Received()); n != o.n {
				return eng.Errf("step %d: ended connection %q gets %d more bytes", step, idOf(o.i), n-o.n)
			}
		}
		sends += len(sent)
	}
	mgr.mx.Lock()
	wrong, n := mgr.wrong, mgr.calls
	mgr.mx.Unlock()
	if len(wrong) > 0 {
		return eng.Errf("the HubLifetimeManager: %s", wrong[0])
	}
	if s.Mgr > 0 && n < delivered {
		return eng.Errf("%d messages were delivered, but only %d by the application's HubLifetimeManager", delivered, n)
	}
	c.LabelN("sent by the application's manager", n)
	if sends > 0 {
		c.NonTrivial()
	}
	if s.Yield%4 != 1 || s.Hub == 3 {
		return nil
	}
	// Ended connections are in no group and not addressed by any send, so nothing keeps them
	for i := range conns {
		if conns[i].raw != nil {
			conns[i].raw.CloseWith(io.EOF)
		}
	}
	b.Sleep(20 * time.Second)
	w.mx.Lock()
	w.acts, w.on, w.late = nil, nil, nil
	w.mx.Unlock()
	kept := ""
	for k := 0; k < 5; k++ {
		runtime.GC()
		kept = ""
		for i, x := range weaks {
			if x.Value() != nil {
				kept += fmt.Sprintf("%q ", names[i])
			}
		}
		if kept == "" {
			break
		}
	}
	if kept != "" {
		return eng.Errf("all connections have ended, but the server keeps %s", kept)
	}
	c.Label("nothing kept")
	runtime.KeepAlive(srv)
	return nil
}

func describe14(x *send14, groupOf, idOf func(int) string) string {
	switch x.p.K {
	case "client":
		return fmt.Sprintf("Client(%q).Send(%q, %d args)", idOf(x.p.I), x.p.T, len(x.p.Args))
	case "group":
		return fmt.Sprintf("Group(%q).Send(%q, %d args)", groupOf(x.p.G), x.p.T, len(x.p.Args))
	}
	return fmt.Sprintf("%s.Send(%q, %d args)", x.p.K, x.p.T, len(x.p.Args))
}

// names14 generates different names, some of them similar.
func names14(r *eng.R, n int, prefix string) []string {
	seen := map[string]bool{}
	var l []string
	add := func(s string) {
		if !seen[s] && len(l) < n {
			seen[s] = true
			l = append(l, s)
		}
	}
	for len(l) < n {
		switch r.IntN(8) {
		case 0:
			add(GenString(r, 30))
		case 1:
			if len(l) > 0 {
				x := l[r.IntN(len(l))]
				add(eng.Pick(r, strings.ToUpper(x), strings.ToLower(x), x+" ", " "+x, x+x, x+"\x00"))
			}
		case 2:
			add(eng.Pick(r, "", "*", "all", ".*", "%", "a/b", "a", "A", "ä", "a\u0308", "same", "same ", "0", "00"))
		default:
			add(fmt.Sprint(prefix, len(l)))
		}
	}
	return l
}

func gen14(r *eng.R) sc14 {
	s := sc14{Hub: r.Weighted(4, 4, 2, 2), Mgr: r.Weighted(8, 1, 1)}
	n := r.N(1, 6)
	if r.P(0.1) {
		n = r.N(10, 40)
	}
	s.IDs = names14(r, n, "c")
	s.Groups = names14(r, r.N(1, 4), "g")
	if r.P(0.2) { // groups with the names of connections
		seen := map[string]bool{}
		for _, g := range s.Groups {
			seen[g] = true
		}
		for _, id := range s.IDs[:min(len(s.IDs), 3)] {
			if !seen[id] {
				s.Groups = append(s.Groups, id)
			}
		}
	}
	if r.P(0.4) {
		s.Yield = r.Uint64() | 1
	}
	state := make([]int, n)
	prims := func(kind string) []p14 {
		var l []p14
		for k := r.N(1, 4); k > 0; k-- {
			p := p14{I: r.IntN(n), G: r.IntN(len(s.Groups))}
			if r.P(0.05) {
				p.I = n + r.IntN(3)
			}
			if r.P(0.05) {
				p.G = len(s.Groups) + r.IntN(2)
			}
			switch kind {
			case "act":
				p.K = eng.Pick(r, "all", "caller", "client", "client", "group", "group", "group", "add", "add", "add", "remove", "remove")
			case "late":
				p.K = eng.Pick(r, "all", "caller", "client", "group", "group")
			case "server":
				p.K = eng.Pick(r, "all", "client", "group", "group")
			}
			if p.K != "add" && p.K != "remove" {
				p.T = "t" + fmt.Sprint(r.IntN(1000000))
				if r.P(0.2) {
					p.T = GenString(r, 20)
				}
				if r.P(0.7) {
					p.Args = GenTVs(r, r.N(0, 3), 4)
				}
			}
			l = append(l, p)
		}
		return l
	}
	steps := r.N(2, 14)
	if r.P(0.1) {
		steps = r.N(20, 60)
	}
	for k := 0; k < steps; k++ {
		var ops []o14
		m := 1
		if r.P(0.5) {
			m = r.N(1, 6)
		}
		if k == 0 {
			m = r.N(1, n)
		}
		for j := 0; j < m; j++ {
			i := r.IntN(n)
			o := o14{C: i}
			switch state[i] {
			case 0:
				o.Proto = protos[r.IntN(2)]
				switch {
				case r.P(0.12):
					o.K = "half"
					state[i] = 1
				case r.P(0.85) || k == 0:
					o.K = "conn"
					state[i] = 2
					if r.P(0.5) {
						o.P = prims("act")
						for x := range o.P {
							if r.P(0.5) {
								o.P[x].I = i
							}
						}
					}
				case r.P(0.5):
					o.K, o.P = "server", prims("server")
				default:
					o.K, o.P = "late", prims("late")
				}
			case 1:
				if r.P(0.5) {
					o.K = "shake"
					state[i] = 2
				} else {
					o.K, o.How = "end", r.IntN(2)
					state[i] = 0
				}
			default:
				switch {
				case r.P(0.15):
					o.K, o.How = "end", r.IntN(5)
					state[i] = 0
				case r.P(0.2):
					o.K, o.P = "server", prims("server")
				case r.P(0.15):
					o.K, o.P = "late", prims("late")
				default:
					o.K, o.P = "act", prims("act")
				}
			}
			ops = append(ops, o)
		}
		s.Steps = append(s.Steps, ops)
	}
	return s
}

// genRaces14 lets connections end, connect and change groups at the same time, again and again.
func genRaces14(r *eng.R) sc14 {
	n := r.N(2, 6)
	s := sc14{Hub: r.IntN(2), IDs: names14(r, n, "c"), Groups: names14(r, r.N(1, 2), "g"), Yield: r.Uint64() | 1, Mgr: r.Weighted(9, 1)}
	var first []o14
	for i := range n {
		first = append(first, o14{K: "conn", C: i, Proto: protos[r.IntN(2)]})
	}
	s.Steps = append(s.Steps, first)
	prim := func(i int) p14 {
		return p14{K: eng.Pick(r, "add", "add", "add", "remove", "group"), I: i, G: r.IntN(len(s.Groups)), T: fmt.Sprint("t", r.IntN(1000000))}
	}
	for k := r.N(2, 8); k > 0; k-- {
		v := r.IntN(n)
		var ops []o14
		hammer := r.P(0.5)
		for i := range n {
			if i == v {
				continue
			}
			o := o14{K: "act", C: i}
			for j := r.N(1, 6); j > 0; j-- {
				o.P = append(o.P, prim(v))
			}
			if hammer {
				o.P = append(o.P, p14{K: "add", I: v, G: 0, N: r.N(100, 3000)})
			}
			ops = append(ops, o)
		}
		end := o14{K: "end", C: v, How: r.IntN(5)}
		at := r.IntN(len(ops) + 1)
		ops = append(ops[:at:at], append([]o14{end}, ops[at:]...)...)
		back := o14{K: "conn", C: v, Proto: protos[r.IntN(2)]}
		if r.P(0.4) {
			back.P = []p14{prim(v)}
		}
		send := o14{K: "server", C: v}
		for g := range s.Groups {
			send.P = append(send.P, p14{K: "group", G: g, T: fmt.Sprint("after", k, g)})
		}
		s.Steps = append(s.Steps, ops, []o14{send}, []o14{back}, []o14{send})
	}
	return s
}

func init() {
	eng.Register(&eng.Check{
		ID:   "C14",
		Rule: "a case is non-trivial when at least one send was made and compared on all connections",
		Families: []eng.Family{
			eng.Fam("histories", 6000, 100000, gen14, run14),
			eng.Fam("races", 5000, 100000, genRaces14, run14),
			eng.Fam("storm", 4000, 60000, gen14s, run14s),
		},
	})
}
