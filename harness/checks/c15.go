package checks

import (
	"context"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"time"
	"weak"

	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// call15 is one call of a hub method.
type call15 struct {
	K string // put get who hold release(N-th hold)
	I int    `json:",omitempty"` // item key
	N int    `json:",omitempty"`
}

type o15 struct {
	K     string // conn half bad end calls release
	C     int
	Proto string   `json:",omitempty"`
	How   int      `json:",omitempty"`
	Calls []call15 `json:",omitempty"` // conn: sent together with the handshake
}

type sc15 struct {
	Hub   int
	IDs   []string
	Steps [][]o15
	Stop  bool `json:",omitempty"` // the server is stopped at the end
	Yield uint64
}

type log15 struct {
	method string
	key    string
	id     string // argument of callbacks
	inst   *hub15
	conn   string
	ctx    context.Context
	items  map[any]any
	got    any
}

type w15 struct {
	mx    sync.Mutex
	log   []log15
	hold  map[string]chan struct{}
	free  map[string]bool
	inst  map[*hub15]string // made by the factory for
	made  map[string]int
	weakH []weak.Pointer[hub15]
}

var world15 *w15

type hub15 struct {
	signalr.Hub
	w     *w15
	state int // calls of this instance
}

func (h *hub15) world() *w15 {
	if h.w != nil {
		return h.w
	}
	return world15
}

func (h *hub15) note(method, key, id string, got any) {
	w := h.world()
	items := map[any]any{}
	h.Items().Range(func(k, v any) bool { items[k] = v; return true })
	l := log15{method, key, id, h, h.ConnectionID(), h.Context(), items, got}
	w.mx.Lock()
	h.state++
	w.log = append(w.log, l)
	w.mx.Unlock()
}

func (h *hub15) OnConnected(id string) {
	h.Items().Store("connected", id)
	h.Groups().AddToGroup("everybody", id)
	h.note("OnConnected", "", id, nil)
}
func (h *hub15) OnDisconnected(id string) { h.note("OnDisconnected", "", id, nil) }
func (h *hub15) Put(key string, i int) string {
	h.Items().Store(i, key)
	h.note("Put", key, "", nil)
	return h.ConnectionID()
}
func (h *hub15) Get(key string, i int) string {
	v, _ := h.Items().Load(i)
	h.note("Get", key, "", v)
	return h.ConnectionID()
}
func (h *hub15) Who(key string) string {
	h.note("Who", key, "", nil)
	return h.ConnectionID()
}
func (h *hub15) Hold(key string) string {
	w := h.world()
	w.mx.Lock()
	ch := w.hold[key]
	w.mx.Unlock()
	h.note("Hold", key, "", nil)
	<-ch
	h.Groups().AddToGroup("late", h.ConnectionID())
	h.note("Held", key, "", nil)
	return h.ConnectionID()
}
func (h *hub15) Quit()              { h.Abort() }
func (h *hub15) Bye(reconnect bool) { _ = h.Close("bye", reconnect) }

// conn15 is a connection which can be watched being forgotten.
type conn15 struct{ *End }

type m15 struct {
	id      string
	gen     int
	raw     *Raw
	sv      *Served
	state   int // 0 none 1 half 2 connected
	items   map[int]string
	racing  map[int]map[string]bool // values of an item which concurrent calls have written
	inst    *hub15
	ctx     context.Context
	started int
	ended   int
	wasOn   bool
	calls   map[string]string // key → method, not answered yet
	weak    weak.Pointer[conn15]
}

func run15(c *eng.C, s sc15) error {
	if s.Hub < 0 || s.Hub > 3 || len(s.IDs) > 100 {
		return eng.Discard
	}
	seen := map[string]bool{}
	for _, id := range s.IDs {
		if seen[id] {
			return eng.Discard
		}
		seen[id] = true
	}
	return InBubble(c, func(b *B) error { return exec15(c, b, s) })
}

func exec15(c *eng.C, b *B, s sc15) error {
	w := &w15{hold: map[string]chan struct{}{}, free: map[string]bool{}, inst: map[*hub15]string{}, made: map[string]int{}}
	world15 = w
	var y *Yield
	if s.Yield != 0 {
		y = NewYield(s.Yield, 30)
	}
	newHub := func(id string) signalr.HubInterface {
		h := &hub15{w: w}
		w.mx.Lock()
		w.inst[h] = id
		w.made[id]++
		w.weakH = append(w.weakH, weak.Make(h))
		w.mx.Unlock()
		if y != nil {
			y.Do()
		}
		return h
	}
	// An idle connection ends after 1000 s. Peers do not send pings in this check
	opts := []func(signalr.Party) error{Quiet(y), signalr.KeepAliveInterval(10000 * time.Hour), signalr.TimeoutInterval(10000 * time.Hour)}
	switch s.Hub {
	case 0:
		opts = append(opts, signalr.HubFactory(func() signalr.HubInterface { return newHub("") }))
	case 1:
		opts = append(opts, signalr.PerConnectionHubFactory(newHub))
	case 2:
		opts = append(opts, signalr.SimpleHubFactory(&hub15{state: 1000}))
	case 3:
		opts = append(opts, signalr.UseHub(newHub("").(*hub15)))
	}
	ctx, cancel := context.WithCancel(b.Ctx)
	defer cancel()
	srv, err := signalr.NewServer(ctx, opts...)
	if err != nil {
		return err
	}
	conns := make([]*m15, len(s.IDs))
	for i := range conns {
		conns[i] = &m15{id: s.IDs[i]}
	}
	var all []*m15 // every connection there was
	byKey := map[string]*m15{}
	putOf := map[string]int{}
	getOf := map[string]int{}
	used := map[*hub15]string{} // factory modes: instance → its call
	logged := 0
	madeWant := map[string]int{}
	wantEnd := []*m15{}
	holds := 0
	release := func(key string) {
		w.mx.Lock()
		defer w.mx.Unlock()
		if ch := w.hold[key]; ch != nil && !w.free[key] {
			w.free[key] = true
			close(ch)
		}
	}
	b.Cleanup(func() {
		w.mx.Lock()
		defer w.mx.Unlock()
		for k, ch := range w.hold {
			if !w.free[k] {
				w.free[k] = true
				close(ch)
			}
		}
	})
	// check judges what happened in a step. trans tells what happened with the connections
	check := func(step int, trans map[int]string) error {
		w.mx.Lock()
		log := append([]log15{}, w.log[logged:]...)
		logged = len(w.log)
		made := map[string]int{}
		for k, v := range w.made {
			made[k] = v
		}
		w.mx.Unlock()
		for _, l := range log {
			what := fmt.Sprintf("step %d: %s(%s%q)", step, l.method, l.key, l.id)
			var m *m15
			if l.method == "OnConnected" || l.method == "OnDisconnected" {
				// For an id which is used again, it is the connection of this step
				for _, x := range all {
					if x.id == l.id && (l.method == "OnConnected" && x.started == 0 && x.wasOn || l.method == "OnDisconnected" && x.ended == 0 && x.state == 0 && x.wasOn) {
						m = x
						break
					}
				}
				if m == nil {
					return eng.Errf("%s: there is no such connection (any more), or it was called already", what)
				}
				if l.method == "OnConnected" {
					m.started++
				} else {
					m.ended++
				}
			} else if m = byKey[l.key]; m == nil {
				return &eng.Infra{Msg: "unknown key " + l.key}
			} else if m.calls[l.key] == "" && l.method != "Held" {
				return eng.Errf("%s runs twice", what)
			}
			if s.Hub == 3 {
				continue // the context of the one instance is the one of the last call
			}
			if l.conn != m.id {
				return eng.Errf("%s of connection %q has ConnectionID %q", what, m.id, l.conn)
			}
			for k, v := range l.items {
				if k == "connected" {
					if v != m.id {
						return eng.Errf("%s of connection %q sees items of connection %q", what, m.id, v)
					}
					continue
				}
				if byKey[v.(string)] != m || putOf[v.(string)] != k {
					return eng.Errf("%s of connection %q (%d) sees item %v=%v, which it did not store", what, m.id, m.gen, k, v)
				}
			}
			for k, v := range m.items {
				if m.racing[k] == nil && l.items[k] != v {
					return eng.Errf("%s of connection %q (%d) sees %v as item %d and not %v", what, m.id, m.gen, l.items[k], k, v)
				}
			}
			if l.method == "Get" {
				i := getOf[l.key]
				if m.racing[i] == nil {
					var want any
					if v, ok := m.items[i]; ok {
						want = v
					}
					if l.got != want {
						return eng.Errf("%s of connection %q (%d) gets %v as item %d and not %v", what, m.id, m.gen, l.got, i, want)
					}
				}
			}
			if m.ctx == nil {
				m.ctx = l.ctx
			}
			switch s.Hub {
			case 0, 2:
				x := l.key
				if x == "" {
					x = fmt.Sprintf("%s of %q (%d)", l.method, m.id, m.gen)
				}
				if o, ok := used[l.inst]; ok && (l.method != "Held" || o != x) {
					return eng.Errf("%s: instance serves also %s", what, o)
				}
				used[l.inst] = x
				if s.Hub == 0 {
					if _, ok := w.inst[l.inst]; !ok {
						return eng.Errf("%s: instance is not made by the factory", what)
					}
				}
			case 1:
				if m.inst == nil {
					if _, ok := used[l.inst]; ok {
						return eng.Errf("%s: connection %q (%d) has the instance of %s", what, m.id, m.gen, used[l.inst])
					}
					m.inst = l.inst
					used[l.inst] = fmt.Sprintf("%q (%d)", m.id, m.gen)
				}
				if m.inst != l.inst {
					return eng.Errf("%s: connection %q (%d) is served by a second instance", what, m.id, m.gen)
				}
				if id := w.inst[l.inst]; id != m.id {
					return eng.Errf("%s: connection %q is served by the instance made for %q", what, m.id, id)
				}
			}
		}
		if s.Hub == 1 {
			for id, n := range made {
				if n != madeWant[id] {
					return eng.Errf("step %d: factory was called %d times for connection %q, there were %d connections", step, n, id, madeWant[id])
				}
			}
		}
		for i, m := range conns {
			if m.state != 2 {
				continue
			}
			if m.sv.Ended() && trans[i] != "end" {
				return eng.Errf("step %d: connection %q has ended with %v", step, m.id, m.sv.Err)
			}
			if m.started != 1 {
				return eng.Errf("step %d: OnConnected of connection %q was called %d times", step, m.id, m.started)
			}
			if m.ctx != nil && m.ctx.Err() != nil {
				return eng.Errf("step %d: the context of connection %q is done", step, m.id)
			}
			l, err := m.raw.New()
			if err != nil {
				return eng.Errf("step %d: connection %q: %v", step, m.id, err)
			}
			for _, x := range l {
				if x.Type != 3 || x.Error != "" || m.calls[x.ID] == "" || s.Hub != 3 && x.Result != m.id {
					return eng.Errf("step %d: connection %q gets %v, waits for %v", step, m.id, x, m.calls)
				}
				delete(m.calls, x.ID)
			}
			for k, v := range m.calls {
				if v != "Hold" || w.free[k] {
					return eng.Errf("step %d: connection %q gets no answer to %s(%s)", step, m.id, v, k)
				}
			}
		}
		for _, m := range wantEnd {
			if m.wasOn && m.ended != 1 {
				return eng.Errf("step %d: OnDisconnected of connection %q (%d) was called %d times", step, m.id, m.gen, m.ended)
			}
			if !m.wasOn && (m.started != 0 || m.ended != 0) {
				return eng.Errf("step %d: callbacks for connection %q without handshake", step, m.id)
			}
			if m.ctx != nil && m.ctx.Err() == nil {
				return eng.Errf("step %d: the context of the ended connection %q is not done", step, m.id)
			}
			if !m.sv.Ended() {
				return eng.Errf("step %d: Serve of connection %q does not return", step, m.id)
			}
		}
		return nil
	}
	for step, ops := range s.Steps {
		trans := map[int]string{}
		wantEnd = nil
		for n, o := range ops {
			if o.C < 0 || o.C >= len(conns) {
				continue
			}
			m := conns[o.C]
			if trans[o.C] != "" && o.K != "calls" && o.K != "release" {
				continue
			}
			var out []byte
			addCalls := func() {
				for j, ca := range o.Calls {
					key := fmt.Sprintf("k%d.%d.%d", step, n, j)
					x := Msg{Type: 1, ID: key, HasID: true}
					switch ca.K {
					case "put":
						x.Target, x.Args = "Put", []any{key, ca.I}
						putOf[key] = ca.I
						if m.racing[ca.I] == nil {
							m.racing[ca.I] = map[string]bool{}
						}
						m.racing[ca.I][key] = true
					case "get":
						x.Target, x.Args = "Get", []any{key, ca.I}
						getOf[key] = ca.I
					case "hold":
						x.Target, x.Args = "Hold", []any{key}
						w.mx.Lock()
						w.hold[key] = make(chan struct{})
						w.mx.Unlock()
						holds++
					default:
						x.Target, x.Args = "Who", []any{key}
					}
					byKey[key] = m
					m.calls[key] = x.Target
					out = append(out, Encode(m.raw.Proto, x, Style{})...)
				}
			}
			switch o.K {
			case "conn", "half", "bad":
				if m.state != 0 || o.Proto != "json" && o.Proto != "messagepack" {
					continue
				}
				own, peer := NewPipe(b.Ctx, m.id, "peer")
				cc := &conn15{own}
				x := &m15{id: m.id, gen: m.gen + 1, raw: &Raw{End: peer, Proto: o.Proto}, state: 1,
					items: map[int]string{}, racing: map[int]map[string]bool{}, calls: map[string]string{}, weak: weak.Make(cc)}
				x.sv = Serve(srv, cc)
				conns[o.C], m = x, x
				all = append(all, x)
				b.Cleanup(func() { peer.CloseWith(nil) })
				trans[o.C] = o.K
				switch o.K {
				case "conn":
					out = Handshake(o.Proto)
					addCalls()
					x.wasOn, x.state = true, 2
					madeWant[x.id]++
				case "bad":
					out = []byte(`{"protocol":"nothing","version":1}` + "\x1e")
					x.state = 0
					wantEnd = append(wantEnd, x)
				}
				_, _ = peer.Write(out)
			case "calls":
				if m.state != 2 || trans[o.C] == "end" {
					continue
				}
				addCalls()
				_, _ = m.raw.Write(out)
			case "release":
				for k := range m.calls {
					if m.calls[k] == "Hold" {
						release(k)
					}
				}
			case "end":
				if m.state == 0 {
					continue
				}
				trans[o.C] = "end"
				if m.state == 1 {
					m.raw.CloseWith([]error{io.EOF, io.ErrUnexpectedEOF}[abs(o.How)%2])
				} else {
					switch o.How {
					case 0:
						m.raw.CloseWith(io.EOF)
					case 1:
						m.raw.CloseWith(io.ErrUnexpectedEOF)
					case 2:
						m.raw.Send(Msg{Type: 7})
					case 3:
						if s.Hub == 3 { // aborts the connection which called last
							m.raw.CloseWith(io.EOF)
						} else {
							m.raw.Send(Msg{Type: 1, Target: "Quit", Args: []any{}})
						}
					case 4:
						_, _ = m.raw.Write([]byte("\x03\xc1\xc1\xc1\x1e\x1e"))
					case 5:
						if s.Hub == 3 {
							m.raw.CloseWith(io.EOF)
						} else {
							m.raw.Send(Msg{Type: 1, Target: "Bye", Args: []any{true}}, Msg{Type: 7})
						}
					default:
						m.raw.Send(Msg{Type: 3, ID: "unknown", Result: "x", HasResult: true})
					}
				}
				m.state = 0
				wantEnd = append(wantEnd, m)
			}
		}
		b.Wait()
		for _, m := range wantEnd {
			if m.raw != nil {
				m.raw.CloseWith(nil)
			}
		}
		b.Wait()
		if err := check(step, trans); err != nil {
			return err
		}
		// What the puts of the step left
		w.mx.Lock()
		log := w.log
		w.mx.Unlock()
		_ = log
		for _, m := range conns {
			if len(m.racing) == 0 || m.state != 2 {
				continue
			}
			// ask, when it is not known
			for i, vals := range m.racing {
				if len(vals) == 1 {
					for v := range vals {
						m.items[i] = v
					}
					delete(m.racing, i)
				}
			}
			for i, vals := range m.racing {
				key := fmt.Sprintf("ask%d.%d", step, i)
				byKey[key], getOf[key] = m, i
				m.calls[key] = "Get"
				m.raw.Send(Msg{Type: 1, ID: key, HasID: true, Target: "Get", Args: []any{key, i}})
				b.Wait()
				w.mx.Lock()
				last := w.log[len(w.log)-1]
				w.mx.Unlock()
				if v, ok := last.got.(string); s.Hub != 3 && (!ok || !vals[v] || last.key != key) {
					return eng.Errf("step %d: item %d of connection %q is %v, one of %v was stored", step, i, m.id, last.got, vals)
				} else if ok {
					m.items[i] = v
				}
			}
			if len(m.racing) > 0 {
				m.racing = map[int]map[string]bool{}
				wantEnd = nil
				if err := check(step, trans); err != nil {
					return err
				}
			}
		}
	}
	// The end of all
	wantEnd = nil
	if s.Stop {
		cancel()
		c.Label("stop")
	}
	b.Wait()
	for _, m := range conns {
		if m.state != 0 {
			m.raw.CloseWith(io.EOF)
			m.state = 0
			wantEnd = append(wantEnd, m)
		}
	}
	w.mx.Lock()
	var keys []string
	for k := range w.hold {
		keys = append(keys, k)
	}
	w.mx.Unlock()
	for _, k := range keys {
		release(k)
	}
	b.Sleep(20 * time.Second)
	if err := check(len(s.Steps), nil); err != nil {
		return err
	}
	c.LabelN("holds", holds)
	established := 0
	for _, m := range all {
		if m.wasOn {
			established++
			if m.started != 1 || m.ended != 1 {
				return eng.Errf("at the end: connection %q (%d) had %d OnConnected and %d OnDisconnected", m.id, m.gen, m.started, m.ended)
			}
		}
	}
	c.LabelN("connections", established)
	if established > 0 && len(byKey) > 0 {
		c.NonTrivial()
	}
	// Nothing of the connections is kept
	if s.Yield%4 == 0 && s.Hub != 3 { // the one instance keeps its last context
		w.mx.Lock()
		w.log, w.inst = nil, nil
		hubs := w.weakH
		w.mx.Unlock()
		used, byKey = nil, nil
		var ws []weak.Pointer[conn15]
		var names []string
		for _, m := range all {
			ws = append(ws, m.weak)
			names = append(names, fmt.Sprintf("%q (%d)", m.id, m.gen))
		}
		all, conns, wantEnd = nil, nil, nil
		_, _, _ = all, conns, wantEnd
		kept := func() string {
			var l []string
			for i, x := range ws {
				if x.Value() != nil {
					l = append(l, "connection "+names[i])
				}
			}
			if s.Hub == 1 {
				for _, x := range hubs {
					if x.Value() != nil {
						l = append(l, "a hub instance")
					}
				}
			}
			return strings.Join(l, ", ")
		}
		for k := 0; k < 5 && kept() != ""; k++ {
			runtime.GC()
		}
		if x := kept(); x != "" {
			return eng.Errf("all connections have ended, but there is kept: %s", x)
		}
		c.Label("nothing kept")
	}
	runtime.KeepAlive(srv)
	return nil
}

func gen15(r *eng.R) sc15 {
	s := sc15{Hub: r.Weighted(4, 5, 2, 1)}
	n := r.N(1, 5)
	if r.P(0.1) {
		n = r.N(6, 25)
	}
	s.IDs = names14(r, n, "c")
	s.Stop = r.P(0.2)
	if r.P(0.6) {
		s.Yield = r.Uint64() | 1
		if r.P(0.3) {
			s.Yield &^= 3
		}
	}
	state := make([]int, n)
	calls := func() []call15 {
		var l []call15
		m := r.N(0, 5)
		if r.P(0.05) {
			m = r.N(10, 60)
		}
		for k := 0; k < m; k++ {
			l = append(l, call15{K: eng.Pick(r, "put", "put", "get", "get", "who", "hold"), I: r.IntN(5)})
		}
		return l
	}
	steps := r.N(2, 12)
	if r.P(0.1) {
		steps = r.N(15, 40)
	}
	for k := 0; k < steps; k++ {
		var ops []o15
		for j := r.N(1, n+1); j > 0; j-- {
			i := r.IntN(n)
			o := o15{C: i}
			switch state[i] {
			case 0:
				o.Proto = protos[r.IntN(2)]
				switch r.Weighted(8, 1, 1) {
				case 0:
					o.K, state[i], o.Calls = "conn", 2, calls()
				case 1:
					o.K, state[i] = "half", 1
				case 2:
					o.K = "bad"
				}
			case 1:
				o.K, state[i], o.How = "end", 0, r.IntN(2)
			default:
				switch r.Weighted(5, 2, 1) {
				case 0:
					o.K, o.Calls = "calls", calls()
				case 1:
					o.K, o.How, state[i] = "end", r.IntN(7), 0
				case 2:
					o.K = "release"
				}
			}
			ops = append(ops, o)
		}
		s.Steps = append(s.Steps, ops)
	}
	return s
}

func init() {
	eng.Register(&eng.Check{
		ID:   "C15",
		Rule: "a case is non-trivial when at least one connection was established and hub methods were called",
		Families: []eng.Family{
			eng.Fam("lifetimes", 6000, 100000, gen15, run15),
			eng.Fam("races", 3000, 40000, gen15r, run15r),
		},
	})
}
