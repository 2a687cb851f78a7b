package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// Parties behave by the options they were given, by all of them, and only by these.

type opt29 struct {
	K string
	N int    `json:",omitempty"` // durations in ms
	S string `json:",omitempty"`
	T string `json:",omitempty"`
	L []string
}

type sc29 struct {
	Role    string
	Proto   string
	Parties [][]opt29 // one party for each list of options
	Order   []int     // parties, which are probed in this order
	Reuse   bool      // parties with equal options share the values
}

// cfg29 is what the options mean.
type cfg29 struct {
	bad                          string // why the party cannot be
	size, ka, to, ht, crt        int
	capacity, max, neg           int
	detail, mgr, conn, connector bool
	rcv, dials                   int
	alts                         map[string]string
	transports                   map[string]bool
	hub, format                  string
	delay                        int
}

var kinds29 = []string{"nil", "size", "ka", "to", "ht", "crt", "cap", "max", "detail", "alt", "log", "skip", "origins"}
var only29 = map[string][]string{"server": {"hub", "transports", "neg", "mgr"}, "client": {"conn", "connector", "rcv", "format", "delay"}}

func other29(role string) string {
	if role == "server" {
		return "client"
	}
	return "server"
}

func model29(role string, l []opt29) (*cfg29, bool) {
	e := &cfg29{size: 1 << 15, ka: 5000, to: 30000, ht: 15000, crt: 5000, capacity: 10, max: 100, neg: 1000, alts: map[string]string{}, transports: map[string]bool{}, format: "json"}
	bad := func(f string, a ...any) {
		if e.bad == "" {
			e.bad = fmt.Sprintf(f, a...)
		}
	}
	set := func(p *int, o opt29, min int) bool {
		if o.N < min {
			bad("%s %d", o.K, o.N)
		}
		*p = o.N
		return o.N <= 1000000
	}
	for _, o := range l {
		ok := true
		if has21(only29[other29(role)], o.K) {
			bad("%s is not for a %s", o.K, role)
			continue
		}
		if !has21(kinds29, o.K) && !has21(only29[role], o.K) {
			return nil, false
		}
		switch o.K {
		case "size":
			ok = set(&e.size, o, 1) && o.N >= 0 && (o.N == 0 || o.N >= 200 && o.N <= 200000)
		case "ka":
			ok = set(&e.ka, o, 1)
		case "to":
			ok = set(&e.to, o, 1)
		case "ht":
			ok = set(&e.ht, o, 1)
		case "crt":
			ok = set(&e.crt, o, 0) && o.N > 0
		case "cap":
			ok = set(&e.capacity, o, 1) && o.N >= 0 && o.N <= 100
		case "max":
			ok = set(&e.max, o, 0) && o.N >= 0 && o.N <= 150
		case "neg":
			ok = set(&e.neg, o, 0) && o.N >= 0 && o.N <= 1500
		case "detail":
			e.detail = o.N == 1
		case "alt":
			ok = strings.HasPrefix(o.T, "alt") && len(o.S) < 50 && len(o.T) < 50
			e.alts[o.T] = o.S
		case "hub":
			// It is not told what an other kind of hub after a factory for the connections means
			ok = has21([]string{"factory", "simple", "perconn", "use"}, o.S) && (e.hub != "perconn" || o.S == "perconn")
			e.hub = o.S
		case "transports":
			for _, t := range o.L {
				if t != "WebSockets" && t != "ServerSentEvents" {
					bad("transport %s", t)
				}
				e.transports[t] = true
			}
			ok = len(o.L) > 0
		case "mgr":
			if o.N == 0 {
				bad("the manager")
			}
			e.mgr = true
		case "conn":
			e.conn = true
		case "connector":
			e.connector, e.dials = true, o.N
		case "rcv":
			e.rcv++
		case "format":
			switch o.S {
			case "Text":
				e.format = "json"
			case "Binary":
				e.format = "messagepack"
			default:
				bad("format %s", o.S)
			}
		case "delay":
			ok = o.N > 0 && o.N < 100000
			e.delay = o.N
		}
		if !ok {
			return nil, false
		}
	}
	if e.conn && e.connector {
		bad("connection and connector")
	}
	if role == "server" && e.hub == "" {
		bad("no hub")
	}
	if role == "client" && !e.conn && !e.connector {
		bad("no connection")
	}
	if len(e.transports) == 0 {
		e.transports = map[string]bool{"WebSockets": true, "ServerSentEvents": true}
	}
	return e, true
}

// work29 is what hubs and receivers can.
type work29 struct {
	x *x29
	n int
}

func (w *work29) Len(s string) int      { return len(s) }
func (w *work29) First() string         { return "first" }
func (w *work29) Second() string        { return "second" }
func (w *work29) Boom()                 { panic("boom") }
func (w *work29) Ignore(ch <-chan int)  { <-w.x.over }
func (w *work29) Hold(ch <-chan string) { <-w.x.over }

type hub29 struct {
	signalr.Hub
	work29
}

func (h *hub29) Which() int { return h.n }
func (h *hub29) Tell(id, g string) {
	h.Groups().AddToGroup(g, id)
	h.Clients().All().Send("All", id)
	h.Clients().Caller().Send("Caller", id)
	h.Clients().Client(id).Send("Client", id)
	h.Clients().Group(g).Send("Group", id)
	h.Groups().RemoveFromGroup(g, id)
}

// simple29 is a hub which needs no factory of its own. It cannot hold anything.
type simple29 struct {
	signalr.Hub
	work29
}

func (h *simple29) Ignore(ch <-chan int)  { <-h.Context().Done() }
func (h *simple29) Hold(ch <-chan string) { <-h.Context().Done() }

type rcv29 struct {
	signalr.Receiver
	work29
	p *party29
}

func (w *rcv29) Init(c signalr.Client) {
	w.Receiver.Init(c)
	w.p.inits = append(w.p.inits, init29{c, w})
}

type init29 struct {
	cl  signalr.Client
	rcv *rcv29
}

func (w *rcv29) Which() int { return w.n }

// mgr29 is a lifetime manager which only records.
type mgr29 struct {
	mx sync.Mutex
	l  []string
}

func (m *mgr29) add(f string, a ...any) {
	m.mx.Lock()
	m.l = append(m.l, fmt.Sprintf(f, a...))
	m.mx.Unlock()
}
func (m *mgr29) take() []string                         { m.mx.Lock(); defer m.mx.Unlock(); l := m.l; m.l = nil; return l }
func (m *mgr29) OnConnected(c signalr.HubConnection)    { m.add("connected %s", c.ConnectionID()) }
func (m *mgr29) OnDisconnected(c signalr.HubConnection) { m.add("disconnected %s", c.ConnectionID()) }
func (m *mgr29) InvokeAll(t string, a []interface{})    { m.add("all %s %v", t, a) }
func (m *mgr29) InvokeClient(id string, t string, a []interface{}) {
	m.add("client %s %s %v", id, t, a)
}
func (m *mgr29) InvokeGroup(g string, t string, a []interface{}) { m.add("group %s %s %v", g, t, a) }
func (m *mgr29) AddToGroup(g, id string)                         { m.add("add %s %s", g, id) }
func (m *mgr29) RemoveFromGroup(g, id string)                    { m.add("remove %s %s", g, id) }

type party29 struct {
	cfg   *cfg29
	opts  []func(signalr.Party) error
	srv   signalr.Server
	mgr   *mgr29
	ids   []string // for which hubs were made
	hubs  int
	conns chan dial29 // of the connector
	inits []init29
}

type dial29 struct {
	end *End
	n   int
}

type x29 struct {
	b    *B
	s    sc29
	over chan struct{}
	ps   []*party29
	n    int
}

// value makes the option.
func (x *x29) value(p *party29, o opt29) func(signalr.Party) error {
	ms := time.Duration(o.N) * time.Millisecond
	switch o.K {
	case "nil":
		return nil
	case "size":
		return signalr.MaximumReceiveMessageSize(uint(o.N))
	case "ka":
		return signalr.KeepAliveInterval(ms)
	case "to":
		return signalr.TimeoutInterval(ms)
	case "ht":
		return signalr.HandshakeTimeout(ms)
	case "crt":
		return signalr.ChanReceiveTimeout(ms)
	case "cap":
		return signalr.StreamBufferCapacity(uint(o.N))
	case "max":
		return signalr.MaxConcurrentStreams(uint(o.N))
	case "detail":
		return signalr.EnableDetailedErrors(o.N == 1)
	case "alt":
		return signalr.WithAlternateMethodName(o.S, o.T)
	case "log":
		return signalr.Logger(YieldLogger{}, o.N == 1)
	case "skip":
		return signalr.InsecureSkipVerify(o.N == 1)
	case "origins":
		return signalr.AllowOriginPatterns(o.L)
	case "hub":
		switch o.S {
		case "simple":
			return signalr.SimpleHubFactory(&simple29{})
		case "perconn":
			return signalr.PerConnectionHubFactory(func(id string) signalr.HubInterface {
				p.ids = append(p.ids, id)
				return &hub29{work29: work29{x: x, n: o.N}}
			})
		}
		if o.S == "use" {
			return signalr.UseHub(&hub29{work29: work29{x: x, n: o.N}})
		}
		return signalr.HubFactory(func() signalr.HubInterface { p.hubs++; return &hub29{work29: work29{x: x, n: o.N}} })
	case "transports":
		var l []signalr.TransportType
		for _, t := range o.L {
			l = append(l, signalr.TransportType(t))
		}
		return signalr.HTTPTransports(l...)
	case "neg":
		return signalr.MaxNegotiationConnections(o.N)
	case "mgr":
		return signalr.WithHubLifetimeManager(func(signalr.Server) (signalr.HubLifetimeManager, error) {
			if o.N == 0 {
				return nil, errors.New("no manager")
			}
			p.mgr = &mgr29{}
			return p.mgr, nil
		})
	case "conn":
		_, c := NewPipe(x.b.Ctx, "c", "c")
		return signalr.WithConnection(c)
	case "connector":
		return signalr.WithConnector(func() (signalr.Connection, error) { return x.dial(p, o.N) })
	case "rcv":
		return signalr.WithReceiver(&rcv29{work29: work29{x: x, n: o.N}, p: p})
	case "format":
		return signalr.TransferFormat(signalr.TransferFormatType(o.S))
	case "delay":
		return signalr.WithBackoff(func() backoff.BackOff { return backoff.NewConstantBackOff(ms) })
	}
	panic(o.K)
}

func (x *x29) dial(p *party29, n int) (signalr.Connection, error) {
	a, c := NewPipe(x.b.Ctx, "c", "c")
	p.conns <- dial29{a, n}
	return c, nil
}

// peer29 is a peer of the party.
type peer29 struct {
	raw   *Raw
	id    string
	ended func() bool
	stop  func()
	cl    signalr.Client
}

// connect makes a connection to the server, or a client and its connection. hs: also the handshake.
func (x *x29) connect(p *party29, hs bool) (*peer29, error) {
	x.n++
	id := fmt.Sprint("c", x.n)
	if p.srv != nil {
		a, c := NewPipe(x.b.Ctx, id, id)
		sv := Serve(p.srv, a)
		r := &Raw{End: c, Proto: x.s.Proto}
		if hs {
			_, _ = r.Write(Handshake(x.s.Proto))
			x.b.Wait()
			if t, ok := r.HandshakeFrame(); !ok || t != "{}" {
				return nil, eng.Errf("the server answers the handshake with %q", t)
			}
		}
		return &peer29{r, id, sv.Ended, func() { c.CloseWith(nil); x.b.Sleep(time.Millisecond) }, nil}, nil
	}
	opts := append([]func(signalr.Party) error{}, p.opts...)
	var end *End
	if p.cfg.conn {
		// Each client needs a connection of its own, this option is the last
		a, c := NewPipe(x.b.Ctx, id, id)
		end = a
		opts = append(opts, signalr.WithConnection(c))
	}
	p.inits = nil
	cl, err := signalr.NewClient(x.b.Ctx, append([]func(signalr.Party) error{Quiet(nil)}, opts...)...)
	if err != nil {
		return nil, eng.Errf("NewClient: %v, but it worked before", err)
	}
	if len(p.inits) != p.cfg.rcv {
		return nil, eng.Errf("%d receivers, %d were initialized", p.cfg.rcv, len(p.inits))
	}
	for _, i := range p.inits {
		if i.cl != cl || i.rcv.Server() != cl {
			return nil, eng.Errf("a receiver was initialized with another client")
		}
	}
	cl.Start()
	x.b.Wait()
	if !p.cfg.conn {
		select {
		case d := <-p.conns:
			if end = d.end; d.n != p.cfg.dials {
				return nil, eng.Errf("the client uses the connector %d instead of the last one, %d", d.n, p.cfg.dials)
			}
		default:
			return nil, eng.Errf("the client does not use its connector")
		}
	}
	r := &Raw{End: end, Proto: p.cfg.format}
	if t, ok := r.HandshakeFrame(); !ok {
		return nil, eng.Errf("the client sends the handshake %q", r.Received())
	} else {
		var q struct {
			Protocol string
			Version  int
		}
		if err := json.Unmarshal([]byte(t), &q); err != nil || q.Protocol != p.cfg.format || q.Version != 1 {
			return nil, eng.Errf("the client sends the handshake %q, its format is %s", t, p.cfg.format)
		}
	}
	if hs {
		_, _ = r.Write([]byte("{}\x1e"))
		x.b.Wait()
		if st := cl.State(); st != signalr.ClientConnected {
			return nil, eng.Errf("the client is in state %d after the handshake", st)
		}
	}
	return &peer29{r, id, func() bool { return cl.State() != signalr.ClientConnected }, func() { go cl.Stop(); end.CloseWith(nil); x.b.Sleep(time.Millisecond) }, cl}, nil
}

func (x *x29) answer(q *peer29, target string, args ...any) (*Msg, error) {
	x.n++
	id := fmt.Sprint("i", x.n)
	if args == nil {
		args = []any{}
	}
	q.raw.Send(Msg{Type: 1, ID: id, HasID: true, Target: target, Args: args})
	x.b.Wait()
	ms, err := q.raw.New()
	if err != nil {
		return nil, err
	}
	for _, m := range ms {
		if m.Type == 3 && m.ID == id {
			return &m, nil
		}
	}
	return nil, nil
}

func (x *x29) probe(p *party29, what string) error {
	b, e := x.b, p.cfg
	x.over = make(chan struct{})
	defer func() { close(x.over); b.Wait() }()
	ms := time.Millisecond
	idle := func(need int) bool { return e.to > need+10 }
	switch what {
	case "handshake":
		q, err := x.connect(p, false)
		if err != nil {
			return err
		}
		defer q.stop()
		ended := func() bool {
			return q.cl == nil && q.ended() || q.cl != nil && (q.cl.Err() != nil || q.cl.State() == signalr.ClientClosed)
		}
		b.Sleep(time.Duration(e.ht)*ms - ms/2)
		if ended() {
			return eng.Errf("the handshake ends before %d ms", e.ht)
		}
		b.Sleep(ms)
		if !ended() {
			return eng.Errf("without handshake, the connection has not ended after %d ms", e.ht)
		}
		if e.connector && e.delay > 0 {
			b.Sleep(time.Duration(e.delay)*ms - ms)
			if len(p.conns) > 0 {
				return eng.Errf("the client connects again earlier than after %d ms", e.delay)
			}
			b.Sleep(ms)
			if len(p.conns) == 0 {
				return eng.Errf("the client does not connect again after %d ms", e.delay)
			}
			<-p.conns
		}
		return nil
	case "negotiate":
		mux := http.NewServeMux()
		p.srv.MapHTTP(signalr.WithHTTPServeMux(mux), "/hub")
		count := min(e.neg, 1200)
		if e.neg == 0 {
			count = 1200
		}
		for k := 0; k <= count; k++ {
			w := httptest.NewRecorder()
			r := httptest.NewRequest("POST", "/hub/negotiate?negotiateVersion=1", nil).WithContext(b.Ctx)
			mux.ServeHTTP(w, r)
			if e.neg > 0 && k == count {
				if w.Code != 429 {
					return eng.Errf("%d negotiations are allowed, the next one gets status %d", e.neg, w.Code)
				}
				break
			}
			if w.Code != 200 {
				return eng.Errf("%d negotiations are allowed, number %d gets status %d", e.neg, k+1, w.Code)
			}
			if k == 0 {
				var a struct {
					AvailableTransports []struct{ Transport string }
				}
				if err := json.Unmarshal(w.Body.Bytes(), &a); err != nil {
					return eng.Errf("negotiation: %q", w.Body.String())
				}
				got := map[string]bool{}
				for _, t := range a.AvailableTransports {
					got[t.Transport] = true
				}
				if fmt.Sprint(got) != fmt.Sprint(e.transports) {
					return eng.Errf("transports %v are listed, configured are %v", got, e.transports)
				}
			}
		}
		return nil
	}
	q, err := x.connect(p, true)
	if err != nil {
		return err
	}
	defer q.stop()
	if what == "size" || what == "detail" {
		// A connection of another party, which is younger, has no influence
		for _, o := range x.ps {
			if o != p && o.srv != nil {
				qo, err := x.connect(o, true)
				if err != nil {
					return err
				}
				defer qo.stop()
			}
		}
	}
	switch what {
	case "size":
		frame := func(n int) []byte {
			m := Msg{Type: 1, ID: "a", HasID: true, Target: "len", Args: []any{""}}
			size := func() int {
				// without delimiter or length
				l := len(Encode(q.raw.Proto, m, Style{}))
				if q.raw.Proto == "json" {
					return l - 1
				}
				for k := 1; ; k++ {
					if l-k < 1<<(7*k) {
						return l - k
					}
				}
			}
			for pad := n - size(); pad > 0; pad = n - size() {
				m.Args = []any{m.Args[0].(string) + strings.Repeat("x", pad)}
			}
			for size() > n {
				m.Args = []any{m.Args[0].(string)[1:]}
			}
			if size() < n { // the length of the text takes one byte more
				m.ID += "b"
			}
			return Encode(q.raw.Proto, m, Style{})
		}
		_, _ = q.raw.Write(frame(e.size))
		b.Wait()
		l, err := q.raw.New()
		if err != nil || len(l) != 1 || l[0].Type != 3 || l[0].HasError || q.ended() {
			return eng.Errf("the limit is %d bytes, a message of this size is answered with %v (%v, ended %v)", e.size, l, err, q.ended())
		}
		_, _ = q.raw.Write(frame(e.size + 1))
		b.Sleep(ms / 2)
		if l, _ := q.raw.New(); !q.ended() || len(l) > 0 && l[0].Type == 3 {
			return eng.Errf("the limit is %d bytes, a longer message is answered with %v (ended %v)", e.size, l, q.ended())
		}
	case "times":
		horizon := min(e.to, 8*e.ka)
		seen := func() (int, error) {
			ms, err := q.raw.Messages()
			if err != nil {
				return 0, eng.Errf("%v", err)
			}
			n := 0
			for _, m := range ms {
				if m.Type == 6 {
					n++
				}
			}
			return n, nil
		}
		half := ms / 2
		if e.ka < e.to {
			b.Sleep(time.Duration(e.ka)*ms - half)
			if n, err := seen(); n > 0 || err != nil {
				return eng.Errf("a ping is sent before %d ms (%v)", e.ka, err)
			}
			b.Sleep(ms)
			if n, err := seen(); n != 1 || err != nil {
				return eng.Errf("%d pings are sent after %d ms (%v)", n, e.ka, err)
			}
			b.Sleep(time.Duration(horizon-e.ka)*ms - 2*half - half/2)
			if n, err := seen(); err != nil || n > horizon/e.ka || n < (horizon-1)/e.ka-1 {
				return eng.Errf("%d pings are sent in %d ms instead of one each %d ms (%v)", n, horizon, e.ka, err)
			}
		}
		if q.ended() {
			return eng.Errf("the timeout is %d ms, the connection has ended before", e.to)
		}
		left := time.Duration(e.to)*ms - half
		if e.ka < e.to {
			left -= time.Duration(horizon)*ms - half - half/2
		}
		b.Sleep(left)
		if q.ended() {
			return eng.Errf("the timeout is %d ms, the connection has ended earlier", e.to)
		}
		b.Sleep(ms)
		if !q.ended() {
			return eng.Errf("the timeout is %d ms, the connection has not ended after that", e.to)
		}
	case "detail":
		m, err := x.answer(q, "boom")
		if err != nil || m == nil || !m.HasError || strings.Contains(m.Error, "goroutine") != e.detail {
			return eng.Errf("detailed errors: %v, a panic is answered with %v %v", e.detail, m, err)
		}
	case "alt":
		for _, t := range []string{"alt0", "alt1", "alt 2", "alt.3", "ALT0", "first"} {
			m, err := x.answer(q, t)
			if err != nil || m == nil {
				return eng.Errf("the call of %q is answered with %v %v", t, m, err)
			}
			want := ""
			name := t
			if n, ok := e.alts[t]; ok {
				name = n
			}
			switch strings.ToLower(name) {
			case "first":
				want = "first"
			case "second":
				want = "second"
			}
			if want == "" && !m.HasError || want != "" && (m.HasError || m.Result != want) {
				return eng.Errf("the alternate names are %v, the call of %q is answered with %v", e.alts, t, m)
			}
		}
	case "which":
		for range 3 {
			from := p.hubs
			m, err := x.answer(q, "which")
			if err != nil || m == nil {
				return eng.Errf("%v %v", m, err)
			}
			switch {
			case p.srv != nil && e.hub == "simple":
				if !m.HasError {
					return eng.Errf("a simple hub factory, the call is answered with %v", m)
				}
			default:
				n := -1
				for _, o := range x.s.Parties[x.index(p)] {
					if o.K == "hub" || o.K == "rcv" {
						n = o.N
					}
				}
				if n >= 0 && (m.HasError || !Same(int64(n), m.Result, false)) {
					return eng.Errf("the last hub or receiver was number %d, the call is answered with %v", n, m)
				}
				if n < 0 && !m.HasError {
					return eng.Errf("no receiver, the call is answered with %v", m)
				}
			}
			if p.srv != nil && e.hub == "factory" && p.hubs == from {
				return eng.Errf("the hub factory is not called for a call")
			}
		}
		if p.srv != nil && e.hub == "perconn" && (len(p.ids) == 0 || p.ids[len(p.ids)-1] != q.id) {
			return eng.Errf("the factory was called for %v, the last connection is %s", p.ids, q.id)
		}
	case "mgr":
		if p.mgr == nil {
			if e.mgr {
				return eng.Errf("the lifetime manager is not made")
			}
			return nil
		}
		p.mgr.take()
		if m, err := x.answer(q, "tell", q.id, "g"); err != nil || m == nil || m.HasError {
			return eng.Errf("%v %v", m, err)
		}
		p.srv.HubClients().All().Send("Out", 1)
		p.srv.HubClients().Client("x").Send("Out", 2)
		p.srv.HubClients().Group("h").Send("Out", 3)
		b.Wait()
		got := strings.Join(p.mgr.take(), "; ")
		want := fmt.Sprintf("add g %[1]s; all All [%[1]s]; client %[1]s Caller [%[1]s]; client %[1]s Client [%[1]s]; group g Group [%[1]s]; remove g %[1]s; all Out [1]; client x Out [2]; group h Out [3]", q.id)
		if got != want {
			return eng.Errf("the lifetime manager gets %q instead of %q", got, want)
		}
		q.stop()
		if got := strings.Join(p.mgr.take(), "; "); got != "disconnected "+q.id {
			return eng.Errf("the lifetime manager gets %q when the connection ends", got)
		}
	case "streams":
		n := e.max + 1
		if e.max == 0 {
			n = 150
		}
		for k := range n {
			q.raw.Send(Msg{Type: 1, ID: fmt.Sprint("h", k), HasID: true, Target: "hold", Args: []any{}, StreamIDs: []string{fmt.Sprint("s", k)}})
		}
		b.Wait()
		l, err := q.raw.New()
		if err != nil || e.max > 0 && (len(l) != 1 || l[0].ID != fmt.Sprint("h", n-1) || !l[0].HasError) || e.max == 0 && len(l) > 0 {
			return eng.Errf("%d concurrent streams are allowed, the answers for one more are %v (%v)", e.max, l, err)
		}
	case "buffer":
		if !idle(e.crt) {
			return nil
		}
		q.raw.Send(Msg{Type: 1, ID: "ig", HasID: true, Target: "ignore", Args: []any{}, StreamIDs: []string{"s"}})
		items := func(n int) {
			for k := range n {
				q.raw.Send(Msg{Type: 2, ID: "s", Item: int64(k)})
			}
		}
		answers := func() ([]Msg, error) {
			l, err := q.raw.New()
			var r []Msg
			for _, m := range l {
				if m.Type != 6 {
					r = append(r, m)
				}
			}
			return r, err
		}
		items(e.capacity)
		b.Wait()
		if m, err := x.answer(q, "first"); err != nil || m == nil || m.HasError {
			return eng.Errf("capacity %d: with this number of items in the buffer, a call is answered with %v %v", e.capacity, m, err)
		}
		items(1)
		b.Sleep(time.Duration(e.crt)*ms - ms/2)
		if l, err := answers(); err != nil || len(l) > 0 {
			return eng.Errf("capacity %d: for one item more there is the answer %v %v before %d ms", e.capacity, l, err, e.crt)
		}
		b.Sleep(ms)
		if l, err := answers(); err != nil || len(l) != 1 || l[0].Type != 3 || l[0].ID != "s" || !l[0].HasError {
			return eng.Errf("capacity %d: for one item more there is the answer %v %v after %d ms", e.capacity, l, err, e.crt)
		}
	}
	return nil
}

func (x *x29) index(p *party29) int {
	for k, o := range x.ps {
		if o == p {
			return k
		}
	}
	return -1
}

func run29(c *eng.C, s sc29) error {
	if s.Role != "server" && s.Role != "client" || s.Proto != "json" && s.Proto != "messagepack" || len(s.Parties) < 1 || len(s.Parties) > 4 || len(s.Order) > 8 {
		return eng.Discard
	}
	var cfgs []*cfg29
	for _, l := range s.Parties {
		e, ok := model29(s.Role, l)
		if !ok || len(l) > 40 {
			return eng.Discard
		}
		cfgs = append(cfgs, e)
	}
	for _, k := range s.Order {
		if k < 0 || k >= len(s.Parties) {
			return eng.Discard
		}
	}
	return InBubble(c, func(b *B) error {
		x := &x29{b: b, s: s, over: make(chan struct{})}
		shared := map[string]func(signalr.Party) error{}
		alive := 0
		for k, l := range s.Parties {
			p := &party29{cfg: cfgs[k], conns: make(chan dial29, 1000)}
			for _, o := range l {
				j, _ := json.Marshal(o)
				f, ok := shared[string(j)]
				if !ok || !s.Reuse || o.K == "hub" || o.K == "mgr" || o.K == "connector" || o.K == "conn" || o.K == "rcv" {
					f = x.value(p, o)
					shared[string(j)] = f
				}
				p.opts = append(p.opts, f)
			}
			var err error
			opts := append([]func(signalr.Party) error{Quiet(nil)}, p.opts...)
			if s.Role == "server" {
				var srv signalr.Server
				if srv, err = signalr.NewServer(b.Ctx, opts...); err == nil {
					p.srv = srv
				}
			} else {
				_, err = signalr.NewClient(b.Ctx, opts...)
			}
			if (err != nil) != (p.cfg.bad != "") {
				return eng.Errf("party %d with options %v: error %v, expected because of: %q", k, l, err, p.cfg.bad)
			}
			if err == nil {
				alive++
			} else {
				c.Label("refused")
			}
			x.ps = append(x.ps, p)
		}
		for n, k := range s.Order {
			p := x.ps[k]
			if p.cfg.bad != "" {
				continue
			}
			probes := []string{"size", "times", "detail", "alt", "streams", "buffer", "handshake", "which"}
			if s.Role == "server" {
				probes = append(probes, "negotiate", "mgr")
			} else if p.cfg.rcv == 0 {
				probes = []string{"times", "handshake", "which"}
			}
			for d := range probes {
				w := probes[(d+n*3)%len(probes)]
				if (p.cfg.hub == "simple" || s.Role == "client") && w == "mgr" {
					continue
				}
				c.Label("%s", w)
				if err := x.probe(p, w); err != nil {
					return eng.Errf("%s %d with options %v: %s: %v", s.Role, k, s.Parties[k], w, err)
				}
			}
			c.NonTrivial()
		}
		return nil
	})
}

func gen29(r *eng.R) sc29 {
	for {
		s := sc29{Role: eng.Pick(r, "server", "client"), Proto: protos[r.IntN(2)], Reuse: r.P(0.4)}
		wrong := r.P(0.15) // options which are not allowed
		var pool []opt29
		one := func() opt29 {
			if len(pool) > 0 && r.P(0.3) {
				return pool[r.IntN(len(pool))]
			}
			o := opt29{K: kinds29[r.IntN(len(kinds29))]}
			if r.P(0.3) {
				l := only29[s.Role]
				o.K = l[r.IntN(len(l))]
			}
			if wrong && r.P(0.1) {
				l := only29[other29(s.Role)]
				o.K = l[r.IntN(len(l))]
			}
			lo := 1
			if wrong && r.P(0.3) {
				lo = 0
			}
			switch o.K {
			case "size":
				o.N = eng.Pick(r, r.N(200, 1000), r.N(200, 70000), 32768, 32767, 4096)
				if lo == 0 {
					o.N = 0
				}
			case "ka", "to", "ht":
				o.N = eng.Pick(r, r.N(1, 100), r.N(1, 10000), r.N(1, 100000))
				if lo == 0 {
					o.N = eng.Pick(r, 0, 0, -1, -1000)
				}
			case "crt", "delay":
				o.N = eng.Pick(r, r.N(1, 100), r.N(1, 10000))
			case "cap":
				o.N = r.N(lo, 30)
				if lo == 0 {
					o.N = 0
				}
			case "max":
				o.N = eng.Pick(r, 0, 1, 2, r.N(1, 120))
			case "neg":
				o.N = eng.Pick(r, 0, 1, r.N(1, 30))
			case "detail", "log", "skip":
				o.N = r.IntN(2)
			case "mgr":
				o.N = lo
			case "hub", "rcv":
				o.N = r.N(1, 1000)
				if o.K == "hub" {
					o.S = eng.Pick(r, "factory", "factory", "simple", "perconn", "use")
				}
			case "connector":
				o.N = r.N(1, 1000)
			case "alt":
				o.S, o.T = eng.Pick(r, "First", "first", "Second", "SECOND", "None"), eng.Pick(r, "alt0", "alt1", "alt 2", "alt.3")
			case "transports":
				for n := r.N(1, 3); n > 0; n-- {
					o.L = append(o.L, eng.Pick(r, "WebSockets", "ServerSentEvents"))
				}
				if lo == 0 {
					o.L = append(o.L, eng.Pick(r, "LongPolling", "WebTransports", "", "websockets"))
				}
			case "format":
				o.S = eng.Pick(r, "Text", "Binary")
				if lo == 0 {
					o.S = eng.Pick(r, "", "text", "json", "Other")
				}
			case "origins":
				o.L = []string{eng.Pick(r, "a.com", "*")}
			}
			pool = append(pool, o)
			return o
		}
		for n := r.N(1, 3); n > 0; n-- {
			var l []opt29
			for k := r.N(0, 12); k > 0; k-- {
				l = append(l, one())
			}
			put := func(o opt29) {
				at := r.IntN(len(l) + 1)
				l = append(l[:at:at], append([]opt29{o}, l[at:]...)...)
			}
			has := func(k ...string) bool {
				for _, o := range l {
					if has21(k, o.K) {
						return true
					}
				}
				return false
			}
			if s.Role == "server" && !has("hub") && !(wrong && r.P(0.2)) {
				put(opt29{K: "hub", N: r.N(1, 1000), S: eng.Pick(r, "factory", "factory", "simple", "perconn", "use")})
			}
			if s.Role == "client" && !has("conn", "connector") && !(wrong && r.P(0.2)) {
				put(opt29{K: eng.Pick(r, "conn", "connector"), N: r.N(1, 1000)})
			}
			if s.Role == "client" && !has("rcv") && r.P(0.8) {
				put(opt29{K: "rcv", N: r.N(1, 1000)})
			}
			s.Parties = append(s.Parties, l)
		}
		for n := r.N(1, 5); n > 0; n-- {
			s.Order = append(s.Order, r.IntN(len(s.Parties)))
		}
		ok := true
		for _, l := range s.Parties {
			_, o := model29(s.Role, l)
			ok = ok && o
		}
		if ok {
			return s
		}
	}
}

func init() {
	eng.Register(&eng.Check{
		ID:   "C29",
		Rule: "a case is non-trivial when a party was probed for all of its options",
		Families: []eng.Family{
			eng.Fam("options", 1500, 20000, gen29, run29),
		},
	})
}
