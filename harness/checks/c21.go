package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"github.com/cenkalti/backoff/v4"
	"github.com/coder/websocket"
	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// tr21 is a transport and how it is used.
type tr21 struct {
	Kind   string // net pipe ws sse both wsdirect
	Ver    int    // negotiate version, -1: not given
	Cuts   []int  `json:",omitempty"` // how much is read at once, cyclic
	Def    bool   `json:",omitempty"` // uses http.DefaultClient
	Doer   bool   `json:",omitempty"` // the http client is not a *http.Client
	Header bool   `json:",omitempty"` // the server demands a header
	Query  bool   `json:",omitempty"` // the server demands a query parameter
	Short  bool   `json:",omitempty"` // with WithHttpConnection
	Router int    `json:",omitempty"` // which router
	Path   int    `json:",omitempty"` // which path
	Near   []int  `json:",omitempty"` // paths of other servers on the same router
	Front  int    `json:",omitempty"` // path of a gateway before the server
}

// paths21 are the paths on which servers are mapped.
var paths21 = []string{"/hub", "/", "/a/b/c", "/hub2", "/hub/sub", "/Hub", "/hub.v1", "/h-u_b~1", "/x", "/negotiate", "/hub/negotiate/x"}

type sc21 struct {
	T   tr21
	Max int
	E   scE
}

type doer21 struct{ c *http.Client }

func (d doer21) Do(r *http.Request) (*http.Response, error) { return d.c.Do(r) }

// def21 is the transport of http.DefaultClient.
var def21 swap21

type swap21 struct {
	cur atomic.Pointer[http.RoundTripper]
}

func (s *swap21) use(t http.RoundTripper) { s.cur.Store(&t) }

func (s *swap21) RoundTrip(r *http.Request) (*http.Response, error) {
	return (*s.cur.Load()).RoundTrip(r)
}

func init() {
	def21.use(nonet21{})
	http.DefaultClient.Transport = &def21
}

// nonet21 is used when a case is over, there is no network.
type nonet21 struct{}

func (nonet21) RoundTrip(*http.Request) (*http.Response, error) {
	return nil, errors.New("no network")
}

func list21[T any](l ...T) []T { return l }

func (t tr21) valid(proto string) bool {
	switch t.Kind {
	case "sse":
		if proto != "json" {
			return false
		}
	case "net", "pipe", "own", "ws", "both", "wsdirect":
	default:
		return false
	}
	for _, n := range t.Cuts {
		if n < 1 {
			return false
		}
	}
	for _, n := range t.Near {
		if n < 0 || n >= len(paths21) || n == t.Path {
			return false
		}
	}
	return t.Ver >= -1 && t.Ver <= 1 && len(t.Cuts) < 100 && len(t.Near) < 10 && t.Router >= 0 && t.Router < len(Routers) && t.Path >= 0 && t.Path < len(paths21) && t.Front >= 0 && t.Front < len(fronts21)
}

// fronts21 are paths of gateways, as they are in a URL.
var fronts21 = []string{"", "/gw", "/a%2Fb", "/a%20b/%c3%a4", "/%41", "/a;b=c/~x", "/%25/%3F"}

// web serves the servers.
func (t tr21) web(b *B, srv signalr.Server, wrap func(http.Handler) http.Handler) *Web {
	h, factory := Router(Routers[t.Router])
	done := map[string]bool{paths21[t.Path]: true}
	near := func(p int) {
		// a server at / has its negotiation at /negotiate
		if done[paths21[p]] || paths21[p] == "/" && done["/negotiate"] || paths21[p] == "/negotiate" && done["/"] {
			return
		}
		done[paths21[p]] = true
		other, err := NewServer(b.Ctx, signalr.HubFactory(func() signalr.HubInterface { panic("the hub of another server was created") }))
		if err != nil {
			panic(err)
		}
		other.MapHTTP(factory, paths21[p])
	}
	for _, p := range t.Near {
		if len(t.Near)%2 == 0 {
			near(p)
		}
	}
	srv.MapHTTP(factory, paths21[t.Path])
	for _, p := range t.Near {
		near(p)
	}
	if f := fronts21[t.Front]; f != "" {
		in := wrap
		wrap = func(h http.Handler) http.Handler {
			h = in(h)
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				rest, ok := strings.CutPrefix(r.RequestURI, f)
				u, err := url.ParseRequestURI(rest)
				if !ok || err != nil {
					w.WriteHeader(404)
					return
				}
				r2 := r.Clone(r.Context())
				r2.URL, r2.RequestURI = u, rest
				h.ServeHTTP(w, r2)
			})
		}
	}
	return b.WebOf(h, fronts21[t.Front]+paths21[t.Path], wrap)
}

func cut21(l []int) func(int) int {
	i := 0
	return func(int) int { i++; return l[i%len(l)] }
}

// seen21 counts the requests of a transport.
type seen21 struct {
	mx          sync.Mutex
	neg         int
	ws, sse     int
	post        int
	unexpected  []string
	headerIsBad int
	own         []*own21
}

// own21 is a connection as an application makes it with the help of the library.
type own21 struct {
	*signalr.ConnectionBase
	c    *MemConn
	mode atomic.Int32
	done atomic.Int32 // operations which were made to end
}

func newOwn21(ctx context.Context, c *MemConn) *own21 {
	return &own21{ConnectionBase: signalr.NewConnectionBase(ctx, ""), c: c}
}

func (o *own21) unblock() { o.done.Add(1); _ = o.c.Close() }

func (o *own21) Read(p []byte) (int, error) {
	return signalr.ReadWriteWithContext(o.Context(), func() (int, error) { return o.c.Read(p) }, o.unblock)
}

func (o *own21) Write(p []byte) (int, error) {
	return signalr.ReadWriteWithContext(o.Context(), func() (int, error) { return o.c.Write(p) }, o.unblock)
}

func (o *own21) TransferMode() signalr.TransferMode     { return signalr.TransferMode(o.mode.Load()) }
func (o *own21) SetTransferMode(m signalr.TransferMode) { o.mode.Store(int32(m)) }

// guard looks at all requests.
func (t tr21) guard(s *seen21, next http.Handler) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		s.mx.Lock()
		ok := true
		switch {
		case r.URL.Path == strings.TrimSuffix(paths21[t.Path], "/")+"/negotiate":
			s.neg++
		case r.Method == "POST":
			s.post++
		case strings.EqualFold(r.Header.Get("Upgrade"), "websocket"):
			s.ws++
		case r.Header.Get("Accept") == "text/event-stream":
			s.sse++
		default:
			s.unexpected = append(s.unexpected, r.Method+" "+r.URL.String())
		}
		if t.Header && (r.Header.Get("Authorization") != "Bearer 1" || len(r.Header["X-Two"]) != 2) || t.Query && r.URL.Query().Get("tenant") != "a b&c" {
			s.headerIsBad++
			ok = false
		}
		s.mx.Unlock()
		if !ok {
			w.WriteHeader(401)
			return
		}
		next.ServeHTTP(w, r)
	})
}

func (t tr21) url(w *Web) string {
	if t.Query {
		return w.URL + "?tenant=a+b%26c"
	}
	return w.URL
}

func (t tr21) headers() func() http.Header {
	h := http.Header{"Authorization": {"Bearer 1"}, "X-Two": {"a", "b"}}
	return func() http.Header { return h }
}

// dialer connects over the transport.
func (t tr21) dialer(seen *seen21, proto string) dialE {
	var w *Web
	return func(b *B, srv signalr.Server, i int, opts ...func(signalr.Party) error) (signalr.Client, error) {
		opts = append([]func(signalr.Party) error{Quiet(nil), signalr.TransferFormat(FormatOf(proto))}, opts...)
		start := func(opt func(signalr.Party) error) (signalr.Client, error) {
			cl, err := signalr.NewClient(b.Ctx, append(opts, opt)...)
			if err != nil {
				return nil, err
			}
			cl.Start()
			b.Wait()
			return cl, nil
		}
		switch t.Kind {
		case "pipe":
			s, c := NewPipe(b.Ctx, fmt.Sprintf("c%d", i), fmt.Sprintf("c%d", i))
			Serve(srv, s)
			b.Cleanup(func() { s.CloseWith(nil) })
			return start(signalr.WithConnection(c))
		case "net":
			s, c := NewMemPipe()
			if len(t.Cuts) > 0 {
				s.SetCut(cut21(t.Cuts))
				c.SetCut(cut21(t.Cuts))
			}
			Serve(srv, signalr.NewNetConnection(b.Ctx, s))
			b.Cleanup(func() { _ = s.Close() })
			return start(signalr.WithConnection(signalr.NewNetConnection(b.Ctx, c)))
		}
		if t.Kind == "own" {
			s, c := NewMemPipe()
			if len(t.Cuts) > 0 {
				s.SetCut(cut21(t.Cuts))
				c.SetCut(cut21(t.Cuts))
			}
			so, co := newOwn21(b.Ctx, s), newOwn21(b.Ctx, c)
			seen.mx.Lock()
			seen.own = append(seen.own, so, co)
			seen.mx.Unlock()
			so.SetConnectionID(fmt.Sprintf("own%d", i))
			Serve(srv, so)
			b.Cleanup(func() { _ = s.Close() })
			return start(signalr.WithConnection(co))
		}
		if w == nil {
			w = t.web(b, srv, func(h http.Handler) http.Handler { return t.guard(seen, h) })
			if len(t.Cuts) > 0 {
				w.OnDial = func(_ int, c, s *MemConn) error {
					s.SetCut(cut21(t.Cuts))
					c.SetCut(cut21(t.Cuts))
					return nil
				}
			}
			if t.Def || t.Doer || t.Kind == "wsdirect" {
				def21.use(w.Client.Transport)
				b.Cleanup(func() { def21.use(nonet21{}) })
			}
		}
		if t.Kind == "wsdirect" {
			u, _ := url.Parse("ws" + t.url(w)[4:])
			var h http.Header
			if t.Header {
				h = t.headers()()
			}
			c, err := signalr.NewWebSocketConnection(b.Ctx, u, "direct", h)
			if err != nil {
				return nil, eng.Errf("NewWebSocketConnection: %v", err)
			}
			return start(signalr.WithConnection(c))
		}
		ho := list21(signalr.WithHTTPClient(w.Client))
		if t.Doer {
			ho = list21(signalr.WithHTTPClient(doer21{w.Client}))
		} else if t.Def {
			ho = ho[:0]
		}
		switch t.Kind {
		case "ws":
			ho = append(ho, signalr.WithTransports(signalr.TransportWebSockets))
		case "sse":
			ho = append(ho, signalr.WithTransports(signalr.TransportServerSentEvents))
		}
		if t.Ver >= 0 {
			ho = append(ho, signalr.WithNegotiateVersion(t.Ver))
		}
		if t.Header {
			ho = append(ho, signalr.WithHTTPHeaders(t.headers()))
		}
		if t.Short {
			return start(signalr.WithHttpConnection(b.Ctx, t.url(w), ho...))
		}
		return start(signalr.WithConnector(func() (signalr.Connection, error) { return signalr.NewHTTPConnection(b.Ctx, t.url(w), ho...) }))
	}
}

// judge looks at the requests which were made. n is the number of clients.
func (t tr21) judge(s *seen21, n int, proto string) error {
	s.mx.Lock()
	defer s.mx.Unlock()
	for i, o := range s.own {
		want := signalr.TextTransferMode
		if proto == "messagepack" {
			want = signalr.BinaryTransferMode
		}
		if o.TransferMode() != want {
			return eng.Errf("%s, but connection %d (the sides alternate, first the server) is in transfer mode %d", proto, i, o.TransferMode())
		}
		if n := o.done.Load(); n != 0 {
			return eng.Errf("connection %d: %d operations were ended, but its context is alive", i, n)
		}
	}
	if s.headerIsBad > 0 {
		return eng.Errf("%d requests without the header or query parameter which was configured", s.headerIsBad)
	}
	if len(s.unexpected) > 0 {
		return eng.Errf("unexpected requests: %v", s.unexpected)
	}
	ws, sse := 0, 0
	switch t.Kind {
	case "ws", "both", "wsdirect":
		ws = n
	case "sse":
		sse = n
	}
	if s.ws != ws || s.sse != sse {
		return eng.Errf("transport %s, %d clients, but there were %d WebSocket and %d event stream requests", t.Kind, n, s.ws, s.sse)
	}
	return nil
}

func run21(c *eng.C, s sc21) error {
	if s.E.Real || !s.T.valid(s.E.Proto) || s.Max < 2000 || s.Max > 1<<22 || len(s.E.Ops) > 200 {
		return eng.Discard
	}
	for _, o := range s.E.Ops {
		if o.K == "pull" && s.T.Kind == "sse" && o.N > s.E.CCap {
			return eng.Discard // a client which has not got the answer of its POST yet takes no items, and blocks in a mutex
		}
		if o.Size*7+600+len(o.Err)*7 > s.Max {
			return eng.Discard
		}
	}
	if s.T.Kind == "sse" {
		s.E.WriteMs = 51
	}
	return InBubble(c, func(b *B) error {
		seen := &seen21{}
		if err := runE(c, b, s.E, s.T.dialer(seen, s.E.Proto), uint(s.Max), nil); err != nil {
			if err == eng.Discard {
				return err
			}
			return eng.Errf("transport %s: %v", s.T.Kind, err)
		}
		if err := s.T.judge(seen, s.E.Conns, s.E.Proto); err != nil {
			return err
		}
		for _, o := range s.E.Ops {
			c.Label("%s %s %s", s.T.Kind, s.E.Proto, o.K)
		}
		if len(s.E.Ops) > 1 && s.T.Kind != "pipe" {
			c.NonTrivial()
		}
		return nil
	})
}

func genTr21(r *eng.R, proto string) tr21 {
	t := tr21{Kind: eng.Pick(r, "net", "pipe", "own", "ws", "ws", "ws", "both", "wsdirect"), Ver: r.N(-1, 1), Def: r.P(0.15), Doer: r.P(0.15), Header: r.P(0.3), Query: r.P(0.3), Short: r.P(0.5)}
	if proto == "json" && r.P(0.5) {
		t.Kind = "sse"
	}
	if r.P(0.1) {
		t.Front = r.N(0, len(fronts21)-1)
	}
	if r.P(0.4) {
		t.Router, t.Path = r.N(0, len(Routers)-1), r.N(0, len(paths21)-1)
		for k := r.N(0, 3); k > 0; k-- {
			if p := r.N(0, len(paths21)-1); p != t.Path {
				t.Near = append(t.Near, p)
			}
		}
	}
	if r.P(0.6) {
		big := eng.Pick(r, 3, 10, 100, 1000, 5000)
		for k := r.N(1, 5); k > 0; k-- {
			t.Cuts = append(t.Cuts, r.N(1, big))
		}
	}
	return t
}

func gen21(r *eng.R) sc21 {
	g := genE{kinds: []string{"pull", "push", "invoke", "send", "call"}, maxN: eng.Pick(r, 20, 100, 300), size: eng.Pick(r, 10, 1000, 30000), minOps: 1, maxOps: eng.Pick(r, 3, 10, 25), slow: 0.2}
	s := sc21{E: g.gen(r), Max: eng.Pick(r, 1<<15, 1<<16, 1<<20)}
	s.T = genTr21(r, s.E.Proto)
	if s.T.Kind == "sse" {
		s.E.CCap = 300
	}
	small := false
	for _, n := range s.T.Cuts {
		small = small || n < 50
	}
	for i := range s.E.Ops {
		o := &s.E.Ops[i]
		o.Size = min(o.Size, (s.Max-600-7*len(o.Err))/7)
		if small {
			o.Size, o.N = min(o.Size, 2000), min(o.N, 30)
		}
	}
	return s
}

// ---------------------------------------------------------------------------------------------------------------
// Messages of all sizes up to the limit, with all kinds of text

type msg21 struct {
	K string // echo down up item push call
	D int    // bytes below the limit
	T int    // kind of text
	N int    `json:",omitempty"` // number of items
}

type sz21 struct {
	Tr    tr21
	Proto string
	M, CM int // limit of the server and the client
	Calls []msg21
}

var texts21 = []string{"a", "\n", "\r\n", "\n\ndata: x\n\n", "\r", "ä", "日本語", "😀", "\u2028\u2029", "\x1e", "\"\\", "<>&", "\x00\x01", " ", "data:", ":\r\n\r\n", "{}\x1e", "x\n", "\ufeff", "\x7f\u0080"}

// fit21 returns a text which needs at most budget bytes as JSON string (HTML characters escaped) and as MessagePack string.
func fit21(kind, budget int) string {
	t := texts21[kind]
	p, _ := json.Marshal(t)
	n := max(0, budget/max(len(p)-2, len(t)))
	s := strings.Repeat(t, n)
	return s + strings.Repeat("x", min(3, max(0, budget-n*max(len(p)-2, len(t)))))
}

type hub21 struct {
	signalr.Hub
	rec *Rec
}

func (h *hub21) Echo(s string) string { return s }
func (h *hub21) Up(s string) int      { h.rec.Add("Up", "", s); return len(s) }
func (h *hub21) Down(kind, budget int) string {
	return fit21(kind, budget)
}
func (h *hub21) Items(kind, budget, n int) <-chan string {
	ch := make(chan string)
	go func() {
		for i := 0; i < n; i++ {
			ch <- fit21(kind, budget-i)
		}
		close(ch)
	}()
	return ch
}
func (h *hub21) Push(ch <-chan string) int {
	n := 0
	for s := range ch {
		h.rec.Add("Push", "", s)
		n += len(s)
	}
	return n
}
func (h *hub21) CallMe(kind, budget, n int) {
	for i := 0; i < n; i++ {
		h.Clients().Caller().Send("Told", i, fit21(kind, budget-i))
	}
}

type rcv21 struct {
	signalr.Receiver
	rec *Rec
}

func (r *rcv21) Told(i int, s string) { r.rec.Add("Told", "", i, s) }

func runSz21(c *eng.C, s sz21) error {
	if s.Proto != "json" && s.Proto != "messagepack" || !s.Tr.valid(s.Proto) || s.M < 500 || s.M > 1<<21 || s.CM < 500 || s.CM > 1<<21 || len(s.Calls) > 40 {
		return eng.Discard
	}
	for _, m := range s.Calls {
		if m.D < 0 || m.T < 0 || m.T >= len(texts21) || m.N < 0 || m.N > 20 {
			return eng.Discard
		}
	}
	return InBubble(c, func(b *B) error {
		rec := &Rec{}
		srv, err := NewServer(b.Ctx, signalr.HubFactory(func() signalr.HubInterface { return &hub21{rec: rec} }), signalr.MaximumReceiveMessageSize(uint(s.M)),
			signalr.ChanReceiveTimeout(time.Minute))
		if err != nil {
			return err
		}
		seen := &seen21{}
		cl, err := s.Tr.dialer(seen, s.Proto)(b, srv, 0, signalr.WithReceiver(&rcv21{rec: rec}), signalr.MaximumReceiveMessageSize(uint(s.CM)))
		if err != nil {
			return err
		}
		ctx, cancel := context.WithTimeout(b.Ctx, time.Minute)
		defer cancel()
		if err := <-cl.WaitForState(ctx, signalr.ClientConnected); err != nil {
			return eng.Errf("%s: does not connect: %v", s.Tr.Kind, err)
		}
		const head = 120 // everything but the text
		for i, m := range s.Calls {
			up, down := max(0, s.M-head-m.D), max(0, s.CM-head-m.D)
			rec.Reset()
			what := fmt.Sprintf("%s %s, limits %d and %d: call %d, %s, %d bytes below the limit, text %q", s.Tr.Kind, s.Proto, s.M, s.CM, i, m.K, m.D+head, texts21[m.T])
			c.Label("%s %s", s.Tr.Kind, m.K)
			one := func(ir *Collected[signalr.InvokeResult], want any) error {
				b.Sleep(3 * time.Second)
				l, closed := ir.Get()
				if len(l) != 1 || !closed || l[0].Error != nil || !sameResult(s.Proto, "", want, l[0].Value) {
					return eng.Errf("%s: yields %s (closed: %v) instead of %s; state %v %v", what, clip(l), closed, clip(want), cl.State(), cl.Err())
				}
				return nil
			}
			recorded := func(method string, want []string) error {
				calls := rec.Calls()
				if len(calls) != len(want) {
					return eng.Errf("%s: %d instead of %d texts arrived; state %v %v", what, len(calls), len(want), cl.State(), cl.Err())
				}
				if method == "Told" { // not ordered
					l := make([]string, len(calls))
					for _, call := range calls {
						i := call.Args[0].(int)
						if i < 0 || i >= len(l) || l[i] != "" {
							return eng.Errf("%s: callback %d", what, i)
						}
						l[i] = "-" + call.Args[1].(string)
					}
					for i := range l {
						if l[i] != "-"+want[i] {
							return eng.Errf("%s: text %d is %s instead of %s", what, i, clip(l[i]), clip(want[i]))
						}
					}
					return nil
				}
				for i, call := range calls {
					if call.Args[0] != want[i] {
						return eng.Errf("%s: text %d is %s instead of %s", what, i, clip(call.Args[0]), clip(want[i]))
					}
				}
				return nil
			}
			var err error
			switch m.K {
			case "echo":
				t := fit21(m.T, min(up, down))
				err = one(Collect(cl.Invoke("Echo", t)), t)
			case "up":
				t := fit21(m.T, up)
				if err = one(Collect(cl.Invoke("Up", t)), len(t)); err == nil {
					err = recorded("Up", []string{t})
				}
			case "down":
				err = one(Collect(cl.Invoke("Down", m.T, down)), fit21(m.T, down))
			case "item":
				ir := Collect(cl.PullStream("Items", m.T, down, m.N))
				b.Sleep(3 * time.Second)
				l, closed := ir.Get()
				if len(l) != m.N || !closed {
					return eng.Errf("%s: %d instead of %d items (closed: %v) %v %v", what, len(l), m.N, closed, cl.State(), cl.Err())
				}
				for i, x := range l {
					if x.Error != nil || !sameResult(s.Proto, "", fit21(m.T, down-i), x.Value) {
						return eng.Errf("%s: item %d is %s %v", what, i, clip(x.Value), x.Error)
					}
				}
			case "push":
				ch := make(chan string, m.N)
				var want []string
				n := 0
				for i := 0; i < m.N; i++ {
					t := fit21(m.T, up-i)
					want = append(want, t)
					n += len(t)
					ch <- t
				}
				close(ch)
				if err = one(Collect(cl.PushStreams("Push", ch)), n); err == nil {
					err = recorded("Push", want)
				}
			case "call":
				var want []string
				for i := 0; i < m.N; i++ {
					want = append(want, fit21(m.T, down-i))
				}
				errs := Collect(cl.Send("CallMe", m.T, down, m.N))
				b.Sleep(3 * time.Second)
				if l, closed := errs.Get(); len(l) > 0 || !closed {
					return eng.Errf("%s: yields %v (closed: %v)", what, l, closed)
				}
				err = recorded("Told", want)
			default:
				return eng.Discard
			}
			if err != nil {
				return err
			}
			if m.D < 200 {
				c.NonTrivial()
			}
		}
		return s.Tr.judge(seen, 1, s.Proto)
	})
}

func genSz21(r *eng.R) sz21 {
	s := sz21{Proto: protos[r.IntN(2)]}
	s.Tr = genTr21(r, s.Proto)
	lim := func() int {
		if r.P(0.3) {
			return 1 << 15
		}
		return r.N(500, 1<<r.N(9, 17))
	}
	big := r.P(0.06)
	if big { // what transports handle in parts, or limit themselves
		lim = func() int { return eng.Pick(r, 1<<19, 1<<20, 1<<21) - r.IntN(1<<18) }
		for i := range s.Tr.Cuts {
			s.Tr.Cuts[i] += 3000
		}
	}
	s.M, s.CM = max(500, lim()), max(500, lim())
	least := 1 << 30
	for _, n := range s.Tr.Cuts {
		least = min(least, n)
	}
	if len(s.Tr.Cuts) > 0 && least < 100 {
		s.M, s.CM = min(s.M, 20000), min(s.CM, 20000)
	}
	k := r.N(1, 6)
	if big {
		k = r.N(1, 2)
	}
	for ; k > 0; k-- {
		m := msg21{K: eng.Pick(r, "echo", "up", "down", "item", "push", "call"), T: r.IntN(len(texts21)), N: r.N(0, 4)}
		if big {
			m.N = min(m.N, 2)
		}
		if r.P(0.5) && !big {
			m.D = r.Heavy(max(s.M, s.CM))
		} else {
			m.D = r.N(0, 20)
		}
		s.Calls = append(s.Calls, m)
	}
	return s
}

// ---------------------------------------------------------------------------------------------------------------
// A raw client sends the same bytes in pieces of all sizes

type raw21 struct {
	Kind  string // ws wsfrag sse net
	Proto string
	Ver   int
	Comp  bool `json:",omitempty"`
	Calls []rcall21
	Cuts  []int `json:",omitempty"` // sizes of the pieces, cyclic
	Reads []int `json:",omitempty"`
	Style uint64
}

type rcall21 struct {
	K string // echo pull push ping
	T int
	L int // length of the text
	N int
}

func (s raw21) bytes() []byte {
	out := append([]byte{}, Handshake(s.Proto)...)
	for i, m := range s.Calls {
		id := fmt.Sprint(i)
		var ms []Msg
		switch m.K {
		case "ping":
			ms = []Msg{{Type: 6}}
		case "echo":
			ms = []Msg{{Type: 1, ID: id, Target: "Echo", Args: []any{fit21(m.T, m.L)}}}
		case "pull":
			ms = []Msg{{Type: 4, ID: id, Target: "Items", Args: []any{m.T, m.L, m.N}}}
		case "push":
			ms = []Msg{{Type: 1, ID: id, Target: "Push", StreamIDs: []string{"s" + id}, Args: []any{}}}
			for k := 0; k < m.N; k++ {
				ms = append(ms, Msg{Type: 2, ID: "s" + id, Item: fit21(m.T, m.L-k)})
			}
			ms = append(ms, Msg{Type: 3, ID: "s" + id})
		}
		for j, x := range ms {
			st := Style{}
			if s.Style != 0 {
				st.Seed = s.Style + uint64(i*100+j)
			}
			out = append(out, Encode(s.Proto, x, st)...)
		}
	}
	return out
}

func runRaw21(c *eng.C, s raw21) error {
	if s.Proto != "json" && s.Proto != "messagepack" || s.Kind == "sse" && s.Proto != "json" || len(s.Calls) > 50 || s.Ver < 0 || s.Ver > 1 {
		return eng.Discard
	}
	for _, m := range s.Calls {
		if m.K != "echo" && m.K != "pull" && m.K != "push" && m.K != "ping" || m.T < 0 || m.T >= len(texts21) || m.L < 0 || m.L > 20000 || m.N < 0 || m.N > 20 {
			return eng.Discard
		}
	}
	for _, l := range [][]int{s.Cuts, s.Reads} {
		for _, n := range l {
			if n < 1 {
				return eng.Discard
			}
		}
	}
	data := s.bytes()
	var pieces [][]byte
	for i, p := 0, data; len(p) > 0; i++ {
		n := len(p)
		if len(s.Cuts) > 0 {
			n = min(n, s.Cuts[i%len(s.Cuts)])
		}
		pieces = append(pieces, p[:n])
		p = p[n:]
	}
	if len(pieces) > 2000 {
		return eng.Discard
	}
	return InBubble(c, func(b *B) error {
		srv, err := NewServer(b.Ctx, signalr.HubFactory(func() signalr.HubInterface { return &hub21{rec: &Rec{}} }), signalr.TimeoutInterval(1000*time.Hour),
			signalr.KeepAliveInterval(500*time.Hour), signalr.HandshakeTimeout(400*time.Hour), signalr.ChanReceiveTimeout(time.Minute))
		if err != nil {
			return err
		}
		var got func() ([]byte, error)
		switch s.Kind {
		case "net":
			sc, cc := NewMemPipe()
			if len(s.Reads) > 0 {
				sc.SetCut(cut21(s.Reads))
			}
			sv := Serve(srv, signalr.NewNetConnection(b.Ctx, sc))
			b.Cleanup(func() { _ = sc.Close() })
			var mx sync.Mutex
			var all []byte
			go func() {
				p := make([]byte, 1<<16)
				for {
					n, err := cc.Read(p)
					mx.Lock()
					all = append(all, p[:n]...)
					mx.Unlock()
					if err != nil {
						return
					}
				}
			}()
			for _, p := range pieces {
				_, _ = cc.Write(p)
				b.Wait()
			}
			got = func() ([]byte, error) {
				mx.Lock()
				defer mx.Unlock()
				return append([]byte{}, all...), sv.Err
			}
		default:
			w := b.Web(srv, nil)
			if len(s.Reads) > 0 {
				w.OnDial = func(_ int, _, sc *MemConn) error { sc.SetCut(cut21(s.Reads)); return nil }
			}
			st, body, _, err := w.Request(b.Ctx, "POST", fmt.Sprintf("/hub/negotiate?negotiateVersion=%d", s.Ver), nil, nil)
			var n struct{ ConnectionID, ConnectionToken string }
			if err != nil || st != 200 || json.Unmarshal(body, &n) != nil {
				return eng.Errf("negotiation: %d %v %s", st, err, body)
			}
			key := n.ConnectionID
			if s.Ver == 1 {
				key = n.ConnectionToken
			}
			if s.Kind == "sse" {
				sse, st, err := w.OpenSSE(b.Ctx, esc19(key))
				if sse == nil {
					return eng.Errf("event stream: %d %v", st, err)
				}
				b.Cleanup(sse.Close)
				for i, p := range pieces {
					if st, _, _, err := w.Request(b.Ctx, "POST", "/hub"+esc19(key), nil, bytes.NewReader(p)); st != 200 || err != nil {
						return eng.Errf("POST %d of %d bytes: status %d, %v", i, len(p), st, err)
					}
				}
				got = sse.Got
			} else {
				mode := websocket.CompressionDisabled
				if s.Comp {
					mode = websocket.CompressionContextTakeover
				}
				ws, st, err := w.DialWS(b.Ctx, esc19(key), nil, mode)
				if ws == nil {
					return eng.Errf("WebSocket: %d %v", st, err)
				}
				typ := func(p []byte) websocket.MessageType {
					if s.Proto == "json" && utf8.Valid(p) {
						return websocket.MessageText
					}
					return websocket.MessageBinary
				}
				if s.Kind == "wsfrag" {
					// one message with several fragments
					mw, err := ws.Conn.Writer(b.Ctx, typ(data))
					if err != nil {
						return eng.Errf("%v", err)
					}
					for i, p := range pieces {
						if _, err := mw.Write(p); err != nil {
							return eng.Errf("writing fragment %d: %v", i, err)
						}
						b.Wait()
					}
					_ = mw.Close()
				} else {
					for i, p := range pieces {
						if err := ws.Conn.Write(b.Ctx, typ(p), p); err != nil {
							return eng.Errf("writing message %d: %v", i, err)
						}
						b.Wait()
					}
				}
				got = ws.Got
			}
		}
		b.Sleep(3 * time.Second)
		p, err := got()
		if err != nil {
			return eng.Errf("%s: the connection has ended: %v", s.Kind, err)
		}
		if !bytes.HasPrefix(p, []byte("{}\x1e")) {
			return eng.Errf("%s: the handshake is answered with %s", s.Kind, clip(string(p)))
		}
		ms, rest, err := DecodeAll(s.Proto, p[3:])
		if err != nil || len(rest) > 0 {
			return eng.Errf("%s: received %s (%v)", s.Kind, clip(string(p)), err)
		}
		by := map[string][]Msg{}
		for _, m := range ms {
			by[m.ID] = append(by[m.ID], m)
		}
		for i, m := range s.Calls {
			l := by[fmt.Sprint(i)]
			delete(by, fmt.Sprint(i))
			var want []any
			var fin any
			switch m.K {
			case "ping":
				continue
			case "echo":
				fin = fit21(m.T, m.L)
			case "pull":
				for k := 0; k < m.N; k++ {
					want = append(want, fit21(m.T, m.L-k))
				}
			case "push":
				n := 0
				for k := 0; k < m.N; k++ {
					n += len(fit21(m.T, m.L-k))
				}
				fin = n
			}
			c.Label("%s %s %s", s.Kind, s.Proto, m.K)
			bad := len(l) != len(want)+1
			for k, x := range want {
				bad = bad || l[k].Type != 2 || !Same(x, l[k].Item, false)
			}
			if !bad {
				z := l[len(l)-1]
				bad = z.Type != 3 || z.Error != "" || fin != nil && !Same(fin, z.Result, false)
			}
			if bad {
				return eng.Errf("%s %s: call %d (%+v) is answered with %s", s.Kind, s.Proto, i, m, clip(fmt.Sprint(l)))
			}
		}
		if len(by) > 0 {
			return eng.Errf("%s %s: unexpected messages %s", s.Kind, s.Proto, clip(fmt.Sprint(by)))
		}
		if len(pieces) > 1 && len(s.Calls) > 0 {
			c.NonTrivial()
		}
		return nil
	})
}

func genRaw21(r *eng.R) raw21 {
	s := raw21{Proto: protos[r.IntN(2)], Kind: eng.Pick(r, "ws", "ws", "wsfrag", "net"), Ver: r.IntN(2), Comp: r.P(0.3)}
	if s.Proto == "json" && r.P(0.5) {
		s.Kind = "sse"
	}
	if r.P(0.7) {
		s.Style = r.Uint64() | 1
	}
	maxL := eng.Pick(r, 10, 200, 3000)
	for k := r.N(1, eng.Pick(r, 2, 6, 20)); k > 0; k-- {
		s.Calls = append(s.Calls, rcall21{K: eng.Pick(r, "echo", "echo", "pull", "push", "ping"), T: r.IntN(len(texts21)), L: r.Heavy(maxL), N: r.N(0, 4)})
	}
	n := len(s.bytes())
	lists := func(most int) (l []int) {
		for {
			l = nil
			sum := 0
			big := r.N(1, eng.Pick(r, 1, 3, 10, 100, 1000, n+10))
			for k := r.N(1, 6); k > 0; k-- {
				l = append(l, r.N(1, big))
				sum += l[len(l)-1]
			}
			if n*len(l)/sum < most {
				return
			}
		}
	}
	if r.P(0.8) {
		s.Cuts = lists(300)
	}
	if r.P(0.5) {
		s.Reads = lists(3000)
	}
	return s
}

// ---------------------------------------------------------------------------------------------------------------
// A library client works with another implementation of a server

type srv21 struct {
	Kind  string // ws wsfrag sse
	Ver   int    // of the response
	Ask   int    // of the request, -1: none
	Proto string
	Extra bool // the negotiate response has more than needed
	// how event streams look like
	CRLF    bool
	NoSpace bool
	Lines   []string `json:",omitempty"` // what is between the events
	Group   int      // messages in one event
	Sep     bool     // messages of an event have lines of their own
	Cuts    []int    `json:",omitempty"` // sizes of the pieces which are sent at once
	Calls   []rcall21
	Style   uint64
	PostMs  int `json:",omitempty"` // how long the answer of a POST takes
}

// raws21 is the server.
type raws21 struct {
	b   *B
	s   srv21
	mx  sync.Mutex
	got []byte // from the client
	out chan []byte
	bad []string
}

func (x *raws21) complain(format string, a ...any) {
	x.mx.Lock()
	x.bad = append(x.bad, fmt.Sprintf(format, a...))
	x.mx.Unlock()
}

func (x *raws21) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	key := "the id"
	if x.s.Ver == 1 {
		key = "the/token=="
	}
	switch {
	case strings.HasSuffix(r.URL.Path, "/negotiate"):
		v := r.URL.Query().Get("negotiateVersion")
		if want := fmt.Sprint(x.s.Ask); r.Method != "POST" || x.s.Ask < 0 && v != "" || x.s.Ask >= 0 && v != want {
			x.complain("negotiation with %s %s", r.Method, r.URL)
		}
		m := map[string]any{"connectionId": "the id", "negotiateVersion": x.s.Ver}
		if x.s.Ver == 1 {
			m["connectionToken"] = key
		}
		tr := []any{}
		if x.s.Extra {
			tr = append(tr, map[string]any{"transport": "LongPolling", "transferFormats": []string{"Text", "Binary"}}, map[string]any{"transport": "Future", "transferFormats": []string{}})
			m["url"], m["accessToken"], m["error"], m["useStatefulReconnect"] = nil, nil, nil, false
		}
		if x.s.Kind == "sse" {
			tr = append(tr, map[string]any{"transport": "ServerSentEvents", "transferFormats": []string{"Text"}})
		} else {
			tr = append(tr, map[string]any{"transport": "WebSockets", "transferFormats": []string{"Text", "Binary"}})
		}
		m["availableTransports"] = tr
		w.Header().Set("Content-Type", "application/json; charset=utf-8")
		p, _ := json.Marshal(m)
		if x.s.Extra {
			p = append([]byte(" "), append(p, '\n')...)
		}
		_, _ = w.Write(p)
	case r.URL.Query().Get("id") != key:
		x.complain("%s %s, but the id is %q", r.Method, r.URL, key)
		w.WriteHeader(404)
	case r.Method == "POST" && x.s.Kind == "sse":
		p, err := io.ReadAll(r.Body)
		if err != nil {
			x.complain("POST: %v", err)
		}
		if x.s.PostMs > 0 {
			time.Sleep(time.Duration(x.s.PostMs) * time.Millisecond)
		}
		x.mx.Lock()
		x.got = append(x.got, p...)
		x.mx.Unlock()
		if x.s.Extra {
			_, _ = w.Write([]byte("thank you"))
		}
	case x.s.Kind == "sse" && r.Method == "GET" && r.Header.Get("Accept") == "text/event-stream":
		w.Header().Set("Content-Type", "text/event-stream")
		w.WriteHeader(200)
		w.(http.Flusher).Flush()
		for {
			select {
			case p := <-x.out:
				_, _ = w.Write(p)
				w.(http.Flusher).Flush()
			case <-r.Context().Done():
				return
			case <-x.b.Ctx.Done():
				return
			}
		}
	case x.s.Kind != "sse" && r.Header.Get("Upgrade") == "websocket":
		ws, err := websocket.Accept(w, r, nil)
		if err != nil {
			x.complain("upgrade: %v", err)
			return
		}
		ws.SetReadLimit(-1)
		go func() {
			for {
				typ, p, err := ws.Read(x.b.Ctx)
				if err != nil {
					return
				}
				if (x.s.Proto == "json") != (typ == websocket.MessageText) && len(x.got) > 0 { // the handshake is sent before the format counts
					x.complain("%s is sent as %v", x.s.Proto, typ)
				}
				x.mx.Lock()
				x.got = append(x.got, p...)
				x.mx.Unlock()
			}
		}()
		var mw io.WriteCloser
		for {
			select {
			case p := <-x.out:
				typ := websocket.MessageBinary
				if x.s.Proto == "json" && utf8.Valid(p) {
					typ = websocket.MessageText
				}
				if x.s.Kind == "wsfrag" {
					if mw == nil || len(p) == 0 {
						if mw != nil {
							_ = mw.Close()
						}
						mw, _ = ws.Writer(x.b.Ctx, typ)
					}
					if mw != nil {
						_, _ = mw.Write(p)
					}
				} else {
					_ = ws.Write(x.b.Ctx, typ, p)
				}
			case <-x.b.Ctx.Done():
				_ = ws.CloseNow()
				return
			}
		}
	default:
		x.complain("%s %s %v", r.Method, r.URL, r.Header)
		w.WriteHeader(400)
	}
}

// send sends messages in the form of the scenario.
func (x *raws21) send(frames ...[]byte) {
	var data []byte
	if x.s.Kind == "sse" {
		nl, sp := "\n", " "
		if x.s.CRLF {
			nl = "\r\n"
		}
		if x.s.NoSpace {
			sp = ""
		}
		k := 0
		for len(frames) > 0 {
			n := min(len(frames), max(1, x.s.Group))
			if len(x.s.Lines) > 0 {
				data = append(data, strings.ReplaceAll(x.s.Lines[k%len(x.s.Lines)], "\n", nl)...)
				k++
			}
			var text []byte
			for _, f := range frames[:n] {
				text = append(text, f...)
				if x.s.Sep {
					text = append(text, '\n')
				}
			}
			if x.s.Sep {
				text = text[:len(text)-1]
			}
			// line breaks between the tokens of a message
			for _, l := range strings.FieldsFunc(string(text), func(c rune) bool { return c == '\n' || c == '\r' }) {
				data = append(data, "data:"+sp+l+nl...)
			}
			data = append(data, nl...)
			frames = frames[n:]
		}
	} else {
		for _, f := range frames {
			data = append(data, f...)
		}
	}
	for i := 0; len(data) > 0; i++ {
		n := len(data)
		if len(x.s.Cuts) > 0 {
			n = min(n, x.s.Cuts[i%len(x.s.Cuts)])
		}
		x.out <- data[:n]
		x.b.Wait()
		data = data[n:]
	}
	if x.s.Kind == "wsfrag" {
		x.out <- nil
	}
	x.b.Wait()
}

var lines21 = []string{"", ": comment\n", ":\n\n", "event: message\n", "id: 7\n", "retry: 1000\n", ": data: no\n\n", "\n", "event: x\nid\n"}

func runSrv21(c *eng.C, s srv21) error {
	if s.Proto != "json" && s.Proto != "messagepack" || s.Kind == "sse" && s.Proto != "json" || s.Kind != "sse" && s.Kind != "ws" && s.Kind != "wsfrag" ||
		s.Ver < 0 || s.Ver > 1 || s.Ask < -1 || s.Ask > 1 || s.Ask < s.Ver && s.Ver == 1 || len(s.Calls) > 60 || s.PostMs < 0 || s.PostMs > 1000 || s.Group < 0 {
		return eng.Discard
	}
	for _, l := range s.Lines {
		ok := false
		for _, k := range lines21 {
			ok = ok || k == l
		}
		if !ok {
			return eng.Discard
		}
	}
	for _, n := range s.Cuts {
		if n < 1 {
			return eng.Discard
		}
	}
	for _, m := range s.Calls {
		if m.K != "echo" && m.K != "pull" && m.K != "push" && m.K != "ping" && m.K != "call" || m.T < 0 || m.T >= len(texts21) || m.L < 0 || m.L > 20000 || m.N < 0 || m.N > 20 {
			return eng.Discard
		}
	}
	return InBubble(c, func(b *B) error {
		x := &raws21{b: b, s: s, out: make(chan []byte)}
		// only for the network
		none, err := NewServer(b.Ctx, signalr.HubFactory(func() signalr.HubInterface { return &hub21{} }))
		if err != nil {
			return err
		}
		w := b.Web(none, func(http.Handler) http.Handler { return x })
		ho := list21(signalr.WithHTTPClient(w.Client))
		if s.Ask >= 0 {
			ho = append(ho, signalr.WithNegotiateVersion(s.Ask))
		}
		rec := &Rec{}
		cl, err := signalr.NewClient(b.Ctx, Quiet(nil), signalr.WithHttpConnection(b.Ctx, w.URL, ho...), signalr.TransferFormat(FormatOf(s.Proto)), signalr.WithReceiver(&rcv21{rec: rec}),
			signalr.TimeoutInterval(1000*time.Hour), signalr.KeepAliveInterval(500*time.Hour), signalr.HandshakeTimeout(400*time.Hour))
		if err != nil {
			return err
		}
		cl.Start()
		b.Sleep(2 * time.Second)
		recv := func() []byte { x.mx.Lock(); defer x.mx.Unlock(); return append([]byte{}, x.got...) }
		bad := func() error {
			x.mx.Lock()
			defer x.mx.Unlock()
			if len(x.bad) > 0 {
				return eng.Errf("%s: %v", s.Kind, x.bad)
			}
			return nil
		}
		if err := bad(); err != nil {
			return err
		}
		hs := recv()
		var req struct {
			Protocol string
			Version  int
		}
		if len(hs) == 0 || hs[len(hs)-1] != 0x1e || json.Unmarshal(hs[:len(hs)-1], &req) != nil || req.Protocol != s.Proto || req.Version != 1 {
			return eng.Errf("%s: the client's handshake is %q, state %v %v", s.Kind, hs, cl.State(), cl.Err())
		}
		x.send([]byte("{}\x1e"))
		b.Sleep(time.Second)
		if cl.State() != signalr.ClientConnected {
			return eng.Errf("%s: after the handshake, the client has state %v: %v", s.Kind, cl.State(), cl.Err())
		}
		// all calls are made first
		type call struct {
			ir   *Collected[signalr.InvokeResult]
			id   string
			want []string
		}
		calls := make([]call, len(s.Calls))
		off := len(hs)
		var all [][]byte
		told := 0
		for i, m := range s.Calls {
			switch m.K {
			case "echo":
				calls[i].ir = Collect(cl.Invoke("M", i, fit21(m.T, m.L)))
			case "pull":
				calls[i].ir = Collect(cl.PullStream("M", i, fit21(m.T, m.L)))
			case "push":
				ch := make(chan string, m.N)
				for k := 0; k < m.N; k++ {
					ch <- fit21(m.T, m.L)
				}
				close(ch)
				calls[i].ir = Collect(cl.PushStreams("M", i, fit21(m.T, m.L), ch))
			}
			b.Sleep(time.Duration(s.PostMs*(m.N+2)+10) * time.Millisecond)
			p := recv()
			ms, rest, err := DecodeAll(s.Proto, p[off:])
			off = len(p)
			if err != nil || len(rest) > 0 {
				return eng.Errf("%s: the client sends %q (%v)", s.Kind, clip(string(p)), err)
			}
			if m.K == "ping" || m.K == "call" {
				if len(ms) > 0 {
					return eng.Errf("%s: the client sends %v", s.Kind, ms)
				}
				continue
			}
			wantType := 1
			if m.K == "pull" {
				wantType = 4
			}
			ok := len(ms) >= 1 && ms[0].Type == wantType && ms[0].ID != "" && ms[0].Target == "M" && Same([]any{i, fit21(m.T, m.L)}, ms[0].Args, false)
			if ok && m.K == "push" {
				ok = len(ms) == m.N+2 && len(ms[0].StreamIDs) == 1
				for k := 1; ok && k <= m.N; k++ {
					ok = ms[k].Type == 2 && ms[k].ID == ms[0].StreamIDs[0] && Same(fit21(m.T, m.L), ms[k].Item, false)
				}
				ok = ok && ms[m.N+1].Type == 3 && ms[m.N+1].ID == ms[0].StreamIDs[0]
			} else {
				ok = ok && len(ms) == 1
			}
			if !ok {
				return eng.Errf("%s: for call %d (%+v), the client sends %s", s.Kind, i, m, clip(fmt.Sprint(ms)))
			}
			calls[i].id = ms[0].ID
		}
		enc := func(i, k int, m Msg) {
			st := Style{}
			if s.Style != 0 {
				st.Seed = s.Style + uint64(i*100+k)
			}
			all = append(all, Encode(s.Proto, m, st))
		}
		for i, m := range s.Calls {
			switch m.K {
			case "ping":
				enc(i, 0, Msg{Type: 6})
			case "call":
				for k := 0; k < m.N; k++ {
					enc(i, k, Msg{Type: 1, Target: "Told", Args: []any{told, fit21(m.T, m.L-k)}})
					told++
				}
			case "pull":
				for k := 0; k < m.N; k++ {
					enc(i, k, Msg{Type: 2, ID: calls[i].id, Item: fit21(m.T, m.L-k)})
					calls[i].want = append(calls[i].want, fit21(m.T, m.L-k))
				}
				enc(i, m.N, Msg{Type: 3, ID: calls[i].id})
			default:
				calls[i].want = []string{fit21(m.T, m.L)}
				enc(i, 0, Msg{Type: 3, ID: calls[i].id, Result: calls[i].want[0], HasResult: true})
			}
		}
		x.send(all...)
		b.Sleep(time.Second)
		if err := bad(); err != nil {
			return err
		}
		if cl.State() != signalr.ClientConnected {
			return eng.Errf("%s: at the end, the client has state %v: %v", s.Kind, cl.State(), cl.Err())
		}
		texts := map[int]string{}
		for _, call := range rec.Calls() {
			i := call.Args[0].(int)
			if _, dup := texts[i]; dup {
				return eng.Errf("%s: callback %d arrives twice", s.Kind, i)
			}
			texts[i] = call.Args[1].(string)
		}
		told = 0
		for i, m := range s.Calls {
			c.Label("%s %s %s", s.Kind, s.Proto, m.K)
			if m.K == "call" {
				for k := 0; k < m.N; k++ {
					if t, ok := texts[told]; !ok || t != fit21(m.T, m.L-k) {
						return eng.Errf("%s: callback %d (present: %v) has the text %s instead of %s", s.Kind, told, ok, clip(t), clip(fit21(m.T, m.L-k)))
					}
					told++
				}
			}
			if calls[i].ir == nil {
				continue
			}
			l, closed := calls[i].ir.Get()
			ok := closed && len(l) == len(calls[i].want)
			for k := range l {
				ok = ok && l[k].Error == nil && l[k].Value == any(calls[i].want[k])
			}
			if !ok {
				return eng.Errf("%s %s: call %d (%+v) yields %s (closed: %v) instead of %s", s.Kind, s.Proto, i, m, clip(l), closed, clip(calls[i].want))
			}
		}
		if len(s.Calls) > 0 {
			c.NonTrivial()
		}
		return nil
	})
}

func genSrv21(r *eng.R) srv21 {
	s := srv21{Kind: eng.Pick(r, "ws", "wsfrag", "sse", "sse", "sse"), Proto: protos[r.IntN(2)], Ask: r.N(-1, 1), Extra: r.P(0.4), CRLF: r.P(0.5), NoSpace: r.P(0.2), Sep: r.P(0.3),
		Group: eng.Pick(r, 0, 1, 2, 5, 100)}
	if s.Kind == "sse" {
		s.Proto = "json"
	}
	if s.Ask == 1 && r.P(0.8) {
		s.Ver = 1
	}
	if r.P(0.5) {
		s.Style = r.Uint64() | 1
	}
	for k := r.N(0, 3); k > 0; k-- {
		s.Lines = append(s.Lines, lines21[r.IntN(len(lines21))])
	}
	if r.P(0.3) {
		s.PostMs = r.N(1, 300)
	}
	maxL := eng.Pick(r, 10, 200, 3000)
	n := 0
	for k := r.N(1, eng.Pick(r, 2, 6, 20)); k > 0; k-- {
		m := rcall21{K: eng.Pick(r, "echo", "pull", "push", "ping", "call", "call"), T: r.IntN(len(texts21)), L: r.Heavy(maxL), N: r.N(0, 4)}
		s.Calls = append(s.Calls, m)
		n += (m.L*3 + 100) * (m.N + 1)
	}
	if r.P(0.7) {
		big := eng.Pick(r, 3, 10, 100, 1000)
		for k := r.N(1, 6); k > 0; k-- {
			s.Cuts = append(s.Cuts, r.N(1+n/2000, big+n/500))
		}
	}
	return s
}

// ---------------------------------------------------------------------------------------------------------------
// Transports which are not offered or fail

type ph21 struct {
	Offer   []string // transports in the negotiate response
	WS, SSE string   // "" works, "404", "500", "200", "abort" (the connection is closed)
	Neg     string   `json:",omitempty"`
	Drop    string   `json:",omitempty"` // how the connection before is lost: close, server
}

type fb21 struct {
	Allow  []string // permitted transports
	Order  bool     // in this order; else WithTransports is not used
	Ver    int
	Phases []ph21
	Calls  int
}

type wall21 struct {
	mx   sync.Mutex
	ph   ph21
	ws   int
	sse  int
	next http.Handler
}

type tee21 struct {
	h    http.Header
	code int
	buf  bytes.Buffer
}

func (t *tee21) Header() http.Header         { return t.h }
func (t *tee21) WriteHeader(c int)           { t.code = c }
func (t *tee21) Write(p []byte) (int, error) { return t.buf.Write(p) }

func (x *wall21) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	x.mx.Lock()
	ph := x.ph
	mode := ""
	isNeg := strings.HasSuffix(r.URL.Path, "/negotiate")
	switch {
	case isNeg:
		mode = ph.Neg
	case r.Header.Get("Upgrade") != "":
		if mode = ph.WS; mode == "" {
			x.ws++
		}
	case r.Method == "GET":
		if mode = ph.SSE; mode == "" {
			x.sse++
		}
	}
	x.mx.Unlock()
	switch mode {
	case "":
	case "abort":
		panic(http.ErrAbortHandler)
	default:
		code := 0
		_, _ = fmt.Sscan(mode, &code)
		w.WriteHeader(code)
		_, _ = w.Write([]byte("no"))
		return
	}
	if !isNeg {
		x.next.ServeHTTP(w, r)
		return
	}
	t := &tee21{h: http.Header{}, code: 200}
	x.next.ServeHTTP(t, r)
	var m map[string]any
	if t.code != 200 || json.Unmarshal(t.buf.Bytes(), &m) != nil {
		w.WriteHeader(t.code)
		return
	}
	l := []any{}
	for _, o := range ph.Offer {
		l = append(l, map[string]any{"transport": o, "transferFormats": []string{"Text"}})
	}
	m["availableTransports"] = l
	_ = json.NewEncoder(w).Encode(m)
}

func has21(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func runFb21(c *eng.C, s fb21) error {
	modes := []string{"", "404", "500", "200", "403", "503", "abort"}
	if len(s.Phases) == 0 || len(s.Phases) > 10 || s.Ver < -1 || s.Ver > 1 || s.Calls < 0 || s.Calls > 5 {
		return eng.Discard
	}
	var tr []signalr.TransportType
	for _, a := range s.Allow {
		if a != "WebSockets" && a != "ServerSentEvents" {
			return eng.Discard
		}
		tr = append(tr, signalr.TransportType(a))
	}
	for _, p := range s.Phases {
		if !has21(modes, p.WS) || !has21(modes, p.SSE) || !has21(modes, p.Neg) || p.Neg == "200" || p.SSE == "200" || p.Drop != "" && p.Drop != "server" {
			return eng.Discard
		}
	}
	return InBubble(c, func(b *B) error {
		rec := &Rec{}
		srv, err := NewServer(b.Ctx, signalr.HubFactory(func() signalr.HubInterface { return &hub21{rec: rec} }), signalr.MaxNegotiationConnections(0),
			signalr.TimeoutInterval(1000*time.Hour), signalr.KeepAliveInterval(500*time.Hour))
		if err != nil {
			return err
		}
		wall := &wall21{ph: s.Phases[0]}
		w := b.Web(srv, func(h http.Handler) http.Handler { wall.next = h; return wall })
		ho := list21(signalr.WithHTTPClient(w.Client))
		permitted := s.Allow
		if s.Order && len(tr) > 0 {
			ho = append(ho, signalr.WithTransports(tr...))
		} else {
			permitted = []string{"WebSockets", "ServerSentEvents"}
		}
		if s.Ver >= 0 {
			ho = append(ho, signalr.WithNegotiateVersion(s.Ver))
		}
		cl, err := signalr.NewClient(b.Ctx, Quiet(nil), signalr.WithHttpConnection(b.Ctx, w.URL, ho...), signalr.WithReceiver(&rcv21{rec: rec}),
			signalr.TimeoutInterval(1000*time.Hour), signalr.KeepAliveInterval(500*time.Hour),
			signalr.WithBackoff(func() backoff.BackOff { return backoff.NewConstantBackOff(500 * time.Millisecond) }))
		if err != nil {
			return err
		}
		used := map[string]int{}
		for i, p := range s.Phases {
			wall.mx.Lock()
			wall.ph, wall.ws, wall.sse = p, 0, 0
			wall.mx.Unlock()
			if i == 0 {
				cl.Start()
			} else {
				w.DropAll(p.Drop == "server")
			}
			b.Sleep(5 * time.Second)
			want := ""
			if p.Neg == "" {
				if has21(permitted, "ServerSentEvents") && has21(p.Offer, "ServerSentEvents") && p.SSE == "" {
					want = "ServerSentEvents"
				}
				if has21(permitted, "WebSockets") && has21(p.Offer, "WebSockets") && p.WS == "" {
					want = "WebSockets"
				}
			}
			what := fmt.Sprintf("phase %d (%+v), permitted are %v", i, p, permitted)
			c.Label("uses %q", want)
			used[want]++
			wall.mx.Lock()
			ws, sse := wall.ws, wall.sse
			wall.mx.Unlock()
			if want == "" {
				if cl.State() == signalr.ClientConnected {
					return eng.Errf("%s: no transport is possible, but the client is connected", what)
				}
				continue
			}
			if cl.State() != signalr.ClientConnected {
				return eng.Errf("%s: %s is possible, but the client has state %v: %v", what, want, cl.State(), cl.Err())
			}
			if wsWanted := want == "WebSockets"; wsWanted && (ws != 1 || sse != 0) || !wsWanted && (ws != 0 || sse != 1) {
				return eng.Errf("%s: %s is possible, but there were %d WebSockets and %d event streams", what, want, ws, sse)
			}
			for k := 0; k < s.Calls; k++ {
				t := fmt.Sprintf("%d.%d", i, k)
				n := len(rec.Calls())
				ir := Collect(cl.Invoke("Echo", t))
				ir2 := Collect(cl.PullStream("Items", 0, 10, 2))
				e := Collect(cl.Send("CallMe", 0, 10, 1))
				b.Sleep(2 * time.Second)
				l, closed := ir.Get()
				l2, closed2 := ir2.Get()
				le, _ := e.Get()
				if !closed || len(l) != 1 || l[0].Error != nil || l[0].Value != any(t) || !closed2 || len(l2) != 2 || len(le) != 0 || len(rec.Calls()) != n+1 {
					return eng.Errf("%s: calls over %s yield %v (%v), %v (%v), %v, %d callbacks", what, want, l, closed, l2, closed2, le, len(rec.Calls())-n)
				}
			}
		}
		if len(used) > 1 {
			c.NonTrivial()
		}
		return nil
	})
}

func genFb21(r *eng.R) fb21 {
	s := fb21{Order: r.P(0.8), Ver: r.N(-1, 1), Calls: r.N(0, 2)}
	both := []string{"WebSockets", "ServerSentEvents"}
	some := func() []string {
		switch r.Weighted(5, 2, 2, 2) {
		case 0:
			return both
		case 1:
			return []string{"ServerSentEvents", "WebSockets"}
		case 2:
			return both[:1]
		}
		return both[1:]
	}
	s.Allow = some()
	for k := r.N(1, 6); k > 0; k-- {
		p := ph21{Offer: some()}
		if r.P(0.05) {
			p.Offer = []string{}
		}
		if r.P(0.1) {
			p.Offer = append([]string{"LongPolling"}, p.Offer...)
		}
		if r.P(0.5) {
			p.WS = eng.Pick(r, "404", "500", "200", "403", "503", "abort")
		}
		if r.P(0.3) {
			p.SSE = eng.Pick(r, "404", "500", "403", "503", "abort")
		}
		if r.P(0.07) {
			p.Neg = eng.Pick(r, "404", "500", "abort")
		}
		if r.P(0.3) {
			p.Drop = "server"
		}
		s.Phases = append(s.Phases, p)
	}
	return s
}

func init() {
	eng.Register(&eng.Check{
		ID:   "C21",
		Rule: "a case is non-trivial when several calls are made over a transport of the library, a message is close to the limit, the bytes arrive in several pieces, or the client uses different transports one after the other",
		Families: []eng.Family{
			eng.Fam("calls", 1500, 20000, gen21, run21),
			eng.Fam("sizes", 1500, 20000, genSz21, runSz21),
			eng.Fam("pieces", 2000, 30000, genRaw21, runRaw21),
			eng.Fam("servers", 2000, 30000, genSrv21, runSrv21),
			eng.Fam("fallback", 1500, 20000, genFb21, runFb21),
		},
	})
}
