package checks

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/coder/websocket"
	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// A client is stopped, or a connection is given up, while it is being made and the server does not answer. Stop and
// NewHTTPConnection return, calls end, and a connection which is made later is ended and never used.

type sc24d struct {
	T     string
	Ver   int
	Conn  bool   `json:",omitempty"` // NewHTTPConnection without a client
	Stage string // where the server does not answer
	How   string // stop, ctx
	Same  bool   // the connection is made with the same context as the client
	Tries int    `json:",omitempty"` // attempts which failed before
	At    int    // ms
	Late  int    `json:",omitempty"` // ms after which the server answers, 0: never
	Calls int    `json:",omitempty"`
}

var stages24d = map[string]struct{ sse, ws, late bool }{
	"dial":       {true, true, true},
	"negnone":    {true, true, true},
	"negpart":    {true, true, true},
	"negendless": {true, true, false},
	"getnone":    {true, false, true},
	"getendless": {true, false, false},
	"upnone":     {false, true, true},
	"block":      {true, true, true}, // the connector itself
}

type srv24d struct {
	b       *B
	s       sc24d
	mx      sync.Mutex
	tries   int
	open    int           // connections which were made
	over    int           // of which ended
	posts   int           // messages
	hangs   chan struct{} // closed as soon as somebody waits
	once    sync.Once
	release chan struct{}
}

// hang waits for the moment when the answer is given, if ever.
func (x *srv24d) hang(ctx context.Context) bool {
	x.once.Do(func() { close(x.hangs) })
	select {
	case <-x.release:
		return true
	case <-ctx.Done():
		return false
	case <-x.b.Ctx.Done():
		return false
	}
}

// fails tells if this is one of the attempts which fail.
func (x *srv24d) fails() bool {
	x.mx.Lock()
	defer x.mx.Unlock()
	x.tries++
	return x.tries <= x.s.Tries
}

func (x *srv24d) count(n *int) { x.mx.Lock(); *n++; x.mx.Unlock() }

func (x *srv24d) endless(w http.ResponseWriter, r *http.Request) {
	x.once.Do(func() { close(x.hangs) })
	w.WriteHeader(404)
	for r.Context().Err() == nil && x.b.Ctx.Err() == nil {
		if _, err := w.Write(make([]byte, 100)); err != nil {
			return
		}
		w.(http.Flusher).Flush()
		select {
		case <-time.After(time.Second):
		case <-r.Context().Done():
		case <-x.b.Ctx.Done():
		}
	}
}

func (x *srv24d) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	switch {
	case strings.HasSuffix(r.URL.Path, "/negotiate"):
		if x.fails() {
			w.WriteHeader(500)
			return
		}
		tr := map[string]any{"transport": "WebSockets", "transferFormats": []string{"Text", "Binary"}}
		if x.s.T == "sse" {
			tr = map[string]any{"transport": "ServerSentEvents", "transferFormats": []string{"Text"}}
		}
		m := map[string]any{"connectionId": "id", "negotiateVersion": x.s.Ver, "availableTransports": []any{tr}}
		if x.s.Ver == 1 {
			m["connectionToken"] = "token"
		}
		p, _ := json.Marshal(m)
		switch x.s.Stage {
		case "negendless":
			x.endless(w, r)
			return
		case "negnone":
			if !x.hang(r.Context()) {
				return
			}
		case "negpart":
			_, _ = w.Write(p[:20])
			w.(http.Flusher).Flush()
			p = p[20:]
			if !x.hang(r.Context()) {
				return
			}
		}
		_, _ = w.Write(p)
	case r.Method == "POST":
		x.count(&x.posts)
	case x.s.T == "sse":
		if x.s.Stage == "getendless" {
			x.endless(w, r)
			return
		}
		if x.s.Stage == "getnone" && !x.hang(r.Context()) {
			return
		}
		x.count(&x.open)
		w.Header().Set("Content-Type", "text/event-stream")
		w.WriteHeader(200)
		w.(http.Flusher).Flush()
		select {
		case <-r.Context().Done():
			x.count(&x.over)
		case <-x.b.Ctx.Done():
		}
	default:
		if x.s.Stage == "upnone" && !x.hang(r.Context()) {
			return
		}
		x.count(&x.open)
		ws, err := websocket.Accept(w, r, nil)
		if err != nil {
			x.count(&x.over)
			return
		}
		for {
			_, _, err := ws.Read(x.b.Ctx)
			if err != nil {
				if x.b.Ctx.Err() == nil {
					x.count(&x.over)
				}
				_ = ws.CloseNow()
				return
			}
			x.count(&x.posts)
		}
	}
}

func (s sc24d) valid() bool {
	st, ok := stages24d[s.Stage]
	return ok && (s.T == "ws" && st.ws || s.T == "sse" && st.sse) && s.Ver >= 0 && s.Ver <= 1 && (s.How == "stop" && !s.Conn || s.How == "ctx") && s.Tries >= 0 && s.Tries <= 5 && (!s.Conn || s.Tries == 0 && s.Same && s.Stage != "block" && s.Calls == 0) &&
		s.At >= 0 && s.At <= 100000 && s.Late >= 0 && s.Late <= 100000 && (s.Late == 0 || st.late) && s.Calls >= 0 && s.Calls <= 20
}

func run24d(c *eng.C, s sc24d) error {
	if !s.valid() {
		return eng.Discard
	}
	return InBubble(c, func(b *B) error {
		x := &srv24d{b: b, s: s, hangs: make(chan struct{}), release: make(chan struct{})}
		none, err := NewServer(b.Ctx, signalr.HubFactory(func() signalr.HubInterface { return &hub21{} }))
		if err != nil {
			return err
		}
		w := b.Web(none, func(http.Handler) http.Handler { return x })
		dials := 0
		tr := &http.Transport{DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) {
			if s.Stage == "dial" {
				// a connection for each attempt
				if dials++; dials > s.Tries && !x.hang(ctx) {
					return nil, errors.New("canceled")
				}
			}
			return w.Dial(ctx)
		}, DisableCompression: true, DisableKeepAlives: s.Stage == "dial"}
		b.Cleanup(tr.CloseIdleConnections)
		b.Wait()
		const own = "github.com/philippseith/signalr"
		base := map[string]bool{}
		for _, g := range b.Goroutines(own) {
			base[goid24(g)] = true
		}
		what := fmt.Sprintf("%s %s (%s)", s.T, s.Stage, s.How)
		ctx, cancel := context.WithCancel(b.Ctx)
		b.Cleanup(cancel)
		httpCtx, httpCancel := ctx, cancel
		if !s.Same {
			httpCtx, httpCancel = context.WithCancel(b.Ctx)
			b.Cleanup(httpCancel)
		}
		transport := signalr.TransportWebSockets
		if s.T == "sse" {
			transport = signalr.TransportServerSentEvents
		}
		connect := func() (signalr.Connection, error) {
			return signalr.NewHTTPConnection(httpCtx, w.URL, signalr.WithHTTPClient(&http.Client{Transport: tr}), signalr.WithTransports(transport), signalr.WithNegotiateVersion(s.Ver))
		}
		left := func() error {
			b.Sleep(2 * time.Second)
			for _, g := range b.Goroutines(own) {
				if !base[goid24(g)] {
					return eng.Errf("%s: left over: %s", what, clip(g))
				}
			}
			x.mx.Lock()
			defer x.mx.Unlock()
			if x.open != x.over {
				return eng.Errf("%s: %d connections were made, %d have ended", what, x.open, x.over)
			}
			return nil
		}
		waitHang := func() error {
			for k := 0; k < 1000; k++ {
				select {
				case <-x.hangs:
					b.Sleep(time.Duration(s.At) * time.Millisecond)
					c.NonTrivial()
					c.Label("%s", s.Stage)
					return nil
				default:
					b.Sleep(100 * time.Millisecond)
				}
			}
			return eng.Errf("%s: the client does not come to this point", what)
		}
		if s.Conn {
			type res struct {
				conn signalr.Connection
				err  error
			}
			done := make(chan res, 1)
			go func() { conn, err := connect(); done <- res{conn, err} }()
			if err := waitHang(); err != nil {
				return err
			}
			select {
			case r := <-done:
				return eng.Errf("%s: NewHTTPConnection returns %v %v too early", what, r.conn, r.err)
			default:
			}
			cancel()
			b.Sleep(time.Second)
			select {
			case r := <-done:
				if r.err == nil {
					return eng.Errf("%s: NewHTTPConnection returns no error after its context was canceled", what)
				}
			default:
				return eng.Errf("%s: NewHTTPConnection does not return when its context is canceled", what)
			}
			if s.Late > 0 {
				b.Sleep(time.Duration(s.Late) * time.Millisecond)
				close(x.release)
			}
			return left()
		}
		calls := 0
		cl, err := signalr.NewClient(ctx, Quiet(nil), signalr.WithReceiver(&rcv21{rec: &Rec{}}),
			signalr.WithBackoff(func() backoff.BackOff { return backoff.NewConstantBackOff(3 * time.Second) }),
			signalr.WithConnector(func() (signalr.Connection, error) {
				if calls++; s.Stage == "block" && calls > s.Tries && !x.hang(b.Ctx) {
					return nil, errors.New("over")
				}
				return connect()
			}))
		if err != nil {
			return err
		}
		cl.Start()
		if err := waitHang(); err != nil {
			return err
		}
		var pending []*Collected[signalr.InvokeResult]
		for k := range s.Calls {
			if k%3 == 2 {
				pending = append(pending, Collect(cl.PullStream("M", k)))
			} else {
				pending = append(pending, Collect(cl.Invoke("M", k)))
			}
		}
		b.Wait()
		if st := cl.State(); st != signalr.ClientConnecting {
			return eng.Errf("%s: the client is in state %d while it connects", what, st)
		}
		if s.How == "ctx" {
			cancel()
		}
		stopped := make(chan struct{})
		go func() { cl.Stop(); close(stopped) }()
		b.Sleep(time.Second)
		select {
		case <-stopped:
		default:
			return eng.Errf("%s: Stop does not return while the client connects", what)
		}
		gone := func() error {
			if st := cl.State(); st != signalr.ClientClosed {
				return eng.Errf("%s: the client is in state %d after its end", what, st)
			}
			for k, p := range pending {
				if l, closed := p.Get(); !closed || len(l) != 1 || l[0].Error == nil {
					return eng.Errf("%s: call %d yields %v (closed %v) after the end of its client", what, k, l, closed)
				}
			}
			return nil
		}
		if err := gone(); err != nil {
			return err
		}
		if s.Late > 0 {
			c.Label("late")
			b.Sleep(time.Duration(s.Late) * time.Millisecond)
			close(x.release)
			b.Sleep(10 * time.Second)
			if err := gone(); err != nil {
				return err
			}
			if x.posts > 0 {
				return eng.Errf("%s: the client sends something though it was stopped", what)
			}
		} else {
			httpCancel() // who uses another context has to cancel it
			if s.Stage == "block" {
				close(x.release)
			}
		}
		return left()
	})
}

func gen24d(r *eng.R) sc24d {
	for {
		s := sc24d{T: eng.Pick(r, "ws", "sse"), Ver: r.IntN(2), Conn: r.P(0.25), How: eng.Pick(r, "stop", "ctx"), Same: r.P(0.5), At: r.N(0, 3000), Stage: eng.Pick(r, "dial", "negnone", "negpart", "negendless", "getnone", "getendless", "upnone", "block")}
		if r.P(0.3) {
			s.Tries = r.N(1, 5)
		}
		if r.P(0.5) {
			s.Late = r.N(1, 10000)
		}
		if r.P(0.5) {
			s.Calls = r.N(1, 10)
		}
		if s.valid() {
			return s
		}
	}
}
