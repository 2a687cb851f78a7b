package lib

import (
	"context"
	"errors"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"sync"
	"time"

	"github.com/coder/websocket"
	"github.com/go-chi/chi/v5"
	"github.com/gorilla/mux"
	"github.com/julienschmidt/httprouter"
	"github.com/philippseith/signalr"
	"github.com/philippseith/signalr/router"
)

// MemConn is one end of an in-memory stream connection with buffers. It implements net.Conn.
type MemConn struct {
	in, out *mq
	name    string
}

// mq is one direction.
type mq struct {
	mx      sync.Mutex
	cond    *sync.Cond
	buf     []byte
	cap     int
	wclosed bool // no more data comes
	rclosed bool // nobody reads any more
	rdl     time.Time
	wdl     time.Time
	cut     func(avail int) int
	stalled bool
	total   int
	log     func(b []byte)
}

func newMq() *mq {
	q := &mq{cap: 1 << 24}
	q.cond = sync.NewCond(&q.mx)
	return q
}

// NewMemPipe returns the two ends of a connection.
func NewMemPipe() (*MemConn, *MemConn) {
	a, b := newMq(), newMq()
	return &MemConn{a, b, "a"}, &MemConn{b, a, "b"}
}

func expired(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

func (c *MemConn) Read(p []byte) (int, error) {
	q := c.in
	q.mx.Lock()
	defer q.mx.Unlock()
	for {
		if q.rclosed {
			return 0, net.ErrClosed
		}
		if expired(q.rdl) {
			return 0, os.ErrDeadlineExceeded
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(q.buf) > 0 && !q.stalled {
			n := len(q.buf)
			if q.cut != nil {
				if m := q.cut(n); m > 0 && m < n {
					n = m
				}
			}
			n = copy(p, q.buf[:n])
			q.buf = q.buf[n:]
			q.cond.Broadcast()
			return n, nil
		}
		if q.wclosed && len(q.buf) == 0 {
			return 0, io.EOF
		}
		q.cond.Wait()
	}
}

func (c *MemConn) Write(p []byte) (int, error) {
	q := c.out
	q.mx.Lock()
	defer q.mx.Unlock()
	n := 0
	for {
		if q.wclosed {
			return n, net.ErrClosed
		}
		if q.rclosed {
			return n, errors.New("broken pipe")
		}
		if expired(q.wdl) {
			return n, os.ErrDeadlineExceeded
		}
		if free := q.cap - len(q.buf); free > 0 || len(p) == n {
			m := min(free, len(p)-n)
			if m > 0 {
				q.buf = append(q.buf, p[n:n+m]...)
				q.total += m
				if q.log != nil {
					q.log(p[n : n+m])
				}
				q.cond.Broadcast()
			}
			if n += max(m, 0); n == len(p) {
				return n, nil
			}
			continue
		}
		q.cond.Wait()
	}
}

func (c *MemConn) Close() error {
	for i, q := range []*mq{c.in, c.out} {
		q.mx.Lock()
		if i == 0 {
			q.rclosed = true
		} else {
			q.wclosed = true
		}
		q.cond.Broadcast()
		q.mx.Unlock()
	}
	return nil
}

func (q *mq) deadline(d *time.Time, t time.Time) {
	q.mx.Lock()
	*d = t
	q.cond.Broadcast()
	q.mx.Unlock()
	if !t.IsZero() {
		if w := time.Until(t); w > 0 {
			time.AfterFunc(w, func() {
				q.mx.Lock()
				q.cond.Broadcast()
				q.mx.Unlock()
			})
		}
	}
}

func (c *MemConn) SetDeadline(t time.Time) error {
	_ = c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *MemConn) SetReadDeadline(t time.Time) error {
	c.in.deadline(&c.in.rdl, t)
	return nil
}
func (c *MemConn) SetWriteDeadline(t time.Time) error {
	c.out.deadline(&c.out.wdl, t)
	return nil
}

// SetCut cuts what is read by this end.
func (c *MemConn) SetCut(f func(avail int) int) {
	c.in.mx.Lock()
	c.in.cut = f
	c.in.mx.Unlock()
}

// SetCap limits what this end can write before the other one reads.
func (c *MemConn) SetCap(n int) {
	c.out.mx.Lock()
	c.out.cap = n
	c.out.cond.Broadcast()
	c.out.mx.Unlock()
}

// Stall holds back data from reads of this end.
func (c *MemConn) Stall(on bool) {
	c.in.mx.Lock()
	c.in.stalled = on
	c.in.cond.Broadcast()
	c.in.mx.Unlock()
}

type memAddr string

func (a memAddr) Network() string       { return "mem" }
func (a memAddr) String() string        { return string(a) }
func (c *MemConn) LocalAddr() net.Addr  { return memAddr(c.name) }
func (c *MemConn) RemoteAddr() net.Addr { return memAddr(c.name + "-peer") }

// Web is a HTTP server on an in-memory network with a SignalR hub mapped to /hub.
type Web struct {
	mx     sync.Mutex
	queue  chan net.Conn
	done   chan struct{}
	once   sync.Once
	http   *http.Server
	Client *http.Client
	URL    string
	Conns  []*MemConn // client ends of all connections
	peers  []*MemConn // the other ends
	OnDial func(n int, client, server *MemConn) error
	tr     *http.Transport
}

func (w *Web) Accept() (net.Conn, error) {
	select {
	case c := <-w.queue:
		return c, nil
	case <-w.done:
		return nil, net.ErrClosed
	}
}
func (w *Web) Close() error   { w.once.Do(func() { close(w.done) }); return nil }
func (w *Web) Addr() net.Addr { return memAddr("server") }

// Dial opens a connection to the server.
func (w *Web) Dial(ctx context.Context) (net.Conn, error) {
	c, _, err := w.DialBoth(ctx)
	if err != nil {
		return nil, err
	}
	return c, nil
}

// DialBoth opens a connection to the server and returns both ends of it.
func (w *Web) DialBoth(ctx context.Context) (*MemConn, *MemConn, error) {
	c, s := NewMemPipe()
	w.mx.Lock()
	n := len(w.Conns)
	w.Conns = append(w.Conns, c)
	w.peers = append(w.peers, s)
	f := w.OnDial
	w.mx.Unlock()
	if f != nil {
		if err := f(n, c, s); err != nil {
			return nil, nil, err
		}
	}
	select {
	case w.queue <- s:
		return c, s, nil
	case <-w.done:
		return nil, nil, errors.New("connection refused")
	case <-ctx.Done():
		return nil, nil, ctx.Err()
	}
}

// Web serves the hub over HTTP. wrap may be nil.
func (b *B) Web(s signalr.Server, wrap func(http.Handler) http.Handler) *Web {
	h, factory := Router("")
	s.MapHTTP(factory, "/hub")
	return b.WebOf(h, "/hub", wrap)
}

// Routers are the routers for which there are adapters.
var Routers = []string{"", "chi", "gorilla", "httprouter"}

// Router returns a new router and its adapter.
func Router(kind string) (http.Handler, func() signalr.MappableRouter) {
	switch kind {
	case "chi":
		r := chi.NewRouter()
		return r, router.WithChiRouter(r)
	case "gorilla":
		r := mux.NewRouter()
		return r, router.WithGorillaRouter(r)
	case "httprouter":
		r := httprouter.New()
		return r, router.WithHttpRouter(r)
	}
	r := http.NewServeMux()
	return r, signalr.WithHTTPServeMux(r)
}

// WebOf serves a handler. path is the path of the hub in the URL. wrap may be nil.
func (b *B) WebOf(h http.Handler, path string, wrap func(http.Handler) http.Handler) *Web {
	w := &Web{queue: make(chan net.Conn, 1000), done: make(chan struct{}), URL: "http://test.local" + path}
	if wrap != nil {
		h = wrap(h)
	}
	w.http = &http.Server{Handler: h, ErrorLog: quietLog}
	go func() { _ = w.http.Serve(w) }()
	w.tr = &http.Transport{DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) { return w.Dial(ctx) }, DisableCompression: true}
	w.Client = &http.Client{Transport: w.tr}
	b.Cleanup(w.Shutdown)
	return w
}

// DropAll ends all connections which are open now, on the side of the clients or the server.
func (w *Web) DropAll(server bool) {
	w.mx.Lock()
	l := w.Conns
	if server {
		l = w.peers
	}
	l = append([]*MemConn{}, l...)
	w.mx.Unlock()
	for _, c := range l {
		_ = c.Close()
	}
}

// Shutdown ends the server and all connections.
func (w *Web) Shutdown() {
	_ = w.Close()
	_ = w.http.Close()
	w.tr.CloseIdleConnections()
	w.mx.Lock()
	for _, c := range w.Conns {
		_ = c.Close()
	}
	w.mx.Unlock()
}

// WS is a raw WebSocket client.
type WS struct {
	Conn *websocket.Conn
	mx   sync.Mutex
	got  []byte
	msgs int
	err  error
}

// DialWS opens a WebSocket. query is appended to the URL.
func (w *Web) DialWS(ctx context.Context, query string, h http.Header, compress websocket.CompressionMode) (*WS, int, error) {
	return w.DialWSPath(ctx, "/hub", query, "", h, compress)
}

// DialWSPath is DialWS for another path and, if it is not empty, another Host header.
func (w *Web) DialWSPath(ctx context.Context, path, query, host string, h http.Header, compress websocket.CompressionMode) (*WS, int, error) {
	c, resp, err := websocket.Dial(ctx, "ws://test.local"+path+query, &websocket.DialOptions{HTTPClient: w.Client, HTTPHeader: h, Host: host, CompressionMode: compress})
	status := 0
	if resp != nil {
		status = resp.StatusCode
	}
	if err != nil {
		return nil, status, err
	}
	c.SetReadLimit(-1)
	ws := &WS{Conn: c}
	go func() {
		for {
			_, p, err := c.Read(ctx)
			ws.mx.Lock()
			if err != nil {
				ws.err = err
				ws.mx.Unlock()
				return
			}
			ws.got = append(ws.got, p...)
			ws.msgs++
			ws.mx.Unlock()
		}
	}()
	return ws, status, nil
}

// Got returns everything received and how reading ended.
func (ws *WS) Got() ([]byte, error) {
	ws.mx.Lock()
	defer ws.mx.Unlock()
	return append([]byte{}, ws.got...), ws.err
}

// SSE is a raw event stream.
type SSE struct {
	resp *http.Response
	stop context.CancelFunc
	mx   sync.Mutex
	raw  []byte
	err  error
}

// OpenSSE opens an event stream.
func (w *Web) OpenSSE(ctx context.Context, query string) (*SSE, int, error) {
	ctx, cancel := context.WithCancel(ctx)
	req, _ := http.NewRequestWithContext(ctx, "GET", w.URL+query, nil)
	req.Header.Set("Accept", "text/event-stream")
	resp, err := w.Client.Do(req)
	if err != nil {
		cancel()
		return nil, 0, err
	}
	if resp.StatusCode != 200 {
		_ = resp.Body.Close()
		cancel()
		return nil, resp.StatusCode, nil
	}
	s := &SSE{resp: resp, stop: cancel}
	go func() {
		p := make([]byte, 4096)
		for {
			n, err := resp.Body.Read(p)
			s.mx.Lock()
			s.raw = append(s.raw, p[:n]...)
			if err != nil {
				s.err = err
				s.mx.Unlock()
				return
			}
			s.mx.Unlock()
		}
	}()
	return s, 200, nil
}

// Close ends the event stream.
func (s *SSE) Close() { s.stop(); _ = s.resp.Body.Close() }

// Got returns the data of all complete events, joined, and how reading ended. It is an independent reading of the
// event stream format.
func (s *SSE) Got() ([]byte, error) {
	s.mx.Lock()
	defer s.mx.Unlock()
	return SSEData(s.raw), s.err
}

// SSEData returns the data of all complete events of an event stream.
func SSEData(raw []byte) []byte {
	var out, data []byte
	has := false
	for len(raw) > 0 {
		// a line ends with \r\n, \n or \r
		i := 0
		for i < len(raw) && raw[i] != '\n' && raw[i] != '\r' {
			i++
		}
		if i == len(raw) {
			break
		}
		line := raw[:i]
		if raw[i] == '\r' && i+1 < len(raw) && raw[i+1] == '\n' {
			i++
		}
		raw = raw[i+1:]
		if len(line) == 0 {
			if has {
				out = append(out, data...)
			}
			data, has = nil, false
			continue
		}
		k := 0
		for k < len(line) && line[k] != ':' {
			k++
		}
		if string(line[:k]) != "data" {
			continue
		}
		v := line[min(k+1, len(line)):]
		if len(v) > 0 && v[0] == ' ' {
			v = v[1:]
		}
		if has {
			data = append(data, '\n')
		}
		data, has = append(data, v...), true
	}
	return out
}

// Request makes a HTTP request and returns the status and the body.
func (w *Web) Request(ctx context.Context, method, pathQuery string, h http.Header, body io.Reader) (int, []byte, http.Header, error) {
	req, err := http.NewRequestWithContext(ctx, method, "http://test.local"+pathQuery, body)
	if err != nil {
		return 0, nil, nil, err
	}
	for k, v := range h {
		req.Header[k] = v
	}
	resp, err := w.Client.Do(req)
	if err != nil {
		return 0, nil, nil, err
	}
	defer func() { _ = resp.Body.Close() }()
	p, err := io.ReadAll(resp.Body)
	return resp.StatusCode, p, resp.Header, err
}

var quietLog = log.New(io.Discard, "", 0)
