package lib

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/philippseith/signalr"
)

// Call is one recorded method call.
type Call struct {
	Method string
	Conn   string
	Args   []any
	At     time.Time
}

func (c Call) String() string { return fmt.Sprintf("%s@%s%s", c.Method, c.Conn, short(c.Args)) }

// Rec records method calls.
type Rec struct {
	mx    sync.Mutex
	calls []Call
}

func (r *Rec) Add(method, conn string, args ...any) {
	r.mx.Lock()
	r.calls = append(r.calls, Call{method, conn, args, time.Now()})
	r.mx.Unlock()
}

func (r *Rec) Calls() []Call {
	r.mx.Lock()
	defer r.mx.Unlock()
	return append([]Call{}, r.calls...)
}

// CallsFrom returns the calls from the n-th on.
func (r *Rec) CallsFrom(n int) []Call {
	r.mx.Lock()
	defer r.mx.Unlock()
	return append([]Call{}, r.calls[n:]...)
}

func (r *Rec) Reset() {
	r.mx.Lock()
	r.calls = nil
	r.mx.Unlock()
}

// TypeHub has an echo, a stream and an upload method for every type of the universe.
type TypeHub struct {
	signalr.Hub
	Rec *Rec
}

func (h *TypeHub) conn() string { return h.ConnectionID() }

func (h *TypeHub) Multi(a int, b string, c []byte, d Deep, e bool, f float64) []any {
	h.Rec.Add("Multi", h.conn(), a, b, c, d, e, f)
	return []any{f, e, b, a}
}

func (h *TypeHub) Many(a, b, c, d, e, f, g, i, j, k, l, m string) string {
	h.Rec.Add("Many", h.conn(), a, b, c, d, e, f, g, i, j, k, l, m)
	return a + b + c + d + e + f + g + i + j + k + l + m
}

func (h *TypeHub) Nothing() { h.Rec.Add("Nothing", h.conn()) }

// TypeReceiver is a client side receiver with echo and upload methods.
type TypeReceiver struct {
	signalr.Receiver
	Rec  *Rec
	Name string
}

func (h *TypeReceiver) conn() string { return h.Name }

func (h *TypeReceiver) Multi(a int, b string, c []byte, d Deep, e bool, f float64) {
	h.Rec.Add("Multi", h.conn(), a, b, c, d, e, f)
}

// ServerOpts are options every server and client of the checks has.
func Quiet(y *Yield) func(signalr.Party) error {
	return signalr.Logger(YieldLogger{y}, y != nil || Loud.Load() != 0)
}

// Served is a connection served by a server.
type Served struct {
	Err  error
	Done chan struct{}
	At   time.Time
}

// Serve lets the server serve the connection in a goroutine.
func Serve(s signalr.Server, c signalr.Connection) *Served {
	x := &Served{Done: make(chan struct{})}
	go func() {
		x.Err = s.Serve(c)
		x.At = time.Now()
		close(x.Done)
	}()
	return x
}

// Ended tells if Serve has returned.
func (s *Served) Ended() bool {
	select {
	case <-s.Done:
		return true
	default:
		return false
	}
}

// Raw is a raw protocol peer on one end of an in-memory connection.
type Raw struct {
	*End
	Proto  string
	off    int // bytes of handshake
	seen   int // messages already returned by New
	msgs   []Msg
	pos    int // bytes decoded
	ci     int // chunk with the byte pos, and where it starts
	cstart int
}

// Handshake text for a protocol.
func Handshake(proto string) []byte {
	return []byte(`{"protocol":"` + proto + `","version":1}` + "\x1e")
}

// Send writes messages, each with one Write.
func (r *Raw) Send(ms ...Msg) {
	for _, m := range ms {
		_, _ = r.Write(Encode(r.Proto, m, Style{}))
	}
}

// HandshakeDone strips the handshake frame of the other side and returns it.
func (r *Raw) HandshakeFrame() (string, bool) {
	b := r.Received()
	for i, c := range b {
		if c == 0x1e {
			r.off = i + 1
			return string(b[:i]), true
		}
	}
	return "", false
}

// Messages decodes everything received after the handshake.
func (r *Raw) Messages() ([]Msg, error) {
	if r.off == 0 {
		if _, ok := r.HandshakeFrame(); !ok {
			return nil, nil
		}
	}
	if r.pos < r.off {
		r.pos = r.off
	}
	log, start := r.receivedFrom(&r.ci, &r.cstart, r.pos)
	r.Drain()
	var b []byte
	for i, c := range log {
		if i == 0 {
			b = append(b, c.B[r.pos-start:]...)
		} else {
			b = append(b, c.B...)
		}
	}
	m, rest, err := DecodeAll(r.Proto, b)
	if err != nil {
		return append(append([]Msg{}, r.msgs...), m...), err
	}
	// A message has arrived when the write with its last byte was made
	pos, ci := start, 0
	for i := range m {
		fl := len(m[i].Raw) + 1
		if r.Proto != "json" {
			fl = len(m[i].Raw) + uvarintLen(len(m[i].Raw))
		}
		r.pos += fl
		for ci < len(log) && pos+len(log[ci].B) < r.pos {
			pos += len(log[ci].B)
			ci++
		}
		if ci < len(log) {
			m[i].At = log[ci].At
		}
	}
	r.msgs = append(r.msgs, m...)
	if len(rest) > 0 {
		err = bad("incomplete message at quiescence: %q", clipB(rest))
	}
	return append([]Msg{}, r.msgs...), err
}

// New returns the messages received since the last call of New, without pings.
func (r *Raw) New() ([]Msg, error) {
	if _, err := r.Messages(); err != nil {
		return nil, err
	}
	n := r.msgs[min(r.seen, len(r.msgs)):]
	r.seen = len(r.msgs)
	var l []Msg
	for _, x := range n {
		if x.Type != 6 {
			l = append(l, x)
		}
	}
	return l, nil
}

func uvarintLen(n int) int {
	l := 1
	for n >= 0x80 {
		n >>= 7
		l++
	}
	return l
}

// NewServer builds a server with quiet logging.
func NewServer(ctx context.Context, opts ...func(signalr.Party) error) (signalr.Server, error) {
	return signalr.NewServer(ctx, append([]func(signalr.Party) error{Quiet(nil)}, opts...)...)
}

// Connect connects a raw client and performs the handshake. The server must run in the same bubble.
func (b *B) Connect(s signalr.Server, id, proto string) (*Raw, *Served) {
	srv, cli := NewPipe(b.Ctx, id, id+"-peer")
	sv := Serve(s, srv)
	r := &Raw{End: cli, Proto: proto}
	_, _ = r.Write(Handshake(proto))
	b.Wait()
	_, _ = r.HandshakeFrame()
	b.Cleanup(func() { cli.CloseWith(nil) })
	return r, sv
}

// FormatOf returns the TransferFormat of a protocol name.
func FormatOf(proto string) signalr.TransferFormatType {
	if proto == "json" {
		return signalr.TransferFormatText
	}
	return signalr.TransferFormatBinary
}

// Client connects a library client with a library server over an in-memory connection.
// It returns the client and the ends (server's and client's).
func (b *B) Client(s signalr.Server, id, proto string, opts ...func(signalr.Party) error) (signalr.Client, *End, *End, *Served, error) {
	srv, cli := NewPipe(b.Ctx, id, id)
	sv := Serve(s, srv)
	c, err := signalr.NewClient(b.Ctx, append([]func(signalr.Party) error{Quiet(nil), signalr.WithConnection(cli), signalr.TransferFormat(FormatOf(proto))}, opts...)...)
	if err != nil {
		return nil, nil, nil, nil, err
	}
	c.Start()
	b.Wait()
	b.Cleanup(func() { srv.CloseWith(nil) })
	return c, srv, cli, sv, nil
}

// RawServer lets a library client connect to a raw server.
func (b *B) RawServer(proto string, opts ...func(signalr.Party) error) (signalr.Client, *Raw, error) {
	srv, cli := NewPipe(b.Ctx, "c1", "c1")
	r := &Raw{End: srv, Proto: proto}
	c, err := signalr.NewClient(b.Ctx, append([]func(signalr.Party) error{Quiet(nil), signalr.WithConnection(cli), signalr.TransferFormat(FormatOf(proto))}, opts...)...)
	if err != nil {
		return nil, nil, err
	}
	c.Start()
	b.Wait()
	_, _ = r.Write([]byte("{}\x1e"))
	b.Wait()
	_, _ = r.HandshakeFrame()
	b.Cleanup(func() { srv.CloseWith(nil) })
	return c, r, nil
}

// Collect reads the channel until it is closed, in a goroutine.
type Collected[T any] struct {
	mx     sync.Mutex
	items  []T
	closed bool
	at     time.Time
}

func Collect[T any](ch <-chan T) *Collected[T] {
	c := &Collected[T]{}
	go func() {
		for x := range ch {
			c.mx.Lock()
			c.items = append(c.items, x)
			c.mx.Unlock()
		}
		c.mx.Lock()
		c.closed, c.at = true, time.Now()
		c.mx.Unlock()
	}()
	return c
}

func (c *Collected[T]) Get() ([]T, bool) {
	c.mx.Lock()
	defer c.mx.Unlock()
	return append([]T{}, c.items...), c.closed
}

func (c *Collected[T]) ClosedAt() time.Time {
	c.mx.Lock()
	defer c.mx.Unlock()
	return c.at
}
