package lib

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"

	"github.com/philippseith/signalr"
)

// Plan tells a method of Callee what to do when it is called with the key of the plan.
type Plan struct {
	Gate    chan struct{} // when not nil, the method waits until it is closed
	Err     error         // returned by methods with an error result
	Panic   func()        // called at the end of the method
	S       string
	N       int
	F       bool
	Ch      chan int // returned by methods with a channel result
	Take    int      // upload methods return after so many items when >= 0
	Ignore  bool     // upload methods do not read at all, they wait for the gate only
	Started bool
	Ended   bool
	Up      [3][]string // what arrived on the channel parameters
	UpEnd   [3]bool     // channel parameter was seen closed
}

// World knows what the methods called by a peer should do and what they did.
type World struct {
	Rec
	mx    sync.Mutex
	plans map[string]*Plan
	gates []chan struct{}
	done  chan struct{}
}

func NewWorld(b *B) *World {
	w := &World{plans: map[string]*Plan{}, done: make(chan struct{})}
	b.Cleanup(w.ReleaseAll)
	return w
}

// NewPlan creates the plan for the key. blocked: the method waits until Release.
func (w *World) NewPlan(key string, blocked bool) *Plan {
	p := &Plan{Take: -1}
	if blocked {
		p.Gate = make(chan struct{})
	}
	w.mx.Lock()
	w.plans[key] = p
	w.mx.Unlock()
	return p
}

func (w *World) plan(key string) *Plan {
	w.mx.Lock()
	defer w.mx.Unlock()
	p := w.plans[key]
	if p == nil {
		p = &Plan{Take: -1}
		w.plans[key] = p
	}
	return p
}

// View lets f look at a plan while no method changes it.
func (w *World) View(key string, f func(p *Plan)) {
	p := w.plan(key)
	w.mx.Lock()
	defer w.mx.Unlock()
	f(p)
}

// Release lets the method go on.
func (w *World) Release(key string) {
	p := w.plan(key)
	w.mx.Lock()
	defer w.mx.Unlock()
	if p.Gate != nil {
		select {
		case <-p.Gate:
		default:
			close(p.Gate)
		}
	}
}

// ReleaseAll lets all methods go on, also those which are called later.
func (w *World) ReleaseAll() {
	w.mx.Lock()
	defer w.mx.Unlock()
	select {
	case <-w.done:
	default:
		close(w.done)
	}
}

func (w *World) wait(p *Plan) {
	if p.Gate != nil {
		select {
		case <-p.Gate:
		case <-w.done:
		}
	}
}

func (w *World) enter(method, conn, key string, args ...any) *Plan {
	p := w.plan(key)
	w.Add(method, conn, append([]any{key}, args...)...)
	w.mx.Lock()
	p.Started = true
	w.mx.Unlock()
	w.wait(p)
	return p
}

func (w *World) leave(p *Plan) {
	w.mx.Lock()
	p.Ended = true
	w.mx.Unlock()
	if p.Panic != nil {
		p.Panic()
	}
}

// Callee has the methods which are called by a peer.
type Callee struct {
	W    *World
	Conn func() string
}

func (c *Callee) conn() string {
	if c.Conn == nil {
		return ""
	}
	return c.Conn()
}

func (c *Callee) Void(key string) { c.W.leave(c.W.enter("Void", c.conn(), key)) }

func (c *Callee) One(key string) string {
	p := c.W.enter("One", c.conn(), key)
	c.W.leave(p)
	return p.S
}

// Any returns nil, a string, a number, a list without elements or a nil pointer.
func (c *Callee) Any(key string) any {
	p := c.W.enter("Any", c.conn(), key)
	c.W.leave(p)
	switch p.N & 7 {
	case 0, 1:
		return nil
	case 2:
		return p.S
	case 3:
		return p.N
	case 4:
		return []string{}
	}
	return (*string)(nil)
}

// PtrErr returns a pointer, which might be nil.
func (c *Callee) PtrErr(key string) (*string, error) {
	p := c.W.enter("PtrErr", c.conn(), key)
	c.W.leave(p)
	if p.N%2 == 0 {
		return nil, p.Err
	}
	return &p.S, p.Err
}

func (c *Callee) Two(key string) (string, int) {
	p := c.W.enter("Two", c.conn(), key)
	c.W.leave(p)
	return p.S, p.N
}

func (c *Callee) Three(key string) (string, int, bool) {
	p := c.W.enter("Three", c.conn(), key)
	c.W.leave(p)
	return p.S, p.N, p.F
}

func (c *Callee) Err(key string) error {
	p := c.W.enter("Err", c.conn(), key)
	c.W.leave(p)
	return p.Err
}

func (c *Callee) OneErr(key string) (int, error) {
	p := c.W.enter("OneErr", c.conn(), key)
	c.W.leave(p)
	return p.N, p.Err
}

func (c *Callee) TwoErr(key string) (int, string, error) {
	p := c.W.enter("TwoErr", c.conn(), key)
	c.W.leave(p)
	return p.N, p.S, p.Err
}

func (c *Callee) Chan(key string) <-chan int {
	p := c.W.enter("Chan", c.conn(), key)
	c.W.leave(p)
	return p.Ch
}

func (c *Callee) ChanErr(key string) (<-chan int, error) {
	p := c.W.enter("ChanErr", c.conn(), key)
	c.W.leave(p)
	return p.Ch, p.Err
}

func (c *Callee) BiChan(key string) chan int {
	p := c.W.enter("BiChan", c.conn(), key)
	c.W.leave(p)
	return p.Ch
}

// Args has different kinds of parameters.
func (c *Callee) Args(key string, n int, f bool, l []string) string {
	p := c.W.enter("Args", c.conn(), key, n, f, l)
	c.W.leave(p)
	return fmt.Sprint(n, f, l)
}

func (w *World) arrived(p *Plan, ch int, s string) {
	w.mx.Lock()
	p.Up[ch] = append(p.Up[ch], s)
	w.mx.Unlock()
}

func (w *World) ended(p *Plan, ch int) {
	w.mx.Lock()
	p.UpEnd[ch] = true
	w.mx.Unlock()
}

// Up receives one stream.
func (c *Callee) Up(key string, a <-chan int) string {
	p := c.W.enter("Up", c.conn(), key)
	if !p.Ignore {
		for n := 0; p.Take < 0 || n < p.Take; n++ {
			x, ok := <-a
			if !ok {
				c.W.ended(p, 0)
				break
			}
			c.W.arrived(p, 0, fmt.Sprint(x))
		}
	}
	c.W.leave(p)
	return strings.Join(p.Up[0], ",")
}

// UpErr receives one stream and may return an error.
func (c *Callee) UpErr(key string, a <-chan int) (int, error) {
	c.Up(key, a)
	p := c.W.plan(key)
	return len(p.Up[0]), p.Err
}

// Up2 receives two streams, with ordinary parameters before, between and after them.
func (c *Callee) Up2(key string, a <-chan int, n int, b <-chan string, f bool) string {
	p := c.W.enter("Up2", c.conn(), key, n, f)
	for !p.Ignore && (a != nil || b != nil) {
		select {
		case x, ok := <-a:
			if !ok {
				c.W.ended(p, 0)
				a = nil
				break
			}
			c.W.arrived(p, 0, fmt.Sprint(x))
		case x, ok := <-b:
			if !ok {
				c.W.ended(p, 1)
				b = nil
				break
			}
			c.W.arrived(p, 1, x)
		}
	}
	c.W.leave(p)
	return strings.Join(p.Up[0], ",") + "|" + strings.Join(p.Up[1], ",")
}

// Up3 receives three streams, one after the other, and has a channel which can be written too.
func (c *Callee) Up3(a chan int, b <-chan string, key string, d <-chan []int) int {
	p := c.W.enter("Up3", c.conn(), key)
	if !p.Ignore {
		for x := range a {
			c.W.arrived(p, 0, fmt.Sprint(x))
		}
		c.W.ended(p, 0)
		for x := range b {
			c.W.arrived(p, 1, x)
		}
		c.W.ended(p, 1)
		for x := range d {
			c.W.arrived(p, 2, fmt.Sprint(x))
		}
		c.W.ended(p, 2)
	}
	c.W.leave(p)
	return len(p.Up[0]) + len(p.Up[1]) + len(p.Up[2])
}

// WHub is a hub with the methods of Callee.
type WHub struct {
	signalr.Hub
	Callee
}

// NewWHub returns a hub instance.
func (w *World) NewWHub() *WHub {
	h := &WHub{}
	h.Callee = Callee{W: w, Conn: func() string { return h.ConnectionID() }}
	return h
}

func (h *WHub) OnConnected(id string)    { h.W.Add("OnConnected", id) }
func (h *WHub) OnDisconnected(id string) { h.W.Add("OnDisconnected", id) }

// WReceiver is a receiver with the methods of Callee.
type WReceiver struct {
	signalr.Receiver
	Callee
}

// HubOf is the option which lets a server use the world.
func (w *World) HubOf() func(signalr.Party) error {
	return signalr.HubFactory(func() signalr.HubInterface { return w.NewWHub() })
}

// Party is the party under test together with the raw peer it is connected with.
type Party struct {
	*Raw
	b    *B
	Role string
	W    *World
	Sv   *Served
	Cl   signalr.Client
	Srv  signalr.Server
	Id   string
	Own  *End // the end of the party under test
}

// Parties builds n connections with the party under test. A server serves all of them, clients are one per connection.
func (b *B) Parties(role, proto string, n int, w *World, opts ...func(signalr.Party) error) ([]*Party, error) {
	var l []*Party
	var srv signalr.Server
	var err error
	if role == "server" {
		if srv, err = NewServer(b.Ctx, append([]func(signalr.Party) error{w.HubOf()}, opts...)...); err != nil {
			return nil, err
		}
	}
	for i := 0; i < n; i++ {
		p := &Party{b: b, Role: role, W: w, Srv: srv, Id: fmt.Sprintf("c%d", i)}
		own, peer := NewPipe(b.Ctx, p.Id, p.Id)
		p.Own = own
		p.Raw = &Raw{End: peer, Proto: proto}
		b.Cleanup(func() { peer.CloseWith(nil) })
		if role == "server" {
			p.Sv = Serve(srv, own)
			_, _ = p.Write(Handshake(proto))
		} else {
			rcv := &WReceiver{}
			rcv.Callee = Callee{W: w, Conn: func() string { return p.Id }}
			p.Cl, err = signalr.NewClient(b.Ctx, append([]func(signalr.Party) error{Quiet(nil), signalr.WithConnection(own),
				signalr.TransferFormat(FormatOf(proto)), signalr.WithReceiver(rcv)}, opts...)...)
			if err != nil {
				return nil, err
			}
			p.Cl.Start()
			_, _ = p.Write([]byte("{}\x1e"))
		}
		b.Wait()
		if hs, ok := p.HandshakeFrame(); !ok || role == "server" && hs != "{}" {
			return nil, fmt.Errorf("handshake failed: %q", hs)
		}
		if p.Ended() {
			return nil, errors.New("connection ended directly after the handshake")
		}
		l = append(l, p)
	}
	return l, nil
}

// Ended tells if the party under test has ended the connection.
func (p *Party) Ended() bool {
	if p.Role == "server" {
		return p.Sv.Ended()
	}
	return p.Cl.State() == signalr.ClientClosed
}

// Panics are functions which panic in different ways. The text is what the panic value looks like with %v.
type PanicErr struct{ A, B int }

func (p PanicErr) Error() string { return fmt.Sprintf("custom %d %d", p.A, p.B) }

type BadErr struct{}

func (BadErr) Error() string { panic("in Error()") }

type nilErr struct{ text string }

func (e *nilErr) Error() string {
	if e == nil {
		return "nil error"
	}
	return e.text
}

type valErr struct{ text string }

func (e valErr) Error() string { return e.text }

// Errs are errors which methods return. A text is what the caller has to see, when it is not empty.
var Errs = []struct {
	Err  error
	Text string
}{
	{errors.New(""), ""},
	{valErr{}, ""},
	{&nilErr{}, ""},
	{(*nilErr)(nil), ""}, // is an error
	{(*valErr)(nil), ""}, // Error() panics
	{BadErr{}, ""},
	{PanicErr{5, 6}, "custom 5 6"},
	{errors.Join(errors.New("one"), errors.New("two")), "one\ntwo"},
	{fmt.Errorf("call: %w", context.Canceled), "call: context canceled"},
	{context.DeadlineExceeded, "context deadline exceeded"},
	{io.EOF, "EOF"},
	{valErr{"100%d %s"}, "100%d %s"},
}

type badStringer struct{ X *int }

func (b badStringer) String() string { return fmt.Sprint(*b.X) }

var Panics = []func(){
	func() { panic("text") },
	func() { panic(errors.New("an error")) },
	func() { panic(fmt.Errorf("wrapped: %w", PanicErr{1, 2})) },
	func() { panic(PanicErr{3, 4}) },
	func() { panic(42) },
	func() { panic(nil) },
	func() { var m map[string]int; m["a"] = 1 },
	func() { var p *PanicErr; p.A = 1 },
	func() { var l []int; _ = l[len(l)+3] },
	func() { panic(BadErr{}) },
	func() { panic(badStringer{}) },
	func() { panic("") },
	func() { panic([]any{1, "x", nil}) },
	func() { x := 0; _ = 1 / x },
	func() { var i any = "s"; _ = i.(int) },
	func() { ch := make(chan int); close(ch); close(ch) },
	func() { panic(strings.Repeat("long ", 3000)) },
	func() { panic("with \"quotes\", \x1e and \u2028 and \xff") },
	func() { panic(struct{ signalr.Hub }{}) },
	func() { defer func() { panic("second") }(); panic("first") },
	func() { runtime.Goexit() }, // what t.FailNow() does
}
