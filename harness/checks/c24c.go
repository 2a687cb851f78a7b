package checks

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// sc24c is a library client whose connection to a raw server ends.
type sc24c struct {
	T, P  string
	Re    bool // the client has a connector, so it connects again
	Work  []work24
	Cause string
	Also  string `json:",omitempty"`
	At    int
	Stall bool   `json:",omitempty"` // the server does not read any more
	Err   string `json:",omitempty"`
	Allow bool   `json:",omitempty"`
	Yield uint64 `json:",omitempty"`
}

var (
	causes24c = []string{"stop", "ctx", "timeout", "malformed", "unknown", "toolong", "close", "eof", "readerr", "halfeof", "cancel", "writefail"}
	told24c   = map[string]bool{"stop": true, "ctx": true, "timeout": true, "malformed": true, "unknown": true, "toolong": true, "halfeof": true}
	works24c  = []string{"invoke", "send", "pull", "push", "feed", "block", "observe", "burst", "wait"}
)

type conn24c struct {
	raw    *Raw
	own    *End
	mem    *MemConn // the end of the raw server
	own2   *MemConn
	cancel context.CancelFunc
	mx     sync.Mutex
	buf    []byte
	quiet  bool
}

func (cn *conn24c) got() []byte {
	if cn.raw != nil {
		return cn.raw.Received()
	}
	cn.mx.Lock()
	defer cn.mx.Unlock()
	return append([]byte{}, cn.buf...)
}

func (cn *conn24c) write(p []byte) {
	if cn.raw != nil {
		_, _ = cn.raw.Write(p)
	} else {
		_, _ = cn.mem.Write(p)
	}
}

type rcv24 struct {
	signalr.Receiver
	x *x24c
}

func (r *rcv24) Block(s string) string {
	r.x.rec.Add("Block", "")
	<-r.x.block
	return s
}
func (r *rcv24) Echo(s string) string { r.x.rec.Add("Echo", ""); return s }

type x24c struct {
	b     *B
	s     sc24c
	rec   *Rec
	block chan struct{}
	conns []*conn24c
	mx    sync.Mutex
	cl    signalr.Client
	done  []func() bool // calls which have to come to an end
}

func (x *x24c) dial() signalr.Connection {
	cn := &conn24c{}
	ctx, cancel := context.WithCancel(x.b.Ctx)
	cn.cancel = cancel
	var conn signalr.Connection
	if x.s.T == "pipe" {
		srv, own := NewPipe(ctx, "c1", "c1")
		cn.raw, cn.own = &Raw{End: srv, Proto: x.s.P}, own
		conn = own
	} else {
		a, c := NewMemPipe()
		cn.mem, cn.own2 = a, c
		conn = signalr.NewNetConnection(ctx, c)
		x.b.Cleanup(func() { _ = a.Close(); _ = c.Close() })
		go func() {
			p := make([]byte, 1<<14)
			for {
				n, err := a.Read(p)
				cn.mx.Lock()
				cn.buf = append(cn.buf, p[:n]...)
				cn.mx.Unlock()
				if err != nil {
					return
				}
			}
		}()
	}
	x.mx.Lock()
	x.conns = append(x.conns, cn)
	x.mx.Unlock()
	return conn
}

func (x *x24c) count() int {
	x.mx.Lock()
	defer x.mx.Unlock()
	return len(x.conns)
}

func (x *x24c) accept(cn *conn24c) error {
	x.b.Wait()
	if i := bytes.IndexByte(cn.got(), 0x1e); i < 0 {
		return eng.Errf("no handshake request")
	}
	cn.write([]byte("{}\x1e"))
	x.b.Wait()
	if st := x.cl.State(); st != signalr.ClientConnected {
		return eng.Errf("client state is %d after the handshake", st)
	}
	go func() {
		for x.b.Ctx.Err() == nil {
			time.Sleep(1111 * time.Millisecond)
			cn.mx.Lock()
			on := !cn.quiet
			cn.mx.Unlock()
			if !on {
				return
			}
			cn.write(Encode(x.s.P, Msg{Type: 6}, Style{}))
		}
	}()
	return nil
}

func (cn *conn24c) drop(err error) {
	cn.mx.Lock()
	cn.quiet = true
	cn.mx.Unlock()
	if cn.raw != nil {
		cn.raw.CloseWith(err)
	} else {
		_ = cn.mem.Close()
	}
}

func ended24[T any](col *Collected[T]) func() bool {
	return func() bool { _, closed := col.Get(); return closed }
}

func (x *x24c) start(i int, w work24, cn *conn24c) {
	cl, b := x.cl, x.b
	switch w.K {
	case "invoke":
		x.done = append(x.done, ended24(Collect(cl.Invoke("Invoke", i))))
	case "send":
		x.done = append(x.done, ended24(Collect(cl.Send("Send", i))))
	case "pull":
		x.done = append(x.done, ended24(Collect(cl.PullStream("Pull", i))))
		b.Wait()
		raw := cn.got()
		if k := bytes.IndexByte(raw, 0x1e); k >= 0 {
			ms, _, _ := DecodeAll(x.s.P, raw[k+1:])
			if len(ms) > 0 && ms[len(ms)-1].Type == 4 {
				for n := 0; n < w.N; n++ {
					cn.write(Encode(x.s.P, Msg{Type: 2, ID: ms[len(ms)-1].ID, Item: n}, Style{}))
				}
			}
		}
	case "push", "feed":
		ch := make(chan int)
		if w.K == "feed" {
			go func() {
				for n := 0; ; n++ {
					select {
					case ch <- n:
						time.Sleep(time.Duration(1+w.N) * 3 * time.Millisecond)
					case <-b.Ctx.Done():
						return
					}
				}
			}()
		}
		x.done = append(x.done, ended24(Collect(cl.PushStreams("Push", ch))))
	case "block":
		cn.write(Encode(x.s.P, Msg{Type: 1, ID: fmt.Sprintf("w%d", i), Target: "Block", Args: []any{"x"}}, Style{}))
	case "burst":
		for k := 0; k <= w.N; k++ {
			cn.write(Encode(x.s.P, Msg{Type: 1, ID: fmt.Sprintf("w%d.%d", i, k), Target: "Echo", Args: []any{"x"}}, Style{}))
		}
	case "observe":
		ch := make(chan signalr.ClientState, 100)
		cancel := cl.ObserveStateChanged(ch)
		b.Cleanup(cancel)
	case "wait":
		x.done = append(x.done, ended24(Collect(cl.WaitForState(context.Background(), signalr.ClientClosed))))
	}
}

func (s sc24c) valid() bool {
	if s.T != "pipe" && s.T != "net" || !has21(protos[:], s.P) || s.At < 0 || s.At > 20000 || len(s.Work) > 40 || s.Cause == s.Also {
		return false
	}
	for _, c := range []string{s.Cause, s.Also} {
		if c != "" && (!has21(causes24c, c) || s.T != "pipe" && has21([]string{"readerr", "halfeof", "writefail"}, c)) {
			return false
		}
	}
	for _, w := range s.Work {
		if w.N < 0 || w.N > 100 || !has21(works24c, w.K) {
			return false
		}
	}
	return s.Cause != ""
}

func run24c(c *eng.C, s sc24c) error {
	if !s.valid() {
		return eng.Discard
	}
	return InBubble(c, func(b *B) error {
		x := &x24c{b: b, s: s, rec: &Rec{}, block: make(chan struct{})}
		var once sync.Once
		release := func() { once.Do(func() { close(x.block) }) }
		b.Cleanup(release)
		var y *Yield
		if s.Yield != 0 {
			y = NewYield(s.Yield, 25)
		}
		opts := []func(signalr.Party) error{Quiet(y), signalr.TransferFormat(FormatOf(s.P)), signalr.WithReceiver(&rcv24{x: x}), signalr.TimeoutInterval(5 * time.Second),
			signalr.KeepAliveInterval(2 * time.Second), signalr.MaximumReceiveMessageSize(10000), signalr.ChanReceiveTimeout(3 * time.Millisecond)}
		if s.Re {
			opts = append(opts, signalr.WithConnector(func() (signalr.Connection, error) {
				if x.count() >= 2 {
					return nil, errors.New("no more connections")
				}
				return x.dial(), nil
			}), signalr.WithBackoff(func() backoff.BackOff { return backoff.NewConstantBackOff(20 * time.Second) }))
		} else {
			opts = append(opts, signalr.WithConnection(x.dial()))
		}
		ctx, cancel := context.WithCancel(b.Ctx)
		b.Cleanup(cancel)
		var err error
		x.cl, err = signalr.NewClient(ctx, opts...)
		if err != nil {
			return err
		}
		x.cl.Start()
		b.Wait()
		e := x.conns[0]
		if err := x.accept(e); err != nil {
			return err
		}
		for i, w := range s.Work {
			x.start(i, w, e)
		}
		b.Wait()
		b.Sleep(time.Duration(s.At) * time.Millisecond)
		if st := x.cl.State(); st != signalr.ClientConnected {
			return eng.Errf("the connection ends without a reason, client state %d", st)
		}
		if s.Stall {
			if e.raw != nil {
				e.own.SetWriteCap(1)
			} else {
				e.own2.SetCap(1)
				e.mem.Stall(true)
			}
		}
		type stopped struct {
			Served
			N int
		}
		var stops []*stopped
		stop := func() {
			v := &stopped{Served: Served{Done: make(chan struct{})}}
			go func() {
				x.cl.Stop()
				if st := x.cl.State(); st != signalr.ClientClosed {
					v.Err = eng.Errf("Stop has returned, but the client state is %d", st)
				}
				if e.raw != nil {
					v.N = len(e.got())
				}
				close(v.Done)
			}()
			stops = append(stops, v)
		}
		send := func(ms ...Msg) {
			for _, m := range ms {
				e.write(Encode(s.P, m, Style{}))
			}
		}
		do := func(cause string) {
			switch cause {
			case "stop":
				stop()
			case "ctx":
				cancel()
			case "timeout":
				e.mx.Lock()
				e.quiet = true
				e.mx.Unlock()
			case "malformed":
				if s.P == "json" {
					e.write([]byte("{]\x1e"))
				} else {
					e.write([]byte{0x02, 0x91, 0xc1})
				}
			case "unknown":
				send(Msg{Type: 3, ID: "nobody", Result: "x", HasResult: true})
			case "toolong":
				send(Msg{Type: 1, Target: "Echo", Args: []any{strings.Repeat("x", 20000)}})
			case "close":
				send(Msg{Type: 7, Error: s.Err, Reconnect: s.Allow})
			case "eof":
				e.drop(io.EOF)
			case "readerr":
				e.drop(errors.New("read error"))
			case "halfeof":
				e.raw.CloseWrite(io.EOF)
			case "cancel":
				e.cancel()
			case "writefail":
				e.own.FailWriteAfter(len(e.got())+s.At%50, errors.New("write error"))
			}
		}
		do(s.Cause)
		if s.Also != "" {
			do(s.Also)
		}
		e.mx.Lock()
		e.quiet = true
		e.mx.Unlock()
		what := fmt.Sprintf("%s %s (%s %s)", s.Cause, s.Also, s.T, s.P)
		for k := 0; ; k++ {
			b.Sleep(50 * time.Millisecond)
			st := x.cl.State()
			if st == signalr.ClientClosed || s.Re && st == signalr.ClientConnecting {
				break
			}
			if k == 300 {
				return eng.Errf("%s: client state is %d 15 s later", what, st)
			}
		}
		b.Sleep(6 * time.Second) // Stop gives a peer which does not read up to 5 s
		for _, v := range stops {
			if !v.Ended() {
				return eng.Errf("%s: Stop has not returned after 6 s", what)
			}
		}
		c.Label("%s %v", s.Cause, x.cl.State())
		// The close message
		raw := e.got()
		k := bytes.IndexByte(raw, 0x1e) + 1
		if !s.Stall {
			ms, rest, err := DecodeAll(s.P, raw[k:])
			told := told24c[s.Cause] && (s.Also == "" || told24c[s.Also])
			if err != nil || told && len(rest) > 0 {
				return eng.Errf("%s: the server receives %v and %q (%v)", what, clip(fmt.Sprint(ms)), clip(string(rest)), err)
			}
			n := 0
			for k, m := range ms {
				if m.Type != 7 {
					continue
				}
				if n++; k < len(ms)-1 {
					return eng.Errf("%s: the server receives %v after the close message", what, clip(fmt.Sprint(ms[k+1:])))
				}
			}
			if told && n != 1 {
				return eng.Errf("%s: the server receives %d close messages: %v", what, n, clip(fmt.Sprint(ms)))
			}
			if told && ms[len(ms)-1].Error == "" {
				return eng.Errf("%s: the server receives %v, which does not tell the reason", what, ms[len(ms)-1])
			}
		}
		mark := len(x.rec.Calls())
		poke := func() {
			send(Msg{Type: 1, ID: "late", Target: "Echo", Args: []any{"late"}}, Msg{Type: 1, ID: "late2", Target: "Block", Args: []any{"late"}})
			if x.cl.State() == signalr.ClientClosed {
				for i, col := range []func() bool{ended24(Collect(x.cl.Invoke("Late"))), ended24(Collect(x.cl.Send("Late"))), ended24(Collect(x.cl.PullStream("Late"))), ended24(Collect(x.cl.PushStreams("Late")))} {
					x.done = append(x.done, col)
					_ = i
				}
			}
			b.Sleep(50 * time.Millisecond)
		}
		poke()
		release()
		b.Sleep(10 * time.Millisecond)
		poke()
		if s.Re && x.cl.State() == signalr.ClientConnecting {
			b.Sleep(25 * time.Second)
			if n := x.count(); n != 2 {
				return eng.Errf("%s: the client does not connect again, %d connections", what, n)
			}
			if err := x.accept(x.conns[1]); err != nil {
				return err
			}
			x.conns[1].write(Encode(s.P, Msg{Type: 1, ID: "again", Target: "Echo", Args: []any{"again"}}, Style{}))
			b.Wait()
			if !bytes.Contains(x.conns[1].got(), []byte("again")) {
				return eng.Errf("%s: the client does not answer on its new connection", what)
			}
			mark++
			poke()
			b.Sleep(20 * time.Second)
			if st := x.cl.State(); st != signalr.ClientConnected {
				return eng.Errf("%s: client state is %d on its new connection", what, st)
			}
			stop()
			b.Sleep(50 * time.Millisecond)
			if !stops[len(stops)-1].Ended() {
				return eng.Errf("%s: Stop does not return", what)
			}
			c.Label("again")
		} else {
			stop() // for good
			b.Sleep(50 * time.Millisecond)
			if !stops[len(stops)-1].Ended() {
				return eng.Errf("%s: Stop does not return after the client was closed", what)
			}
		}
		if st := x.cl.State(); st != signalr.ClientClosed {
			return eng.Errf("%s: client state is %d after Stop", what, st)
		}
		b.Sleep(30 * time.Second)
		if l := x.rec.CallsFrom(mark); len(l) > 0 {
			return eng.Errf("%s: the connection has ended, but then %v is called", what, l)
		}
		for _, v := range stops {
			if v.Err != nil {
				return v.Err
			}
			if n := len(e.got()); e.raw != nil && n > v.N && !s.Stall {
				return eng.Errf("%s: Stop has returned, but then %q was written", what, clip(string(e.got()[v.N:])))
			}
		}
		if now := e.got(); len(now) > len(raw) && !s.Stall {
			return eng.Errf("%s: the connection has ended, but then %q was written", what, clip(string(now[len(raw):])))
		}
		if st := x.cl.State(); st != signalr.ClientClosed {
			return eng.Errf("%s: client state is %d 30 s after Stop", what, st)
		}
		for i, done := range x.done {
			if !done() {
				return eng.Errf("%s: call %d has not come to an end", what, i)
			}
		}
		// Ending the transport is up to the one who provided it
		for _, cn := range x.conns {
			cn.cancel()
			cn.drop(io.EOF)
		}
		b.Sleep(30 * time.Second)
		for _, g := range b.Goroutines("github.com/philippseith/signalr") {
			return eng.Errf("%s: the client is closed, this is left over: %s", what, g)
		}
		if len(s.Work) > 0 {
			c.NonTrivial()
		}
		return nil
	})
}

func gen24c(r *eng.R) sc24c {
	for {
		s := sc24c{T: eng.Pick(r, "pipe", "pipe", "net"), P: protos[r.IntN(2)], Re: r.P(0.3), At: eng.Pick(r, 0, 0, r.N(0, 100), r.Heavy(8000)),
			Stall: r.P(0.12), Err: eng.Pick(r, "", "reason", "r\u00e4 \"x\"\n"), Allow: r.P(0.5)}
		if r.P(0.6) {
			s.Yield = r.Uint64() | 1
		}
		s.Cause = causes24c[r.IntN(len(causes24c))]
		if r.P(0.2) {
			s.Also = causes24c[r.IntN(len(causes24c))]
		}
		for k := r.Heavy(12); k > 0; k-- {
			s.Work = append(s.Work, work24{K: works24c[r.IntN(len(works24c))], N: r.Heavy(30)})
		}
		if s.valid() {
			return s
		}
	}
}
