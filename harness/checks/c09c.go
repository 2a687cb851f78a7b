package checks

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// Calls are issued while a client connects, does not succeed, connects again or ends: the state changes between the steps of the calls.

type round09c struct {
	Threads int
	Calls   int // of each thread
	Kinds   []string
	Spin    int    // additions between two calls, at most
	Answer  int    // additions until the server answers the handshake
	End     string // "", stop, ctx, eof, refused, closed
	At      int    // additions until the end
	Again   int    `json:",omitempty"` // connections which fail before one succeeds, the client has a connector
	Back    int    `json:",omitempty"` // milliseconds between two attempts
	Seed    uint64
}

type sc09c struct {
	Proto  string
	Rounds []round09c
	Y      uint64 `json:",omitempty"`
}

var ends09c = []string{"", "stop", "ctx", "eof", "refused", "closed"}

func gen09c(r *eng.R) sc09c {
	s := sc09c{Proto: protos[r.IntN(2)]}
	if r.P(0.3) {
		s.Y = r.Uint64() | 1
	}
	for range r.N(1, 6) {
		d := round09c{Threads: r.N(1, 6), Calls: r.N(1, 12) + r.Heavy(60), Spin: eng.Pick(r, 0, 0, 100, 3000), Answer: eng.Pick(r, 0, 100, 3000, 30000, 100000), Seed: r.Uint64()}
		for range r.N(1, 3) {
			d.Kinds = append(d.Kinds, eng.Pick(r, "invoke", "invoke", "send", "pull", "push"))
		}
		if r.P(0.6) {
			d.End, d.At = ends09c[r.IntN(len(ends09c))], eng.Pick(r, 0, 100, 3000, 30000, 100000)
		}
		if r.P(0.4) {
			d.Again, d.Back = r.N(1, 4), eng.Pick(r, 0, 1, 5)
		}
		s.Rounds = append(s.Rounds, d)
	}
	return s
}

func run09c(c *eng.C, s sc09c) error {
	if s.Proto != "json" && s.Proto != "messagepack" || len(s.Rounds) > 20 {
		return eng.Discard
	}
	for _, d := range s.Rounds {
		ok := d.Threads >= 0 && d.Threads <= 20 && d.Calls >= 0 && d.Calls <= 500 && len(d.Kinds) > 0 && d.Spin >= 0 && d.Spin <= 200000 && d.Answer >= 0 && d.Answer <= 200000 &&
			d.At >= 0 && d.At <= 200000 && d.Again >= 0 && d.Again <= 10 && d.Back >= 0 && d.Back <= 1000
		for _, k := range d.Kinds {
			ok = ok && (k == "invoke" || k == "send" || k == "pull" || k == "push")
		}
		known := false
		for _, e := range ends09c {
			known = known || e == d.End
		}
		if !ok || !known {
			return eng.Discard
		}
	}
	return InBubble(c, func(b *B) error {
		for i, d := range s.Rounds {
			if err := round09cRun(c, b, s, i, d); err != nil {
				return fmt.Errorf("round %d (end %q): %w", i, d.End, err)
			}
		}
		return nil
	})
}

type hub09c struct{ signalr.Hub }

func (h *hub09c) Echo(s string) string { return s }
func (h *hub09c) Sum(s string, ch <-chan int) string {
	n := 0
	for i := range ch {
		n += i
	}
	return fmt.Sprint(s, n)
}

func round09cRun(c *eng.C, b *B, s sc09c, round int, d round09c) error {
	ctx, cancel := context.WithCancel(b.Ctx)
	defer cancel()
	var y *Yield
	if s.Y != 0 {
		y = NewYield(s.Y+uint64(round), 20)
	}
	srv, err := signalr.NewServer(b.Ctx, Quiet(y), signalr.HubFactory(func() signalr.HubInterface { return &hub09c{} }), signalr.MaxConcurrentStreams(100000),
		signalr.KeepAliveInterval(time.Hour), signalr.TimeoutInterval(24*time.Hour))
	if err != nil {
		return err
	}
	var mx sync.Mutex
	attempts, won := 0, false
	var cur *End
	connect := func() (signalr.Connection, error) {
		se, ce := NewPipe(b.Ctx, fmt.Sprint("c", round), fmt.Sprint("c", round))
		mx.Lock()
		n := attempts
		attempts++
		cur = se
		mx.Unlock()
		go func() {
			Spin(d.Answer)
			switch {
			case n < d.Again && n%2 == 0, n >= d.Again && d.End == "eof":
				se.CloseWith(io.EOF)
			case n < d.Again, n >= d.Again && d.End == "refused":
				_, _ = se.Write([]byte("{\"error\":\"not now\"}\x1e"))
			default:
				mx.Lock()
				won = true
				mx.Unlock()
				_ = srv.Serve(se)
			}
		}()
		return ce, nil
	}
	opts := []func(signalr.Party) error{Quiet(y), signalr.TransferFormat(FormatOf(s.Proto)), signalr.KeepAliveInterval(time.Hour), signalr.TimeoutInterval(24 * time.Hour)}
	if d.Again > 0 {
		left := d.Again
		if d.End == "closed" {
			left = 0
		}
		opts = append(opts, signalr.WithConnector(connect), signalr.WithBackoff(func() backoff.BackOff {
			return backoff.WithMaxRetries(backoff.NewConstantBackOff(time.Duration(d.Back)*time.Millisecond), uint64(left))
		}))
	} else {
		conn, _ := connect()
		opts = append(opts, signalr.WithConnection(conn))
	}
	cl, err := signalr.NewClient(ctx, opts...)
	if err != nil {
		return err
	}
	type call struct {
		kind, key string
		irs       *Collected[signalr.InvokeResult]
		errs      *Collected[error]
	}
	calls := make([][]*call, d.Threads)
	barrier := make(chan struct{})
	var wg sync.WaitGroup
	for t := range calls {
		wg.Add(1)
		r := eng.NewR(d.Seed, "connecting", t)
		go func() {
			defer wg.Done()
			<-barrier
			for i := range d.Calls {
				Spin(r.IntN(d.Spin + 1))
				x := &call{kind: d.Kinds[i%len(d.Kinds)], key: fmt.Sprint(t, ".", i, ":")}
				switch x.kind {
				case "invoke":
					x.irs = Collect(cl.Invoke("echo", x.key))
				case "send":
					x.errs = Collect(cl.Send("echo", x.key))
				case "pull":
					x.irs = Collect(cl.PullStream("echo", x.key))
				case "push":
					ch := make(chan int, 1)
					ch <- i
					close(ch)
					x.irs = Collect(cl.PushStreams("sum", x.key, ch))
				}
				calls[t] = append(calls[t], x)
			}
		}()
	}
	cl.Start()
	close(barrier)
	switch d.End {
	case "stop":
		go func() { Spin(d.At); cl.Stop() }()
	case "ctx":
		go func() { Spin(d.At); cancel() }()
	}
	wg.Wait()
	b.Sleep(time.Minute) // all attempts are over
	mx.Lock()
	connected := won && d.End == ""
	mx.Unlock()
	if d.Calls*d.Threads > 4 {
		c.NonTrivial()
	}
	c.Label("end %q", d.End)
	good, failed := 0, 0
	for t, l := range calls {
		for i, x := range l {
			var got []string
			var err error
			ended := false
			if x.kind == "send" {
				var es []error
				es, ended = x.errs.Get()
				if len(es) > 1 {
					return eng.Errf("%d.%d: Send delivered %v", t, i, es)
				}
				for _, e := range es {
					err = errors.Join(err, e)
				}
			} else {
				var irs []signalr.InvokeResult
				irs, ended = x.irs.Get()
				for _, ir := range irs {
					if ir.Error != nil {
						err = ir.Error
					} else {
						got = append(got, fmt.Sprint(ir.Value))
					}
				}
				// The end of a stream might be missing
				if len(irs) > 1 && (x.kind != "pull" || len(got) > 1 || err == nil || irs[1].Error == nil) {
					return eng.Errf("%d.%d: %s delivered %v", t, i, x.kind, irs)
				}
			}
			want := x.key
			if x.kind == "push" {
				want = fmt.Sprint(x.key, i)
			}
			if !ended {
				return eng.Errf("call %d.%d (%s) did not end, state of the client %v", t, i, x.kind, cl.State())
			}
			if len(got) > 0 && got[0] != want {
				return eng.Errf("call %d.%d (%s) got %q instead of %q", t, i, x.kind, got, want)
			}
			if err == nil && len(got) == 0 && x.kind != "send" {
				return eng.Errf("call %d.%d (%s) ended without result or error", t, i, x.kind)
			}
			if err != nil {
				failed++
			} else {
				good++
			}
			if connected && err != nil {
				return eng.Errf("call %d.%d (%s) failed although the client connects: %v", t, i, x.kind, err)
			}
			if !won && err == nil {
				return eng.Errf("call %d.%d (%s) did not fail although the client never was connected", t, i, x.kind)
			}
		}
	}
	c.LabelN("succeeded", good)
	c.LabelN("failed", failed)
	cl.Stop()
	mx.Lock()
	cur.CloseWith(nil)
	mx.Unlock()
	b.Wait()
	return nil
}
