package checks

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
	"time"

	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// Calls of a client race with their answers and with the end of the connection: everything happens at the same virtual time, only some
// thousand additions apart.

type round09 struct {
	Calls []string // invoke send pull push
	End   string   // "" werr werrkeep stop ctx close closeerr eof readerr
	At    int      // werr: number of the call whose Write takes the message, but returns an error
	Items int
	Seed  uint64
	Spin  int // additions, at most
	Log   int // the connection ends after so many log events (of the client, werr: since the answer was sent) and up to Tune additions
	Tune  int
	Late  int    `json:",omitempty"` // so many calls are made one after the other when the connection ends
	LateK string `json:",omitempty"` // their kind
}

type race09 struct {
	Proto  string
	Rounds []round09
	Yield  uint64
}

// conn09 calls sent for every message which was written. When this returns an error, Write returns it
type conn09 struct {
	*End
	proto string
	sent  func(m Msg) error
}

func (c *conn09) Write(p []byte) (int, error) {
	n, err := c.End.Write(p)
	if err != nil {
		return n, err
	}
	ms, _, err := DecodeAll(c.proto, p)
	if err != nil {
		return n, nil // handshake
	}
	for _, m := range ms {
		if err := c.sent(m); err != nil {
			return 0, err
		}
	}
	return n, nil
}

type answer09 struct {
	vals []string
	err  string
	done bool // a completion was sent
}

var ends09 = []string{"", "werr", "werrkeep", "stop", "ctx", "close", "closeerr", "eof", "readerr"}

func gen09r(r *eng.R) race09 {
	s := race09{Proto: protos[r.IntN(2)]}
	if r.P(0.3) {
		s.Yield = r.Uint64() | 1
	}
	for range r.N(1, 30) {
		rd := round09{End: ends09[r.IntN(len(ends09))], Items: r.N(0, 3), Log: r.N(0, 5) * r.N(1, 10), Tune: eng.Pick(r, 0, 30, 300, 2000), Seed: r.Uint64(), Spin: eng.Pick(r, 100, 3000, 20000, 40000, 60000)}
		if r.P(0.3) {
			rd.End, rd.Log = "werr", r.N(0, 5)
		}
		for range r.N(1, 5) {
			rd.Calls = append(rd.Calls, eng.Pick(r, "invoke", "send", "pull", "push"))
		}
		rd.At = r.IntN(len(rd.Calls))
		if r.P(0.4) {
			rd.Late, rd.LateK = r.N(1, 40), eng.Pick(r, "", "invoke", "send", "pull", "pull", "push")
		}
		s.Rounds = append(s.Rounds, rd)
	}
	return s
}

func run09r(c *eng.C, s race09) error {
	if s.Proto != "json" && s.Proto != "messagepack" || len(s.Rounds) > 50 {
		return eng.Discard
	}
	for _, r := range s.Rounds {
		ok := len(r.Calls) <= 20 && r.Late >= 0 && r.Late <= 500 && r.Spin >= 0 && r.Spin <= 200000 && r.Items >= 0 && r.Items <= 20
		for _, k := range r.Calls {
			ok = ok && (k == "invoke" || k == "send" || k == "pull" || k == "push")
		}
		known := false
		for _, e := range ends09 {
			known = known || e == r.End
		}
		if !ok || !known {
			return eng.Discard
		}
	}
	return InBubble(c, func(b *B) error {
		for i, rd := range s.Rounds {
			if err := round09run(c, b, s, i, rd); err != nil {
				return fmt.Errorf("round %d: %w", i, err)
			}
		}
		return nil
	})
}

func round09run(c *eng.C, b *B, s race09, round int, rd round09) error {
	r := eng.NewR(rd.Seed, "race09", 0)
	var mx sync.Mutex
	rnd := func() int {
		mx.Lock()
		defer mx.Unlock()
		return r.IntN(rd.Spin + 1)
	}
	ctx, cancel := context.WithCancel(b.Ctx)
	defer cancel()
	var y *Yield
	if s.Yield != 0 {
		y = NewYield(s.Yield+uint64(round), 20)
	}
	trig := NewTrigger(y)
	srv, own := NewPipe(b.Ctx, "c", "c")
	answers := map[string]*answer09{} // by key
	calls := 0
	broken := false
	write := func(m Msg) { _, _ = srv.Write(Encode(s.Proto, m, Style{})) }
	answer := func(m Msg, kind, spin int) {
		Spin(spin)
		key, _ := m.Args[0].(string)
		a := &answer09{}
		mx.Lock()
		answers[key] = a
		mx.Unlock()
		add := func(v string) {
			mx.Lock()
			a.vals = append(a.vals, v)
			mx.Unlock()
		}
		fin := func(err string) {
			mx.Lock()
			a.err, a.done = err, true
			mx.Unlock()
			write(Msg{Type: 3, ID: m.ID, HasID: true, Error: err, HasError: err != ""})
		}
		if m.Type == 4 {
			for i := range rd.Items {
				v := fmt.Sprint(key, "-", i)
				add(v)
				write(Msg{Type: 2, ID: m.ID, HasID: true, Item: v})
			}
		} else if kind == 0 {
			add("result of " + key)
			mx.Lock()
			a.done = true
			mx.Unlock()
			write(Msg{Type: 3, ID: m.ID, HasID: true, Result: "result of " + key, HasResult: true})
			return
		}
		if kind == 1 {
			fin("error of " + key)
		} else {
			fin("")
		}
	}
	conn := &conn09{End: own, proto: s.Proto, sent: func(m Msg) error {
		if m.Type != 1 && m.Type != 4 {
			return nil
		}
		mx.Lock()
		n := calls
		calls++
		was := broken
		tune := r.IntN(rd.Tune + 1)
		kind, sa, sw := r.IntN(3), r.IntN(rd.Spin+1), r.IntN(r.IntN(rd.Spin+1)+1)
		fails := strings.HasPrefix(rd.End, "werr") && n == rd.At
		if fails && rd.End == "werr" {
			broken = true
		}
		mx.Unlock()
		if was {
			return errors.New("the connection is broken")
		}
		if fails {
			go func() {
				if rd.Log > 0 {
					trig.Arm(rd.Log)
				}
				answer(m, kind, 0)
			}()
			if rd.Log > 0 {
				trig.Wait(tune)
			} else {
				Spin(sw)
			}
			return errors.New("the connection has just broken")
		}
		go answer(m, kind, sa)
		return nil
	}}
	cl, err := signalr.NewClient(ctx, signalr.Logger(trig, true), signalr.TransferFormat(FormatOf(s.Proto)), signalr.WithConnection(conn), signalr.KeepAliveInterval(time.Hour), signalr.TimeoutInterval(24*time.Hour))
	if err != nil {
		return err
	}
	hs := make(chan struct{})
	go func() {
		defer close(hs)
		var got []byte
		p := make([]byte, 1000)
		for !strings.Contains(string(got), "\x1e") {
			n, err := srv.Read(p)
			got = append(got, p[:n]...)
			if err != nil {
				return
			}
		}
		_, _ = srv.Write([]byte("{}\x1e"))
	}()
	cl.Start()
	<-hs
	b.Wait()
	if cl.State() != signalr.ClientConnected {
		return eng.Errf("the client is not connected")
	}
	kinds := append([]string{}, rd.Calls...)
	for i := range rd.Late {
		k := rd.LateK
		if k == "" {
			k = []string{"invoke", "send", "pull", "push"}[i%4]
		}
		kinds = append(kinds, k)
	}
	cols := make([]*Collected[signalr.InvokeResult], len(kinds))
	errs := make([]*Collected[error], len(kinds))
	call := func(i int) {
		key := fmt.Sprint("call ", i)
		var col *Collected[signalr.InvokeResult]
		var ec *Collected[error]
		switch kinds[i] {
		case "invoke":
			col = Collect(cl.Invoke("m", key))
		case "send":
			ec = Collect(cl.Send("m", key))
		case "pull":
			col = Collect(cl.PullStream("m", key))
		case "push":
			ch := make(chan int, 2)
			ch <- 1
			ch <- 2
			close(ch)
			col = Collect(cl.PushStreams("m", key, ch))
		}
		mx.Lock()
		cols[i], errs[i] = col, ec
		mx.Unlock()
	}
	for i := range rd.Calls {
		spin := rnd()
		go func() {
			Spin(spin)
			call(i)
		}()
	}
	endSpin := 6 * rnd()
	mx.Lock()
	endTune := r.IntN(rd.Tune + 1)
	mx.Unlock()
	if rd.Log > 0 && !strings.HasPrefix(rd.End, "werr") {
		trig.Arm(rd.Log)
	}
	go func() {
		if rd.Log > 0 {
			trig.Wait(endTune)
		} else {
			Spin(endSpin)
		}
		for g := range 2 {
			go func() {
				for i := len(rd.Calls) + g; i < len(kinds); i += 2 {
					call(i)
				}
			}()
		}
		switch rd.End {
		case "stop":
			cl.Stop()
		case "ctx":
			cancel()
		case "close":
			write(Msg{Type: 7})
		case "closeerr":
			write(Msg{Type: 7, Error: "closed by the server", HasError: true})
		case "eof":
			srv.CloseWith(io.EOF)
		case "readerr":
			srv.CloseWith(errors.New("the connection was reset"))
		}
	}()
	b.Sleep(2 * time.Millisecond) // a trigger might not be reached
	c.NonTrivial()
	c.Label("end %s", rd.End)
	srv.CloseWith(nil)
	b.Wait()
	mx.Lock()
	defer mx.Unlock()
	for i, k := range kinds {
		key := fmt.Sprint("call ", i)
		a := answers[key]
		if a == nil {
			a = &answer09{}
		}
		var vals []string
		var gotErr error
		closed := false
		if k == "send" {
			var es []error
			es, closed = errs[i].Get()
			if len(es) > 1 {
				return eng.Errf("Send (%s) delivered %d errors", key, len(es))
			}
			if len(es) == 1 {
				gotErr = es[0]
			}
		} else {
			var irs []signalr.InvokeResult
			irs, closed = cols[i].Get()
			for j, ir := range irs {
				if ir.Error != nil {
					gotErr = ir.Error
					if j != len(irs)-1 {
						return eng.Errf("%s (%s) delivered something after its error: %v", k, key, irs)
					}
				} else if ir.Value != nil {
					vals = append(vals, fmt.Sprint(ir.Value))
				}
			}
		}
		if !closed {
			return eng.Errf("%s (%s) has not ended after the end of the connection (%s)", k, key, rd.End)
		}
		if len(vals) > len(a.vals) || strings.Join(vals, ",") != strings.Join(a.vals[:len(vals)], ",") {
			return eng.Errf("%s (%s) delivered %q, but the server sent %q", k, key, vals, a.vals)
		}
		if gotErr != nil {
			c.Label("call with error")
			if strings.HasPrefix(gotErr.Error(), "error of ") && gotErr.Error() != a.err {
				return eng.Errf("%s (%s) got the error %q, the server sent %q", k, key, gotErr, a.err)
			}
			continue
		}
		c.Label("call without error")
		if !a.done || a.err != "" || k != "send" && len(vals) != len(a.vals) {
			return eng.Errf("%s (%s) ended without an error and with %q, but the server sent %q, completed: %v with error %q", k, key, vals, a.vals, a.done, a.err)
		}
	}
	return nil
}
