package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"sync"

	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// Loggers have no influence: scenarios of other checks, with loggers which panic, fail or look at everything.

type sc31 struct {
	Mode int // see Loud
	Sc   json.RawMessage
}

func loud31(check, family string, quick, thorough int) eng.Family {
	f := eng.From(check, family, quick, thorough)
	return eng.Fam(f.Name, quick, thorough, func(r *eng.R) sc31 {
		mode := r.N(1, 4)
		b, err := json.Marshal(f.Gen(r))
		if err != nil {
			panic(err)
		}
		return sc31{mode, b}
	}, func(c *eng.C, s sc31) error {
		if s.Mode < 1 || s.Mode > 4 {
			return eng.Discard
		}
		sc, err := f.Decode(s.Sc)
		if err != nil {
			return eng.Discard
		}
		Loud.Store(int32(s.Mode))
		err = f.Run(c, sc)
		Loud.Store(0)
		var infra *eng.Infra
		if err == nil || errors.Is(err, eng.Discard) || errors.As(err, &infra) {
			return err
		}
		if sc, err2 := f.Decode(s.Sc); err2 != nil || f.Run(c, sc) != nil {
			// This is not about the logger
			c.Label("fails with a quiet logger, too (not judged)")
			return nil
		}
		return eng.Errf("with a logger which %s: %w", []string{"panics", "returns errors", "formats everything", "panics, returns errors or formats everything"}[s.Mode-1], err)
	})
}

// events: which logger gets what.

type ev31 struct {
	P     int    // party
	K     string // what happens
	Debug bool   `json:",omitempty"`
}

type sc31e struct {
	Proto   string
	Debug   []bool // of the servers
	Clients []bool
	Ev      []ev31
	Loud    int
}

type log31 struct {
	mx   sync.Mutex
	name string
	mode int
	l    []string
	bad  string
	info int
	dbg  int
}

func (l *log31) Log(kv ...any) error {
	l.mx.Lock()
	defer l.mx.Unlock()
	if len(kv)%2 != 0 {
		l.bad = fmt.Sprintf("%d keys and values", len(kv))
	}
	level := ""
	for i := 0; i+1 < len(kv); i += 2 {
		if k, ok := kv[i].(string); !ok || k == "" {
			l.bad = fmt.Sprintf("the key %v: %#v", kv[i], kv)
		}
		if kv[i] == "level" {
			level = fmt.Sprint(kv[i+1])
		}
		if kv[i] == "mark" {
			l.l = append(l.l, fmt.Sprint(kv[i+1]))
		}
	}
	switch level {
	case "info":
		l.info++
	case "debug":
		l.dbg++
	default:
		l.bad = fmt.Sprintf("the level %q", level)
	}
	switch l.mode {
	case 1:
		panic(l)
	case 2:
		return errors.New("logger")
	}
	return nil
}

type hub31 struct {
	signalr.Hub
}

func (h *hub31) Mark(s string) int {
	info, dbg := h.Logger()
	_ = info.Log("mark", "i"+s)
	_ = dbg.Log("mark", "d"+s)
	return 1
}
func (h *hub31) Boom() { panic("boom") }

var kinds31 = []string{"mark", "mark", "boom", "unknown", "badargs", "malformed", "badhandshake", "send", "idle", "old", "old", "clientmark", "clientunknown", "clientboom"}

type rcv31 struct {
	signalr.Receiver
	n int
}

func (r *rcv31) Ok(string) { r.n++ }
func (r *rcv31) Boom()     { panic("boom") }

func runE31(c *eng.C, s sc31e) error {
	if len(s.Debug) < 1 || len(s.Debug) > 3 || len(s.Clients) > 4 || len(s.Ev) > 60 || !has21(protos, s.Proto) || s.Loud < 0 || s.Loud > 2 {
		return eng.Discard
	}
	return InBubble(c, func(b *B) error {
		var logs []*log31
		var srvs []signalr.Server
		var debugs []bool
		var olds []*Raw // connections which stay
		for i, d := range s.Debug {
			l := &log31{name: fmt.Sprint("s", i), mode: s.Loud}
			srv, err := signalr.NewServer(b.Ctx, signalr.SimpleHubFactory(&hub31{}), signalr.Logger(l, d))
			if err != nil {
				return err
			}
			logs, srvs, debugs = append(logs, l), append(srvs, srv), append(debugs, d)
			r, _ := b.Connect(srv, fmt.Sprint("old", i), protos[(len(s.Ev)+i)%2])
			olds = append(olds, r)
		}
		type cl31 struct {
			cl signalr.Client
			r  *Raw
		}
		var cls []cl31
		for i, d := range s.Clients {
			l := &log31{name: fmt.Sprint("c", i), mode: s.Loud}
			own, peer := NewPipe(b.Ctx, "c", "c")
			b.Cleanup(func() { peer.CloseWith(nil) })
			cl, err := signalr.NewClient(b.Ctx, signalr.WithConnection(own), signalr.WithReceiver(&rcv31{}), signalr.Logger(l, d), signalr.TransferFormat(FormatOf(s.Proto)))
			if err != nil {
				return err
			}
			cl.Start()
			b.Wait()
			_, _ = peer.Write([]byte("{}\x1e"))
			b.Wait()
			r := &Raw{End: peer, Proto: s.Proto}
			if _, ok := r.HandshakeFrame(); !ok {
				return eng.Errf("no handshake")
			}
			cls = append(cls, cl31{cl, r})
			logs, debugs = append(logs, l), append(debugs, d)
		}
		b.Wait()
		for i, e := range s.Ev {
			counts := func() (l [][2]int) {
				for _, x := range logs {
					x.mx.Lock()
					l = append(l, [2]int{x.info, x.dbg})
					x.mx.Unlock()
				}
				return
			}
			for _, l := range logs {
				l.l = nil
			}
			from := counts()
			who := -1
			var marks []string
			debug, info := false, false // such events are expected
			server := !strings.HasPrefix(e.K, "client")
			if server && e.K != "idle" {
				who = e.P % len(srvs)
			} else if !server {
				if len(cls) == 0 {
					continue
				}
				who = e.P % len(cls)
			}
			switch e.K {
			case "mark", "boom", "unknown", "badargs", "malformed", "send":
				r, sv := b.Connect(srvs[who], fmt.Sprint("x", i), s.Proto)
				m := Msg{Type: 1, ID: "i", HasID: true, Target: "Mark", Args: []any{fmt.Sprint(i)}}
				debug = true
				switch e.K {
				case "mark", "send":
					marks = []string{fmt.Sprint("i", i)}
					if debugs[who] {
						marks = append(marks, fmt.Sprint("d", i))
					}
					m.HasID = e.K == "mark"
				case "boom":
					m.Target, m.Args, info = "Boom", []any{}, true
				case "unknown":
					m.Target, info = "Nobody", true
				case "badargs":
					m.Args, info = []any{}, true
				case "malformed":
					info = true
				}
				if e.K == "malformed" {
					_, _ = r.Write([]byte("\x03x\x1e\x1e"))
				} else {
					r.Send(m)
				}
				b.Wait()
				if e.K == "mark" {
					if ms, err := r.New(); err != nil || len(ms) != 1 || ms[0].HasError {
						return eng.Errf("the call is answered with %v %v", ms, err)
					}
				}
				r.CloseWith(nil)
				b.Wait()
				if !sv.Ended() {
					return eng.Errf("the connection does not end")
				}
			case "old":
				marks = []string{fmt.Sprint("i", i)}
				if debugs[who] {
					marks = append(marks, fmt.Sprint("d", i))
				}
				debug = true
				olds[who].Send(Msg{Type: 1, ID: fmt.Sprint(i), HasID: true, Target: "Mark", Args: []any{fmt.Sprint(i)}})
				b.Wait()
				if ms, err := olds[who].New(); err != nil || len(ms) != 1 || ms[0].HasError {
					return eng.Errf("the call is answered with %v %v", ms, err)
				}
			case "badhandshake":
				a, x := NewPipe(b.Ctx, fmt.Sprint("x", i), fmt.Sprint("x", i))
				sv := Serve(srvs[who], a)
				_, _ = x.Write([]byte("{\"protocol\":\"none\",\"version\":1}\x1e"))
				b.Wait()
				x.CloseWith(nil)
				b.Wait()
				if !sv.Ended() {
					return eng.Errf("the connection does not end")
				}
				info = true
			case "clientmark", "clientunknown", "clientboom":
				m := Msg{Type: 1, Target: "Ok", Args: []any{"x"}}
				debug = true
				if e.K == "clientunknown" {
					m.Target, info = "Nobody", true
				}
				if e.K == "clientboom" {
					m.Target, m.Args, info = "Boom", []any{}, true
				}
				cls[who].r.Send(m)
				b.Wait()
				if st := cls[who].cl.State(); st != signalr.ClientConnected {
					return eng.Errf("%s: the state of the client is %d", e.K, st)
				}
				who += len(srvs)
			case "idle":
			default:
				return eng.Discard
			}
			to := counts()
			for k, l := range logs {
				if l.bad != "" {
					return eng.Errf("an event has %s", l.bad)
				}
				i, d := to[k][0]-from[k][0], to[k][1]-from[k][1]
				switch {
				case d > 0 && !debugs[k]:
					return eng.Errf("%s: %s gets %d events of level debug which it does not want", e.K, l.name, d)
				case k != who && i+d > 0:
					return eng.Errf("%s: %s gets %d events, but nothing has happened there", e.K, l.name, i+d)
				case k == who && debug && debugs[k] && d == 0:
					return eng.Errf("%s: %s gets no events of level debug", e.K, l.name)
				case k == who && info && i == 0:
					return eng.Errf("%s: %s gets no events of level info", e.K, l.name)
				case k == who && fmt.Sprint(l.l) != fmt.Sprint(marks):
					return eng.Errf("%s: the hub logs %v, %s gets %v", e.K, marks, l.name, l.l)
				}
			}
			c.Label("%s", e.K)
			if info || len(marks) > 0 {
				c.NonTrivial()
			}
		}
		return nil
	})
}

func genE31(r *eng.R) sc31e {
	s := sc31e{Proto: eng.Pick(r, protos...), Loud: eng.Pick(r, 0, 0, 1, 2)}
	for n := r.N(1, 3); n > 0; n-- {
		s.Debug = append(s.Debug, r.P(0.5))
	}
	for n := r.N(0, 3); n > 0; n-- {
		s.Clients = append(s.Clients, r.P(0.5))
	}
	for n := r.N(1, 12); n > 0; n-- {
		s.Ev = append(s.Ev, ev31{P: r.IntN(4), K: eng.Pick(r, kinds31...)})
	}
	return s
}

func init() {
	f := loud31
	eng.Register(&eng.Check{
		ID:   "C31",
		Rule: "a case of family events is non-trivial when something went wrong or a hub used its logger; the cases of the other families by the rules of their checks",
		Families: []eng.Family{
			eng.Fam("events", 1500, 20000, genE31, runE31),
			f("C01", "library-pair", 150, 3000), f("C02", "to-server", 150, 4000), f("C02", "to-client", 150, 4000), f("C03", "attacks", 300, 10000), f("C04", "sizes", 200, 5000), f("C05", "histories", 400, 10000),
			f("C06", "dispatch", 300, 8000), f("C07", "panics", 300, 8000), f("C08", "concurrent-calls", 300, 8000), f("C09", "endings", 300, 8000), f("C09", "connecting", 200, 3000),
			f("C10", "producer", 200, 5000), f("C10", "consumer", 200, 5000), f("C11", "histories", 200, 5000), f("C11", "uploads", 200, 5000), f("C12", "receiver", 200, 5000), f("C12", "sender", 200, 5000),
			f("C13", "limits", 200, 5000), f("C13", "timeouts", 200, 5000), f("C14", "histories", 200, 5000), f("C15", "lifetimes", 200, 5000), f("C16", "traffic", 200, 5000), f("C16", "pairs", 150, 3000),
			f("C17", "server", 300, 5000), f("C17", "client", 300, 5000), f("C18", "histories", 200, 5000), f("C19", "histories", 200, 4000), f("C20", "requests", 150, 3000),
			f("C21", "calls", 100, 2000), f("C21", "servers", 100, 2000), f("C22", "histories", 100, 2000), f("C23", "server", 100, 2000), f("C24", "server", 200, 5000), f("C24", "client", 200, 5000), f("C24", "web", 60, 1500),
			f("C25", "values", 300, 8000), f("C29", "options", 100, 3000), f("C30", "wrong", 300, 8000),
		},
	})
}
