package checks

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"time"

	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// Connections end at any step of their establishment, together with calls which store items and join groups.

type conn15r struct {
	Proto string
	End   string // eof readerr close cancel writefail stop
	Log   int    // log events since the handshake request was written
	Tune  int    `json:",omitempty"`
	Calls int    `json:",omitempty"` // written together with the handshake request
	Two   bool   `json:",omitempty"` // in two writes
}

type race15 struct {
	PerConn bool
	Conns   []conn15r
	Yield   uint64
}

type hub15r struct {
	signalr.Hub
	w  *w15r
	id string // of the connection it was made for
	n  int
}

type w15r struct {
	mx    sync.Mutex
	on    map[string]int
	off   map[string]int
	calls map[string]int
	made  map[string]int
	inst  map[string]*hub15r
	bad   []string
}

func (h *hub15r) see(k string) string {
	id := h.ConnectionID()
	h.w.mx.Lock()
	defer h.w.mx.Unlock()
	switch k {
	case "on":
		h.w.on[id]++
	case "off":
		h.w.off[id]++
	default:
		h.w.calls[id]++
	}
	if h.id != "" {
		if h.id != id {
			h.w.bad = append(h.w.bad, fmt.Sprintf("the instance made for %s is used for %s", h.id, id))
		}
		if o := h.w.inst[id]; o != nil && o != h {
			h.w.bad = append(h.w.bad, "two instances are used for "+id)
		}
		h.w.inst[id] = h
	} else if h.n++; h.n > 1 {
		h.w.bad = append(h.w.bad, "an instance is used for several calls")
	}
	return id
}

func (h *hub15r) OnConnected(id string) {
	if me := h.see("on"); me != id {
		h.w.mx.Lock()
		h.w.bad = append(h.w.bad, "OnConnected of "+me+" is called with "+id)
		h.w.mx.Unlock()
	}
	h.Groups().AddToGroup("everybody", id)
	h.Items().Store("on", id)
}
func (h *hub15r) OnDisconnected(id string) {
	if me := h.see("off"); me != id {
		h.w.mx.Lock()
		h.w.bad = append(h.w.bad, "OnDisconnected of "+me+" is called with "+id)
		h.w.mx.Unlock()
	}
}
func (h *hub15r) Work(k int) string {
	id := h.see("work")
	h.Groups().AddToGroup("everybody", id)
	h.Items().Store(k, id)
	h.Items().Range(func(key, v any) bool {
		if v != any(id) {
			h.w.mx.Lock()
			h.w.bad = append(h.w.bad, fmt.Sprintf("%s sees the item %v of %v", id, key, v))
			h.w.mx.Unlock()
		}
		return true
	})
	return id
}

func gen15r(r *eng.R) race15 {
	s := race15{PerConn: r.P(0.5)}
	if r.P(0.3) {
		s.Yield = r.Uint64() | 1
	}
	stop := r.P(0.1)
	for n := r.N(1, 8); n > 0; n-- {
		cn := conn15r{Proto: protos[r.IntN(2)], End: eng.Pick(r, "eof", "readerr", "close", "cancel", "writefail"), Log: 1 + r.Heavy(60), Tune: eng.Pick(r, 0, 30, 300, 3000), Calls: r.Heavy(10), Two: r.P(0.3)}
		if stop && n == 1 {
			cn.End = "stop"
		}
		s.Conns = append(s.Conns, cn)
	}
	return s
}

func run15r(c *eng.C, s race15) error {
	if len(s.Conns) > 100 {
		return eng.Discard
	}
	for _, cn := range s.Conns {
		if cn.Proto != "json" && cn.Proto != "messagepack" || !has21([]string{"eof", "readerr", "close", "cancel", "writefail", "stop"}, cn.End) || cn.Log < 1 || cn.Tune < 0 || cn.Tune > 100000 || cn.Calls < 0 || cn.Calls > 100 {
			return eng.Discard
		}
	}
	return InBubble(c, func(b *B) error {
		w := &w15r{on: map[string]int{}, off: map[string]int{}, calls: map[string]int{}, made: map[string]int{}, inst: map[string]*hub15r{}}
		var y *Yield
		if s.Yield != 0 {
			y = NewYield(s.Yield, 25)
		}
		trigs := &multi11{y: y}
		for range s.Conns {
			trigs.l = append(trigs.l, NewTrigger(nil))
		}
		ctx, stop := context.WithCancel(b.Ctx)
		b.Cleanup(stop)
		opts := []func(signalr.Party) error{signalr.Logger(trigs, true), signalr.TimeoutInterval(10 * time.Second), signalr.KeepAliveInterval(5 * time.Second), signalr.HandshakeTimeout(5 * time.Second)}
		if s.PerConn {
			opts = append(opts, signalr.PerConnectionHubFactory(func(id string) signalr.HubInterface {
				w.mx.Lock()
				defer w.mx.Unlock()
				w.made[id]++
				return &hub15r{w: w, id: id}
			}))
		} else {
			opts = append(opts, signalr.HubFactory(func() signalr.HubInterface { return &hub15r{w: w} }))
		}
		srv, err := signalr.NewServer(ctx, opts...)
		if err != nil {
			return err
		}
		var raws []*Raw
		var served []*Served
		for i, cn := range s.Conns {
			id := fmt.Sprint("c", i)
			own, peer := NewPipe(b.Ctx, id, id)
			raw := &Raw{End: peer, Proto: cn.Proto}
			raws = append(raws, raw)
			served = append(served, Serve(srv, own))
			p := Handshake(cn.Proto)
			var q []byte
			for k := range cn.Calls {
				q = append(q, Encode(cn.Proto, Msg{Type: 1, ID: fmt.Sprint(k), HasID: true, Target: "work", Args: []any{k}}, Style{})...)
			}
			trigs.l[i].Arm(cn.Log)
			go func() {
				trigs.l[i].Wait(cn.Tune)
				switch cn.End {
				case "eof":
					raw.CloseWith(io.EOF)
				case "readerr":
					raw.CloseWith(errors.New("read error"))
				case "close":
					raw.Send(Msg{Type: 7})
				case "cancel":
					own.Cancel()
				case "writefail":
					own.FailWriteAfter(1, errors.New("write error"))
				case "stop":
					stop()
				}
			}()
			if cn.Two {
				_, _ = raw.Write(p)
				_, _ = raw.Write(q)
			} else {
				_, _ = raw.Write(append(p, q...))
			}
		}
		b.Sleep(30 * time.Second)
		sizes := map[int]int{}
		for i, cn := range s.Conns {
			if !served[i].Ended() {
				return eng.Errf("connection %d (%+v) has not ended", i, cn)
			}
			sizes[i] = len(raws[i].Received())
		}
		srv.HubClients().All().Send("note")
		srv.HubClients().Group("everybody").Send("note")
		b.Sleep(time.Second)
		w.mx.Lock()
		defer w.mx.Unlock()
		for i, cn := range s.Conns {
			id := fmt.Sprint("c", i)
			if w.on[id] > 1 || w.on[id] != w.off[id] || w.calls[id] > cn.Calls {
				return eng.Errf("connection %d (%+v): OnConnected was called %d times, OnDisconnected %d times, methods %d times", i, cn, w.on[id], w.off[id], w.calls[id])
			}
			if w.on[id] == 0 && w.calls[id] > 0 {
				return eng.Errf("connection %d (%+v): OnConnected was not called, but methods were", i, cn)
			}
			if w.made[id] > 1 || s.PerConn && w.made[id] < w.on[id] {
				return eng.Errf("connection %d (%+v): %d instances were made", i, cn, w.made[id])
			}
			got := raws[i].Received()
			if len(got) != sizes[i] {
				return eng.Errf("connection %d (%+v) has ended, but then %q was sent", i, cn, got[sizes[i]:])
			}
			if bytes.HasPrefix(got, []byte(`{"error":"`)) && cn.End == "close" && w.on[id] == 0 {
				c.LabelN("close instead of a handshake request", 1)
				continue // the close message was written before the handshake request
			}
			if len(got) > 0 && !bytes.HasPrefix([]byte("{}\x1e"), got[:min(3, len(got))]) {
				return eng.Errf("connection %d (%+v): received %q", i, cn, got)
			}
			if len(got) > 3 && w.on[id] == 0 {
				return eng.Errf("connection %d (%+v): OnConnected was not called, but the peer receives %q", i, cn, got)
			}
			c.LabelN(fmt.Sprintf("connected %v, end %s", w.on[id] > 0, cn.End), 1)
			if w.on[id] > 0 {
				c.NonTrivial()
			}
		}
		if len(w.bad) > 0 {
			return eng.Errf("%s", w.bad[0])
		}
		return nil
	})
}
