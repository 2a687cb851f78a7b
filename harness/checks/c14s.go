package checks

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// Many rounds of membership changes of different connections in the same groups, all at the same instant. No connection
// is changed by two operations of a round, so the membership after the round does not depend on their order.

type op14s struct {
	C    int    // connection
	G    int    // group
	K    string // add remove end
	Spin int    `json:",omitempty"`
	Log  int    `json:",omitempty"` // start at this log event (of the end of another connection)
}

type storm14 struct {
	Protos []string
	Groups int
	Rounds [][]op14s
	Yield  uint64 `json:",omitempty"`
}

type hub14s struct {
	signalr.Hub
	w *w14s
}

type w14s struct {
	mx     sync.Mutex
	groups map[string]signalr.GroupManager
}

func (h *hub14s) OnConnected(id string) {
	h.w.mx.Lock()
	defer h.w.mx.Unlock()
	h.w.groups[id] = h.Groups()
}

func gen14s(r *eng.R) storm14 {
	s := storm14{Groups: r.N(1, 3)}
	n := r.N(2, 5)
	for range n {
		s.Protos = append(s.Protos, protos[r.IntN(2)])
	}
	if r.P(0.2) {
		s.Yield = r.Uint64() | 1
	}
	ends := eng.Pick(r, 0, 0, 0.2, 0.8)
	tune := eng.Pick(r, 1, 10, 100, 1000)
	for k := r.N(5, 60); k > 0; k-- {
		var ops []op14s
		end := -1
		if r.P(ends) {
			end = r.IntN(n)
			ops = append(ops, op14s{C: end, K: "end", Spin: r.IntN(tune)})
		}
		for c := range n {
			if c == end {
				continue
			}
			for g := range s.Groups {
				if r.P(0.7) {
					o := op14s{C: c, G: g, K: eng.Pick(r, "add", "remove"), Spin: r.IntN(tune)}
					if end >= 0 && r.P(0.7) {
						o.Log = r.N(1, 12)
					}
					ops = append(ops, o)
				}
			}
		}
		s.Rounds = append(s.Rounds, ops)
	}
	return s
}

func run14s(c *eng.C, s storm14) error {
	n := len(s.Protos)
	if n > 20 || s.Groups < 0 || s.Groups > 20 || len(s.Rounds) > 1000 {
		return eng.Discard
	}
	for _, r := range s.Rounds {
		seen := map[[2]int]bool{}
		ended := map[int]bool{}
		for _, o := range r {
			if o.K == "end" {
				ended[o.C] = true
			}
		}
		for _, o := range r {
			if o.C < 0 || o.C >= n || o.K != "end" && (o.G < 0 || o.G >= s.Groups || ended[o.C]) || !has21([]string{"add", "remove", "end"}, o.K) ||
				o.Spin < 0 || o.Spin > 100000 || o.Log < 0 || o.Log > 1000 {
				return eng.Discard
			}
			k := [2]int{o.C, o.G}
			if o.K == "end" {
				k[1] = -1
			}
			if seen[k] {
				return eng.Discard
			}
			seen[k] = true
		}
	}
	return InBubble(c, func(b *B) error {
		w := &w14s{groups: map[string]signalr.GroupManager{}}
		logs := &logs14s{}
		if s.Yield != 0 {
			logs.y = NewYield(s.Yield, 25)
		}
		ctx, stop := context.WithCancel(b.Ctx)
		b.Cleanup(stop)
		srv, err := signalr.NewServer(ctx, signalr.Logger(logs, true), signalr.TimeoutInterval(time.Hour), signalr.KeepAliveInterval(time.Hour),
			signalr.HubFactory(func() signalr.HubInterface { return &hub14s{w: w} }))
		if err != nil {
			return err
		}
		raws := make([]*Raw, n)
		pos := make([]int, n)
		served := make([]*Served, n)
		connect := func(i int) error {
			id := fmt.Sprint("c", i)
			w.mx.Lock()
			delete(w.groups, id)
			w.mx.Unlock()
			own, peer := NewPipe(b.Ctx, id, id)
			raws[i] = &Raw{End: peer, Proto: s.Protos[i]}
			served[i] = Serve(srv, own)
			_, _ = raws[i].Write(Handshake(s.Protos[i]))
			b.Wait()
			pos[i] = len(raws[i].Received())
			w.mx.Lock()
			defer w.mx.Unlock()
			if w.groups[id] == nil {
				return eng.Errf("connection %d: OnConnected has not been called", i)
			}
			return nil
		}
		for i := range n {
			if err := connect(i); err != nil {
				return err
			}
		}
		member := map[[2]int]bool{}
		changes := 0
		for k, ops := range s.Rounds {
			var goOn atomic.Bool
			var ready atomic.Int32
			var wg sync.WaitGroup
			var trigs []*Trigger
			ended := -1
			for _, o := range ops {
				w.mx.Lock()
				gm := w.groups[fmt.Sprint("c", o.C)]
				w.mx.Unlock()
				tr := NewTrigger(nil)
				if o.Log > 0 {
					tr.Arm(o.Log)
					trigs = append(trigs, tr)
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					ready.Add(1)
					for !goOn.Load() {
						runtime.Gosched()
					}
					if o.Log > 0 {
						tr.Wait(0)
					}
					Spin(o.Spin)
					switch o.K {
					case "add":
						gm.AddToGroup(fmt.Sprint("g", o.G), fmt.Sprint("c", o.C))
					case "remove":
						gm.RemoveFromGroup(fmt.Sprint("g", o.G), fmt.Sprint("c", o.C))
					case "end":
						raws[o.C].CloseWith(io.EOF)
					}
				}()
				switch o.K {
				case "end":
					ended = o.C
					for g := range s.Groups {
						delete(member, [2]int{o.C, g})
					}
				case "add":
					member[[2]int{o.C, o.G}] = true
				case "remove":
					delete(member, [2]int{o.C, o.G})
				}
				changes++
			}
			logs.trigs.Store(&trigs)
			for int(ready.Load()) < len(ops) {
				runtime.Gosched()
			}
			goOn.Store(true)
			wg.Wait()
			b.Wait()
			if ended >= 0 {
				if !served[ended].Ended() {
					return eng.Errf("round %d: connection %d has not ended", k, ended)
				}
				if err := connect(ended); err != nil {
					return err
				}
			}
			for g := range s.Groups {
				srv.HubClients().Group(fmt.Sprint("g", g)).Send("note", fmt.Sprintf("r%d-g%d!", k, g))
			}
			b.Wait()
			for i := range n {
				got := raws[i].Received()
				for g := range s.Groups {
					want := 0
					if member[[2]int{i, g}] {
						want = 1
					}
					if x := bytes.Count(got[pos[i]:], fmt.Appendf(nil, "r%d-g%d!", k, g)); x != want {
						return eng.Errf("round %d %+v: a send to group %d arrives at connection %d %d times instead of %d times", k, ops, g, i, x, want)
					}
				}
				pos[i] = len(got)
			}
		}
		if changes > 10 && n > 1 {
			c.NonTrivial()
		}
		c.LabelN("changes of memberships", changes)
		return nil
	})
}

type logs14s struct {
	y     *Yield
	trigs atomic.Pointer[[]*Trigger]
}

func (l *logs14s) Log(...any) error {
	if t := l.trigs.Load(); t != nil {
		for _, t := range *t {
			_ = t.Log()
		}
	}
	if l.y != nil {
		l.y.Do()
	}
	return nil
}
