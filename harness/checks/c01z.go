package checks

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// Messages around the sizes where the encodings of lengths grow.

type sc01z struct {
	Proto, Mode, K string // Mode: pair, server (raw client), client (raw server). K: string, bytes, ints
	N              int    // size of the value
	Seed           uint64
	Style          uint64 `json:",omitempty"`
}

func gen01z(r *eng.R) sc01z {
	s := sc01z{Proto: eng.Pick(r, "json", "messagepack", "messagepack"), Mode: eng.Pick(r, "pair", "server", "client"), K: eng.Pick(r, "string", "bytes", "ints"), Seed: r.Uint64()}
	limit := eng.Pick(r, 1<<5, 1<<7, 1<<8, 1<<14, 1<<14, 1<<15, 1<<16, 1<<16, 1<<20, 1<<21, 1<<21, 1<<22)
	if s.K == "ints" {
		limit = eng.Pick(r, 1<<4, 1<<7, 1<<8, 1<<14, 1<<16, 1<<16, 1<<18)
		if s.Proto == "json" {
			limit = min(limit, 1<<16)
		}
	}
	s.N = max(limit-r.IntN(60)+r.IntN(6), 0)
	if r.P(0.1) {
		s.N += r.IntN(limit)
	}
	if r.P(0.5) {
		s.Style = r.Uint64() | 1
	}
	return s
}

func run01z(c *eng.C, s sc01z) error {
	if s.Proto != "json" && s.Proto != "messagepack" || s.N < 0 || s.N > 1<<23 || s.K == "ints" && s.N > 1<<20 {
		return eng.Discard
	}
	var v any
	rnd := eng.NewR(s.Seed, "c01z", 0)
	name := ""
	switch s.K {
	case "string":
		block := GenString(rnd, 300) + "x"
		v, name = (strings.Repeat(block, s.N/len(block)) + strings.Repeat("y", s.N%len(block))), "String"
	case "bytes":
		block := make([]byte, 251)
		for i := range block {
			block[i] = byte(rnd.Uint32())
		}
		v, name = bytes.Repeat(block, s.N/len(block)+1)[:s.N], "Bytes"
	case "ints":
		l := make([]int, s.N)
		for i := range l {
			l[i] = rnd.IntN(100) * (i%7 - 3)
		}
		v, name = l, "Ints"
	default:
		return eng.Discard
	}
	c.Label("%s/%s/%s", s.Proto, s.Mode, s.K)
	switch {
	case s.N >= 1<<21-80:
		c.Label("2 MiB or more")
	case s.N >= 1<<16-80:
		c.Label("64 KiB or more")
	case s.N >= 1<<14-80:
		c.Label("16 KiB or more")
	}
	if s.N > 0 {
		c.NonTrivial()
	}
	return InBubble(c, func(b *B) error {
		rec, crec := &Rec{}, &Rec{}
		limit := signalr.MaximumReceiveMessageSize(1 << 25)
		fail := func(f string, a ...any) error {
			return eng.Errf("%s/%s: %s of %d: %s", s.Proto, s.Mode, s.K, s.N, fmt.Sprintf(f, a...))
		}
		arrived := func(rec *Rec, method string) error {
			calls := rec.Calls()
			if len(calls) != 1 || calls[0].Method != method || len(calls[0].Args) != 1 || !SameGo(v, calls[0].Args[0]) {
				return fail("%d calls, arrived as %s", len(calls), clip(calls))
			}
			return nil
		}
		if s.Mode == "client" {
			cl, raw, err := b.RawServer(s.Proto, limit, signalr.WithReceiver(&TypeReceiver{Rec: crec, Name: "c1"}))
			if err != nil {
				return err
			}
			col := Collect(cl.Invoke("Big", v))
			b.Wait()
			l, err := raw.New()
			if err != nil || len(l) != 1 || l[0].Target != "Big" || len(l[0].Args) != 1 || !SameWire(v, l[0].Args[0]) {
				return fail("the client sent %s (%v)", clip(l), err)
			}
			_, _ = raw.Write(Encode(s.Proto, Msg{Type: 3, ID: l[0].ID, Result: WireOf(v), HasResult: true}, Style{s.Style}))
			_, _ = raw.Write(Encode(s.Proto, Msg{Type: 1, Target: "echo" + name, Args: []any{WireOf(v)}}, Style{s.Style}))
			b.Wait()
			if got, closed := col.Get(); !closed || len(got) != 1 || got[0].Error != nil || !sameResult(s.Proto, name, v, got[0].Value) {
				return fail("the result arrived as %s", clip(got))
			}
			return arrived(crec, "Echo"+name)
		}
		srv, err := NewServer(b.Ctx, signalr.HubFactory(func() signalr.HubInterface { return &TypeHub{Rec: rec} }), limit)
		if err != nil {
			return err
		}
		switch s.Mode {
		case "pair":
			cl, _, _, _, err := b.Client(srv, "c1", s.Proto, limit, signalr.WithReceiver(&TypeReceiver{Rec: crec, Name: "c1"}))
			if err != nil {
				return err
			}
			col := Collect(cl.Invoke("Echo"+name, v))
			srv.HubClients().All().Send("Echo"+name, v)
			b.Wait()
			if got, closed := col.Get(); !closed || len(got) != 1 || got[0].Error != nil || !sameResult(s.Proto, name, v, got[0].Value) {
				return fail("the result arrived as %s", clip(got))
			}
			if err := arrived(crec, "Echo"+name); err != nil {
				return err
			}
		case "server":
			raw, _ := b.Connect(srv, "c1", s.Proto)
			_, _ = raw.Write(Encode(s.Proto, Msg{Type: 1, ID: "i", HasID: true, Target: "Echo" + name, Args: []any{WireOf(v)}}, Style{s.Style}))
			b.Wait()
			l, err := raw.New()
			if err != nil || len(l) != 1 || l[0].Type != 3 || l[0].HasError || !SameWire(v, l[0].Result) {
				return fail("the server sent %s (%v)", clip(l), err)
			}
		default:
			return eng.Discard
		}
		return arrived(rec, "Echo"+name)
	})
}

// sameFloats tells if what was sent as floating point number in MessagePack arrives as one, with its sign.
func sameFloats(a, w any) bool {
	f := func(v any) (float64, bool) {
		switch x := v.(type) {
		case float32:
			return float64(x), true
		case float64:
			return x, true
		}
		return 0, false
	}
	if x, ok := f(a); ok {
		y, ok := f(w)
		return ok && math.Signbit(x) == math.Signbit(y)
	}
	switch x := a.(type) {
	case []any:
		l, ok := w.([]any)
		for i := range x {
			if !ok || i >= len(l) || !sameFloats(x[i], l[i]) {
				return len(x) == 0
			}
		}
	case map[string]any:
		m, ok := w.(map[string]any)
		for k := range x {
			if !ok || !sameFloats(x[k], m[k]) {
				return false
			}
		}
	}
	return true
}
