package checks

import (
	"errors"
	"fmt"
	"strings"

	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// A session is a history of calls a raw peer makes on one or several connections of a party (server or client), together
// with the history of what the called methods do. The session model predicts, after every settled step, exactly which
// messages the peer has got for every id and which methods ran.

type opS struct {
	K     string // call, release, feed, close, cancel, badcancel, item, fin, ping
	C     int    `json:",omitempty"` // connection
	I     int    `json:",omitempty"` // call the operation is about
	J     int    `json:",omitempty"` // channel parameter the operation is about
	M     string `json:",omitempty"` // method
	T     int    `json:",omitempty"` // 1 or 4
	NoID  bool   `json:",omitempty"`
	ID    string `json:",omitempty"` // prefix of the id
	Reuse bool   `json:",omitempty"` // use the id of call I
	Sids  int    `json:",omitempty"` // use the stream ids of call Sids-1
	Res   bool   `json:",omitempty"` // fin: the completion has a result, which is the only item
	Err   string `json:",omitempty"`
	ErrK  int    `json:",omitempty"` // the method returns Errs[ErrK-1]
	Panic int    `json:",omitempty"` // 0 no panic
	Block bool   `json:",omitempty"`
	S     string `json:",omitempty"`
	N     int    `json:",omitempty"`
	Buf   int    `json:",omitempty"` // capacity of the returned channel
	Bad   int    `json:",omitempty"` // 1 too few arguments, 2 too many, 3 wrong type, 4 stream id missing, 5 surplus stream id, 6 unknown method
	Take  int    `json:",omitempty"` // upload: items to receive -1
	Ign   bool   `json:",omitempty"` // upload: method does not read
	NW    bool   `json:",omitempty"` // do not wait for quiescence
	Style uint64 `json:",omitempty"`
}

type scS struct {
	Role, Proto string
	Conns       int
	Ops         []opS
	Max         int // concurrent streams
	Cap         int // buffer capacity
	Det         bool
	Yield       uint64
	YieldPct    int
}

type methS struct {
	out  int
	err  bool
	ch   bool
	ups  int
	elem [3]string
}

var methsS = map[string]methS{
	"Void":    {},
	"One":     {out: 1},
	"Any":     {out: 1},
	"PtrErr":  {out: 1, err: true},
	"Two":     {out: 2},
	"Three":   {out: 3},
	"Err":     {err: true},
	"OneErr":  {out: 1, err: true},
	"TwoErr":  {out: 2, err: true},
	"Chan":    {out: 1, ch: true},
	"ChanErr": {out: 1, ch: true, err: true},
	"BiChan":  {out: 1, ch: true},
	"Args":    {out: 1},
	"Up":      {out: 1, ups: 1, elem: [3]string{"int"}},
	"UpErr":   {out: 1, err: true, ups: 1, elem: [3]string{"int"}},
	"Up2":     {out: 1, ups: 2, elem: [3]string{"int", "string"}},
	"Up3":     {out: 1, ups: 3, elem: [3]string{"int", "string", "ints"}},
}

type callS struct {
	op       opS
	n        int
	m        methS
	p        *Party
	key, id  string
	refused  bool
	released bool
	ch       chan int
	q        chan int
	fed      []int
	closed   bool
	canceled bool
	min      int // items that were delivered before the cancel
	got      int // items delivered at the last quiescence
	done     bool
	sids     []string
	sent     [3][]string
	fin      [3]bool
	finSeen  [3]bool // the end of the stream had arrived before the call finished
}

type sess struct {
	c     *eng.C
	b     *B
	s     scS
	w     *World
	ps    []*Party
	calls []*callS
	cur   map[string]*callS // conn/id -> running call
	byID  map[string][]Msg  // conn/id -> messages of running calls
	runs  map[string]int
	nRuns int
	open  []int // open uploads per connection
	all   [][]Msg
	stats struct{ calls, refused, panics, cancels, items, reuse int }
}

func newSess(c *eng.C, b *B, s scS) (*sess, error) {
	if s.Role != "server" && s.Role != "client" || s.Proto != "json" && s.Proto != "messagepack" || s.Conns < 1 || s.Conns > 20 || s.Cap < 1 || s.Max < 0 || s.Cap > 5000 {
		return nil, eng.Discard
	}
	x := &sess{c: c, b: b, s: s, w: NewWorld(b), cur: map[string]*callS{}, byID: map[string][]Msg{}, runs: map[string]int{}}
	opts := []func(signalr.Party) error{signalr.MaxConcurrentStreams(uint(s.Max)), signalr.StreamBufferCapacity(uint(s.Cap)), signalr.EnableDetailedErrors(s.Det),
		signalr.MaximumReceiveMessageSize(1 << 17)}
	if s.Yield != 0 {
		opts = append(opts, Quiet(NewYield(s.Yield, s.YieldPct)))
	}
	var err error
	x.ps, err = b.Parties(s.Role, s.Proto, s.Conns, x.w, opts...)
	x.open = make([]int, s.Conns)
	x.all = make([][]Msg, s.Conns)
	return x, err
}

func upItem(elem string, v int) (any, string) {
	switch elem {
	case "int":
		return v, fmt.Sprint(v)
	case "string":
		s := fmt.Sprintf("s%d", v)
		return s, s
	}
	return []any{v, v + 1}, fmt.Sprint([]int{v, v + 1})
}

// step applies one operation. It returns false when the operation does not apply.
func (x *sess) step(op opS) (bool, error) {
	call := func() *callS {
		if len(x.calls) == 0 || op.I < 0 {
			return nil
		}
		return x.calls[op.I%len(x.calls)]
	}
	switch op.K {
	case "call":
		m, ok := methsS[op.M]
		if !ok || op.C < 0 || op.C >= len(x.ps) || op.T != 1 && op.T != 4 || op.ErrK < 0 || op.ErrK > len(Errs) || op.Panic < 0 || op.Panic > len(Panics) || op.Buf < 0 || op.Buf > 5000 {
			return false, nil
		}
		if op.Bad == 4 && m.ups == 0 || op.Bad == 3 && m.ups > 0 && op.M == "Up3" {
			return false, nil
		}
		c := &callS{op: op, n: len(x.calls), m: m, p: x.ps[op.C]}
		c.key = fmt.Sprintf("k%d", c.n)
		c.id = fmt.Sprintf("%s%d", op.ID, c.n)
		if op.Reuse {
			o := call()
			if o == nil || !o.done || o.op.C != op.C || o.op.NoID {
				return false, nil
			}
			c.id = o.id
			x.stats.reuse++
		}
		if x.cur[x.ck(c)] != nil {
			return false, nil
		}
		p := x.w.NewPlan(c.key, op.Block)
		p.S, p.N, p.F = op.S, op.N, op.N%2 == 1
		if op.Err != "" {
			p.Err = errors.New(op.Err)
		}
		if op.ErrK > 0 {
			p.Err = Errs[op.ErrK-1].Err
		}
		if op.Panic > 0 {
			p.Panic = Panics[op.Panic-1]
		}
		if op.Take > 0 && (op.M == "Up" || op.M == "UpErr") {
			p.Take = op.Take - 1
		}
		p.Ignore = op.Ign
		c.ch = make(chan int, op.Buf)
		p.Ch = c.ch
		c.q = make(chan int, 5000)
		go func() {
			defer close(c.ch)
			for {
				select {
				case v, ok := <-c.q:
					if !ok {
						return
					}
					select {
					case c.ch <- v:
					case <-x.b.Ctx.Done():
						return
					}
				case <-x.b.Ctx.Done():
					return
				}
			}
		}()
		args := []any{c.key}
		switch op.M {
		case "Args":
			args = append(args, op.N, op.N%2 == 1, []any{op.S, "x"})
		case "Up2":
			args = append(args, op.N, op.N%2 == 1)
		}
		for j := 0; j < m.ups; j++ {
			c.sids = append(c.sids, fmt.Sprintf("%su%d.%d", op.ID, c.n, j))
		}
		if op.Sids > 0 {
			if op.Sids > len(x.calls) {
				return false, nil
			}
			// The streams of the other call must have ended
			o := x.calls[op.Sids-1]
			ok := m.ups > 0 && o.m.ups >= m.ups && o.op.C == op.C && (o.op.Panic == 0 || o.refused) && !x.sidsUsed(o)
			for j := 0; ok && j < m.ups; j++ {
				ok = o.refused || o.fin[j]
			}
			if ok {
				c.sids = append([]string{}, o.sids[:m.ups]...)
				x.stats.reuse++
				x.c.Label("stream ids used again")
			}
		}
		target := op.M
		sids := c.sids
		switch op.Bad {
		case 1:
			args = args[:len(args)-1]
		case 2:
			args = append(args, "surplus")
		case 3:
			args[len(args)-1] = map[string]any{"no": []any{1}}
		case 4:
			sids = sids[:len(sids)-1]
		case 5:
			sids = append(append([]string{}, sids...), "surplus")
		case 6:
			target = "No" + op.M
		}
		c.refused = op.Bad != 0 || op.T == 4 && m.out != 1
		if !c.refused && m.ups > 0 {
			if x.s.Max > 0 && x.open[op.C]+m.ups > x.s.Max {
				c.refused = true
				x.stats.refused++
				x.c.Label("refused by limit")
			} else {
				x.open[op.C] += m.ups
			}
		}
		c.released = !op.Block
		if !op.NoID {
			x.cur[x.ck(c)] = c
		}
		x.calls = append(x.calls, c)
		x.stats.calls++
		if op.Panic > 0 && !c.refused {
			x.stats.panics++
		}
		msg := Msg{Type: op.T, Target: target, Args: args, StreamIDs: sids}
		if !op.NoID {
			msg.ID, msg.HasID = c.id, true
		}
		_, _ = c.p.Write(Encode(x.s.Proto, msg, Style{op.Style}))
	case "release":
		c := call()
		if c == nil || c.released {
			return false, nil
		}
		c.released = true
		x.w.Release(c.key)
	case "feed":
		c := call()
		if c == nil || c.closed || !c.m.ch || op.N < 0 || op.N > 300 || len(c.fed) > 3000 {
			return false, nil
		}
		for k := 0; k < op.N; k++ {
			v := c.n*10000 + len(c.fed)
			c.fed = append(c.fed, v)
			c.q <- v
			x.stats.items++
		}
	case "close":
		c := call()
		if c == nil || c.closed || !c.m.ch {
			return false, nil
		}
		c.closed = true
		close(c.q)
	case "cancel":
		c := call()
		if c == nil || c.op.NoID {
			return false, nil
		}
		if x.cur[x.ck(c)] != c && x.cur[x.ck(c)] != nil {
			return false, nil // the id is used by another call now
		}
		if c.op.T == 4 && !c.refused && !c.done && !c.canceled {
			c.canceled = true
			c.min = c.got
			x.stats.cancels++
		}
		_, _ = c.p.Write(Encode(x.s.Proto, Msg{Type: 5, ID: c.id}, Style{op.Style}))
	case "badcancel":
		if op.C < 0 || op.C >= len(x.ps) {
			return false, nil
		}
		_, _ = x.ps[op.C].Write(Encode(x.s.Proto, Msg{Type: 5, ID: fmt.Sprintf("no%s%d", op.ID, op.N)}, Style{op.Style}))
	case "item":
		c := call()
		if c == nil || c.refused || op.J < 0 || op.J >= c.m.ups || c.fin[op.J] || c.op.Panic > 0 && c.finished() || op.N < 0 || op.N > 300 {
			return false, nil
		}
		for k := 0; k < op.N; k++ {
			if x.buffered(c, op.J)+1 > x.s.Cap {
				break
			}
			v, s := upItem(c.m.elem[op.J], c.n*10000+len(c.sent[op.J])*10+op.J)
			c.sent[op.J] = append(c.sent[op.J], s)
			_, _ = c.p.Write(Encode(x.s.Proto, Msg{Type: 2, ID: c.sids[op.J], Item: v}, Style{op.Style}))
			x.stats.items++
		}
	case "fin":
		c := call()
		if c == nil || c.refused || op.J < 0 || op.J >= c.m.ups || c.fin[op.J] || c.op.Panic > 0 && c.finished() {
			return false, nil
		}
		c.fin[op.J] = true
		x.open[c.op.C]--
		m := Msg{Type: 3, ID: c.sids[op.J]}
		if op.Err != "" {
			m.Error, m.HasError = op.Err, true
		} else if op.Res && len(c.sent[op.J]) == 0 && x.s.Cap > 0 {
			// A completion with a result is a stream of one item
			v, s := upItem(c.m.elem[op.J], c.n*10000+op.J)
			c.sent[op.J] = append(c.sent[op.J], s)
			m.Result, m.HasResult = v, true
			x.stats.items++
			x.c.Label("completion with result instead of items")
		}
		_, _ = c.p.Write(Encode(x.s.Proto, m, Style{op.Style}))
	case "ping":
		if op.C < 0 || op.C >= len(x.ps) {
			return false, nil
		}
		_, _ = x.ps[op.C].Write(Encode(x.s.Proto, Msg{Type: 6}, Style{op.Style}))
	default:
		return false, nil
	}
	return true, nil
}

// sidsUsed tells if another call uses the stream ids of o
func (x *sess) sidsUsed(o *callS) bool {
	for _, c := range x.calls {
		if c != o && c.op.C == o.op.C && len(c.sids) > 0 && len(o.sids) > 0 {
			for j, id := range c.sids {
				for _, oid := range o.sids {
					if id == oid && !c.refused && !c.fin[j] {
						return true
					}
				}
			}
		}
	}
	return false
}

func (x *sess) ck(c *callS) string { return fmt.Sprintf("%d/%s", c.op.C, c.id) }

// taken is how many items of each channel the method has received by now
func (c *callS) taken() (n [3]int, end [3]bool) {
	if !c.released || c.op.Ign || c.refused {
		return
	}
	switch c.op.M {
	case "Up", "UpErr":
		n[0] = len(c.sent[0])
		if c.op.Take > 0 && n[0] >= c.op.Take-1 {
			n[0] = c.op.Take - 1
		} else {
			end[0] = c.fin[0]
		}
	case "Up2":
		n[0], n[1] = len(c.sent[0]), len(c.sent[1])
		end[0], end[1] = c.fin[0], c.fin[1]
	case "Up3":
		for j := 0; j < 3; j++ {
			n[j] = len(c.sent[j])
			end[j] = c.fin[j]
			if !c.fin[j] {
				break
			}
		}
	}
	return
}

// buffered is how many items wait for the method
func (x *sess) buffered(c *callS, j int) int {
	n, _ := c.taken()
	return len(c.sent[j]) - n[j]
}

// finished tells if the method has returned (or panicked)
func (c *callS) finished() bool {
	if c.refused || !c.released {
		return false
	}
	if c.m.ups == 0 || c.op.Ign {
		return true
	}
	n, end := c.taken()
	if c.op.Take > 0 && (c.op.M == "Up" || c.op.M == "UpErr") && n[0] == c.op.Take-1 {
		return true
	}
	for j := 0; j < c.m.ups; j++ {
		if !end[j] {
			return false
		}
	}
	return true
}

// result is the value of the call
func (c *callS) result() any {
	o := c.op
	join := func(j int) string {
		n, _ := c.taken()
		return strings.Join(c.sent[j][:n[j]], ",")
	}
	switch o.M {
	case "One":
		return o.S
	case "Any":
		switch o.N & 7 {
		case 2:
			return o.S
		case 3:
			return int64(o.N)
		case 4:
			return []any{}
		}
		return nil
	case "PtrErr":
		if o.N%2 == 0 {
			return nil
		}
		return o.S
	case "Two":
		return []any{o.S, int64(o.N)}
	case "Three":
		return []any{o.S, int64(o.N), o.N%2 == 1}
	case "OneErr":
		return int64(o.N)
	case "TwoErr":
		return []any{int64(o.N), o.S}
	case "Args":
		return fmt.Sprint(o.N, o.N%2 == 1, []string{o.S, "x"})
	case "Up":
		return join(0)
	case "UpErr":
		n, _ := c.taken()
		return int64(n[0])
	case "Up2":
		return join(0) + "|" + join(1)
	case "Up3":
		n, _ := c.taken()
		return int64(n[0] + n[1] + n[2])
	}
	return nil
}

// check compares what the peers have got and what the methods did with the model. Everything has to be quiescent.
func (x *sess) check() error {
	extra := map[string]bool{} // stream ids of panicked calls
	for _, c := range x.calls {
		if c.op.Panic > 0 && len(c.sids) > 0 {
			for j, sid := range c.sids {
				if !c.finished() {
					c.finSeen[j] = c.fin[j]
				} else if !c.finSeen[j] {
					extra[fmt.Sprintf("%d/%s", c.op.C, sid)] = true
				}
			}
		}
	}
	for i, p := range x.ps {
		if p.Ended() {
			l, _ := p.New()
			return eng.Errf("connection %d has ended, last messages %v", i, l)
		}
		l, err := p.New()
		if err != nil {
			return eng.Errf("connection %d: %v", i, err)
		}
		x.all[i] = append(x.all[i], l...)
		for _, m := range l {
			k := fmt.Sprintf("%d/%s", i, m.ID)
			if m.Type != 2 && m.Type != 3 {
				return eng.Errf("connection %d: unexpected message %v", i, m)
			}
			if extra[k] && m.Type == 3 && m.HasError {
				continue
			}
			if x.cur[k] == nil {
				return eng.Errf("connection/id %s gets %v although no call with this id is pending", k, m)
			}
			x.byID[k] = append(x.byID[k], m)
		}
	}
	for k, l := range x.byID {
		if x.cur[k] == nil {
			return eng.Errf("connection/id %s gets %v although no call with this id is pending", k, l)
		}
	}
	for k, c := range x.cur {
		{
			got := x.byID[k]
			done, err := c.match(got)
			if err != nil {
				return eng.Errf("connection %d: call %d of %s (type %d, id %q): %v. Got %v", c.op.C, c.n, c.op.M, c.op.T, c.id, err, got)
			}
			if done {
				c.done = true
				delete(x.byID, k)
				delete(x.cur, k)
			}
		}
	}
	return x.checkRuns()
}

func (x *sess) checkRuns() error {
	for _, r := range x.w.CallsFrom(x.nRuns) {
		x.nRuns++
		if r.Method == "OnConnected" || r.Method == "OnDisconnected" {
			continue
		}
		x.runs[fmt.Sprintf("%v", r.Args[0])+" "+r.Method+" "+r.Conn]++
	}
	sum := 0
	for _, c := range x.calls {
		want := 1
		if c.refused {
			want = 0
		}
		m := c.op.M
		if m == "UpErr" { // implemented with Up
			m = "Up"
		}
		n := x.runs[fmt.Sprintf("%s %s c%d", c.key, m, c.op.C)]
		sum += n
		if n != want {
			return eng.Errf("method %s of call %d (%+v) ran %d times instead of %d: %v", c.op.M, c.n, c.op, n, want, x.w.Calls())
		}
		if c.m.ups > 0 && !c.refused {
			var err error
			x.w.View(c.key, func(p *Plan) {
				n, end := c.taken()
				for j := 0; j < c.m.ups; j++ {
					if !equalStrings(p.Up[j], c.sent[j][:n[j]]) {
						err = eng.Errf("call %d of %s: channel parameter %d got %s instead of %s", c.n, c.op.M, j, clip(p.Up[j]), clip(c.sent[j][:n[j]]))
					} else if p.UpEnd[j] != end[j] {
						err = eng.Errf("call %d of %s: channel parameter %d closed: %v instead of %v", c.n, c.op.M, j, p.UpEnd[j], end[j])
					}
				}
			})
			if err != nil {
				return err
			}
		}
	}
	all := 0
	for _, n := range x.runs {
		all += n
	}
	if all != sum {
		return eng.Errf("methods ran without being called: %v", x.w.Calls())
	}
	return nil
}

// match compares the messages for a call with what is expected by now.
func (c *callS) match(got []Msg) (done bool, err error) {
	items := 0
	for items < len(got) && got[items].Type == 2 {
		items++
	}
	rest := got[items:]
	comp := len(rest) == 1 && rest[0].Type == 3
	if len(rest) > 0 && !comp {
		return false, eng.Errf("messages are not items followed by one completion")
	}
	c.got = items
	wantErr := func(text string) (bool, error) {
		if items > 0 {
			return false, eng.Errf("items of a failed call")
		}
		if !comp {
			return false, eng.Errf("no completion")
		}
		if !rest[0].HasError || rest[0].Error == "" {
			return false, eng.Errf("no error in the completion")
		}
		if rest[0].HasResult && rest[0].Result != nil {
			return false, eng.Errf("error and result in the completion")
		}
		if text != "" && rest[0].Error != text {
			return false, eng.Errf("error is not %q", text)
		}
		return true, nil
	}
	none := func() (bool, error) {
		if len(got) > 0 {
			return false, eng.Errf("answer before the method has returned")
		}
		return false, nil
	}
	ok := func(want any, hasWant bool) (bool, error) {
		if !comp {
			return false, eng.Errf("no completion")
		}
		if rest[0].HasError {
			return false, eng.Errf("error in the completion")
		}
		if hasWant && !Same(want, rest[0].Result, false) || !hasWant && rest[0].HasResult && rest[0].Result != nil {
			return false, eng.Errf("result is not %v", want)
		}
		return true, nil
	}
	if c.refused {
		return wantErr("")
	}
	if c.canceled {
		if !c.m.ch {
			if !c.finished() {
				if items > 0 {
					return false, eng.Errf("item before the method has returned")
				}
				return comp, nil
			}
			if items > 1 || !comp {
				return false, eng.Errf("canceled call is not completed")
			}
			return true, nil
		}
		if items < c.min || items > len(c.fed) {
			return false, eng.Errf("%d items, %d were delivered before the cancel, %d produced", items, c.min, len(c.fed))
		}
		for i := 0; i < items; i++ {
			if !Same(int64(c.fed[i]), got[i].Item, false) {
				return false, eng.Errf("item %d is not %d", i, c.fed[i])
			}
		}
		if !c.released {
			return comp, nil
		}
		if !comp {
			return false, eng.Errf("canceled stream is not completed")
		}
		return true, nil
	}
	if !c.finished() {
		return none()
	}
	if c.op.Panic > 0 {
		return wantErr("")
	}
	if c.m.err && c.op.ErrK > 0 {
		return wantErr(Errs[c.op.ErrK-1].Text)
	}
	if c.m.err && c.op.Err != "" {
		return wantErr(c.op.Err)
	}
	if c.m.ch {
		if c.op.T == 4 {
			if items != len(c.fed) {
				return false, eng.Errf("%d items instead of %d", items, len(c.fed))
			}
			for i := 0; i < items; i++ {
				if !Same(int64(c.fed[i]), got[i].Item, false) {
					return false, eng.Errf("item %d is not %d", i, c.fed[i])
				}
			}
			if !c.closed {
				if comp {
					return false, eng.Errf("completion before the end of the stream")
				}
				return false, nil
			}
			return ok(nil, false)
		}
		if items > 0 {
			return false, eng.Errf("items for an invocation")
		}
		if len(c.fed) > 0 {
			return ok(int64(c.fed[0]), true)
		}
		if c.closed {
			if !comp {
				return false, eng.Errf("no completion")
			}
			return true, nil
		}
		return none()
	}
	want := c.result()
	if c.op.T == 4 {
		if items != 1 {
			return false, eng.Errf("%d items instead of 1", items)
		}
		if !Same(want, got[0].Item, false) {
			return false, eng.Errf("item is not %v", want)
		}
		return ok(nil, false)
	}
	if items > 0 {
		return false, eng.Errf("items for an invocation")
	}
	return ok(want, c.m.out > 0)
}

// run runs the whole session. At the end, all methods are released and all streams are closed.
func (x *sess) run(after func(x *sess, op opS) error) error {
	for i, op := range x.s.Ops {
		ok, err := x.step(op)
		if err != nil {
			return err
		}
		if !ok {
			continue
		}
		if op.NW {
			continue
		}
		x.b.Wait()
		if err := x.check(); err != nil {
			return eng.Errf("%s/%s after operation %d %s: %v", x.s.Role, x.s.Proto, i, opText(op), err)
		}
		if after != nil {
			if err := after(x, op); err != nil {
				return eng.Errf("%s/%s after operation %d %s: %v", x.s.Role, x.s.Proto, i, opText(op), err)
			}
		}
	}
	x.b.Wait()
	if err := x.check(); err != nil {
		return eng.Errf("%s/%s at the end: %v", x.s.Role, x.s.Proto, err)
	}
	for i := range x.calls {
		for _, k := range []string{"release", "close"} {
			if _, err := x.step(opS{K: k, I: i}); err != nil {
				return err
			}
		}
		for j := 0; j < 3; j++ {
			if _, err := x.step(opS{K: "fin", I: i, J: j}); err != nil {
				return err
			}
		}
	}
	x.b.Wait()
	if err := x.check(); err != nil {
		return eng.Errf("%s/%s after the end of all methods and streams: %v", x.s.Role, x.s.Proto, err)
	}
	for _, c := range x.calls {
		if !c.op.NoID && !c.done && !(c.op.Panic > 0 && c.m.ups > 0) {
			return eng.Errf("%s/%s: call %d %s is never completed", x.s.Role, x.s.Proto, c.n, opText(c.op))
		}
	}
	// Every connection still works
	for i := range x.ps {
		if _, err := x.step(opS{K: "call", C: i, M: "One", T: 1, S: "still here"}); err != nil {
			return err
		}
	}
	x.b.Wait()
	if err := x.check(); err != nil {
		return eng.Errf("%s/%s: last call: %v", x.s.Role, x.s.Proto, err)
	}
	return nil
}

func opText(op opS) string { return fmt.Sprintf("%+v", op) }

func runSess(after func(x *sess, op opS) error, final func(x *sess)) func(c *eng.C, s scS) error {
	return func(c *eng.C, s scS) error {
		return InBubble(c, func(b *B) error {
			x, err := newSess(c, b, s)
			if err != nil {
				return err
			}
			if err := x.run(after); err != nil {
				return err
			}
			c.Label("role %s", s.Role)
			c.Label("proto %s", s.Proto)
			final(x)
			return nil
		})
	}
}

// genS are the weights of a session generator
type genS struct {
	meths   []string
	noID    float64
	block   float64
	bad     float64
	err     float64
	panic   float64
	stream  float64 // probability of type 4
	reuse   float64
	ops     []string // other operations, with their frequency
	calls   float64  // probability that an operation is a call
	max     []int
	caps    []int
	conns   int
	minOps  int
	maxOps  int
	long    int // maximal length of rare long histories
	burst   float64
	maxItem int
}

var idsS = []string{"", "", "a", "1", "-", "ä", "\"", "\\", " ", "null", "0", strings.Repeat("x", 300), "{", "\u2028", "\x01"}

func (g genS) gen(r *eng.R) scS {
	s := scS{Role: eng.Pick(r, "server", "server", "client"), Proto: protos[r.IntN(2)], Conns: 1, Max: 100, Cap: 10}
	if g.conns > 1 && s.Role == "server" {
		s.Conns = r.N(1, g.conns)
	}
	if len(g.max) > 0 {
		s.Max = g.max[r.IntN(len(g.max))]
	}
	if len(g.caps) > 0 {
		s.Cap = g.caps[r.IntN(len(g.caps))]
	}
	s.Det = r.P(0.3)
	if r.P(0.4) {
		s.Yield, s.YieldPct = r.Uint64()|1, r.N(5, 80)
	}
	n := r.N(g.minOps, g.maxOps)
	if g.long > 0 && r.P(0.04) {
		n = r.N(g.maxOps, g.long)
	}
	prefix := idsS[r.IntN(len(idsS))]
	nw := 0.0
	if r.P(0.5) {
		nw = r.Float64() * 0.8
	}
	calls := 0
	meths := g.meths
	if r.P(0.3) { // concentrate on few
		meths = []string{g.meths[r.IntN(len(g.meths))], g.meths[r.IntN(len(g.meths))]}
	}
	pcall := g.calls
	if r.P(0.2) {
		pcall = 0.15 + r.Float64()*0.8
	}
	recent := func() int {
		if r.P(0.5) {
			return max(0, calls-1-r.IntN(4))
		}
		return r.IntN(max(1, calls))
	}
	for len(s.Ops) < n {
		op := opS{C: r.IntN(s.Conns), NW: r.P(nw)}
		if r.P(0.3) {
			op.Style = r.Uint64() | 1
		}
		if calls == 0 || r.P(pcall) {
			op.K = "call"
			op.M = meths[r.IntN(len(meths))]
			op.T = 1
			if r.P(g.stream) {
				op.T = 4
			}
			op.NoID = r.P(g.noID)
			op.Block = r.P(g.block)
			op.ID = prefix
			if r.P(0.1) {
				op.ID = idsS[r.IntN(len(idsS))]
			}
			if r.P(g.reuse) {
				op.Reuse, op.I = true, recent()
			}
			if calls > 0 && methsS[op.M].ups > 0 && r.P(0.3) {
				op.Sids = 1 + recent()
			}
			if r.P(g.bad) {
				op.Bad = r.N(1, 6)
			}
			if r.P(g.err) {
				op.Err = eng.Pick(r, "failed", "ä\n", "{\"error\":1}", " ", strings.Repeat("e", 2000))
			}
			if r.P(g.err / 2) {
				op.ErrK = r.N(1, len(Errs))
			}
			if r.P(g.panic) {
				op.Panic = r.N(1, len(Panics))
			}
			op.S, op.N = GenString(r, 60), r.IntN(1000)
			op.Buf = eng.Pick(r, 0, 0, 1, 5, 1000)
			if r.P(0.2) {
				op.Take = r.N(1, 6)
			}
			op.Ign = r.P(0.1)
			calls++
		} else {
			op.K = g.ops[r.IntN(len(g.ops))]
			op.I, op.J = recent(), r.IntN(3)
			op.N = r.N(1, 3)
			if r.P(0.1) {
				op.N = r.N(1, max(3, g.maxItem))
			}
			if op.K == "fin" && r.P(0.2) {
				op.Err = "upload failed"
			}
			op.Res = op.K == "fin" && r.P(0.3)
		}
		s.Ops = append(s.Ops, op)
		if g.burst > 0 && r.P(g.burst) { // the same again and again
			for k := r.N(1, 30); k > 0; k-- {
				o := op
				o.NW = true
				if o.K == "call" {
					calls++
				}
				s.Ops = append(s.Ops, o)
			}
		}
	}
	return s
}
