package checks

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync/atomic"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// A client session is a history of calls made with a library client, and of the answers of a raw server.

type opC struct {
	K     string // invoke send pull push, result err void item, feed fin cancelup, callback ping, end
	I     int    `json:",omitempty"` // call
	J     int    `json:",omitempty"` // upload channel
	N     int    `json:",omitempty"` // items
	S     string `json:",omitempty"`
	Mix   string `json:",omitempty"` // arguments of push: k key, p plain, i chan int, s chan string, r <-chan string, o chan of struct
	Cause string `json:",omitempty"`
	NW    bool   `json:",omitempty"`
	Back  bool   `json:",omitempty"` // the call is made inside of a receiver method
	Style uint64 `json:",omitempty"`
	Buf   int    `json:",omitempty"`
	Lazy  bool   `json:",omitempty"` // pull: nobody reads before the end
	V     int    `json:",omitempty"` // result, item: which value, see valsC
}

// valsC are values which are sent instead of texts.
var valsC = []any{nil, nil, false, 0, "", []any{}, map[string]any{}, []any{nil}, map[string]any{"invocationId": "1", "error": "no"}, true, -1, 1e300}

func (op opC) val(s string) any {
	if op.V > 0 {
		return valsC[op.V]
	}
	return s
}

func (op opC) want(s string) string {
	if op.V > 0 {
		return fmt.Sprintf("v %v", valsC[op.V])
	}
	return "v " + s
}

type scC struct {
	Proto     string
	Ops       []opC
	Cap       int
	Connector bool // the client has a connector and reconnects
	Yield     uint64
	YieldPct  int
}

type upC struct {
	feed   func(v int)
	close  func()
	fed    []any // wire values
	closed bool
	cancel bool
	min    int
	sid    string
	got    int
	comp   bool
}

type callC struct {
	op     opC
	n      int
	key    string
	id     string
	col    *Collected[signalr.InvokeResult]
	errs   *Collected[error]
	start  func() // for lazy consumers
	want   []string
	fin    bool
	unsure bool // answered without settling
	sure   int  // elements of want delivered at the last settled moment
	surFin bool
	plain  []any
	ups    []*upC
	seen   bool
}

type csess struct {
	c      *eng.C
	b      *B
	s      scC
	cl     signalr.Client
	raw    *Raw
	own    *End
	cancel context.CancelFunc
	calls  []*callC
	byKey  map[string]*callC
	bySid  map[string]*upC
	ids    map[string]bool
	rec    *Rec
	nCb    int
	ends   []*End
	conns  chan *End
	back   chan func()
	ended  atomic.Bool
	mkAt   time.Time
	dirty  bool     // the client may be writing
	burst  bool     // not settled since the last message
	late   []*callC // calls which were not sent when the connection ended, they wait for the next one
}

// rcvC calls the server from inside of receiver methods
type rcvC struct {
	signalr.Receiver
	x *csess
}

func (r *rcvC) Callback(s string) { r.x.rec.Add("Callback", "", s) }
func (r *rcvC) Back()             { (<-r.x.back)() }

func newCsess(c *eng.C, b *B, s scC) (*csess, error) {
	if s.Proto != "json" && s.Proto != "messagepack" || s.Cap < 1 || s.Cap > 10000 {
		return nil, eng.Discard
	}
	x := &csess{c: c, b: b, s: s, byKey: map[string]*callC{}, bySid: map[string]*upC{}, ids: map[string]bool{}, rec: &Rec{}, conns: make(chan *End, 100), back: make(chan func(), 1000)}
	ctx, cancel := context.WithCancel(b.Ctx)
	x.cancel = cancel
	rcv := &rcvC{x: x}
	opts := []func(signalr.Party) error{Quiet(nil), signalr.TransferFormat(FormatOf(s.Proto)), signalr.WithReceiver(rcv), signalr.StreamBufferCapacity(uint(s.Cap)),
		signalr.MaximumReceiveMessageSize(1 << 17)}
	if s.Yield != 0 {
		opts[0] = Quiet(NewYield(s.Yield, s.YieldPct))
	}
	mk := func() *End {
		srv, own := NewPipe(b.Ctx, "c1", "c1")
		x.ends = append(x.ends, srv)
		x.own = own
		x.raw = &Raw{End: srv, Proto: s.Proto}
		x.mkAt = time.Now()
		return own
	}
	if s.Connector {
		opts = append(opts, signalr.WithConnector(func() (signalr.Connection, error) {
			if len(x.ends) > 0 && !x.ended.Load() {
				return nil, errors.New("no connection now")
			}
			return mk(), nil
		}), signalr.WithBackoff(func() backoff.BackOff { return backoff.NewConstantBackOff(time.Second) }))
	} else {
		opts = append(opts, signalr.WithConnection(mk()))
	}
	var err error
	x.cl, err = signalr.NewClient(ctx, opts...)
	if err != nil {
		return nil, err
	}
	b.Cleanup(func() {
		cancel()
		for _, e := range x.ends {
			e.CloseWith(nil)
		}
	})
	x.cl.Start()
	b.Wait()
	return x, x.handshake()
}

func (x *csess) handshake() error {
	_, _ = x.raw.Write([]byte("{}\x1e"))
	x.b.Wait()
	if _, ok := x.raw.HandshakeFrame(); !ok {
		return eng.Errf("no handshake request")
	}
	if st := x.cl.State(); st != signalr.ClientConnected {
		return eng.Errf("client state is %d after the handshake", st)
	}
	return nil
}

type elemC struct {
	A int    `json:"a"`
	B string `json:"b"`
}

// upChan makes an upload channel which is fed without ever blocking the scenario.
func upChan[T any](x *csess, u *upC, buf int, conv func(int) (T, any)) chan T {
	ch := make(chan T, buf)
	q := make(chan T, 5000)
	go func() {
		defer close(ch)
		for {
			select {
			case v, ok := <-q:
				if !ok {
					return
				}
				select {
				case ch <- v:
				case <-x.b.Ctx.Done():
					return
				}
			case <-x.b.Ctx.Done():
				return
			}
		}
	}()
	u.feed = func(i int) {
		v, w := conv(i)
		u.fed = append(u.fed, w)
		q <- v
	}
	u.close = func() { close(q) }
	return ch
}

func (x *csess) push(c *callC) ([]any, bool) {
	var args []any
	hasKey := false
	for k, r := range c.op.Mix {
		base := c.n*100000 + k*10000
		u := &upC{}
		switch r {
		case 'k':
			if hasKey {
				return nil, false
			}
			hasKey = true
			args = append(args, c.key)
			c.plain = append(c.plain, c.key)
			continue
		case 'p':
			if !hasKey {
				return nil, false
			}
			args = append(args, base)
			c.plain = append(c.plain, int64(base))
			continue
		case 'i':
			args = append(args, upChan(x, u, c.op.Buf, func(i int) (int, any) { return base + i, int64(base + i) }))
		case 's':
			args = append(args, upChan(x, u, c.op.Buf, func(i int) (string, any) { s := fmt.Sprintf("s%d", base+i); return s, s }))
		case 'r':
			ch := upChan(x, u, c.op.Buf, func(i int) (string, any) { s := fmt.Sprintf("r%d", base+i); return s, s })
			args = append(args, (<-chan string)(ch))
		case 'o':
			args = append(args, upChan(x, u, c.op.Buf, func(i int) (elemC, any) {
				return elemC{base + i, "x"}, map[string]any{"a": int64(base + i), "b": "x"}
			}))
		default:
			return nil, false
		}
		c.ups = append(c.ups, u)
	}
	return args, hasKey && len(c.ups) > 0 && len(c.ups) <= 6 && len(c.op.Mix) < 15
}

func (x *csess) step(op opC) (bool, error) {
	var c *callC
	if len(x.calls) > 0 && op.I >= 0 {
		c = x.calls[op.I%len(x.calls)]
	}
	send := func(m Msg) { _, _ = x.raw.Write(Encode(x.s.Proto, m, Style{op.Style})) }
	switch op.K {
	case "invoke", "send", "pull", "push":
		c := &callC{op: op, n: len(x.byKey)}
		c.key = fmt.Sprintf("key%d", c.n)
		if op.Buf < 0 || op.Buf > 10000 || op.Lazy && op.K != "pull" {
			return false, nil
		}
		var f func()
		switch op.K {
		case "push":
			args, ok := x.push(c)
			if !ok {
				return false, nil
			}
			f = func() { c.col = Collect(x.cl.PushStreams("Push", args...)) }
		case "invoke":
			c.plain = []any{c.key, op.S}
			f = func() { c.col = Collect(x.cl.Invoke("Invoke", c.key, op.S)) }
		case "send":
			c.plain = []any{c.key}
			f = func() { c.errs = Collect(x.cl.Send("Send", c.key)) }
		case "pull":
			c.plain = []any{c.key}
			f = func() {
				ch := x.cl.PullStream("Pull", c.key)
				if op.Lazy {
					c.start = func() { c.col = Collect(ch) }
				} else {
					c.col = Collect(ch)
				}
			}
		}
		x.calls = append(x.calls, c)
		x.byKey[c.key] = c
		if op.Back && !x.ended.Load() {
			done := make(chan struct{})
			x.back <- func() { f(); close(done) }
			send(Msg{Type: 1, Target: "Back", Args: []any{}})
			x.b.Wait()
			select {
			case <-done:
			default:
				return false, eng.Errf("receiver method is not called")
			}
		} else {
			f()
		}
	case "result", "err", "void", "item":
		if c == nil || c.fin || c.id == "" || op.K == "item" != (c.op.K == "pull" && op.K == "item") || op.K == "result" && c.op.K == "pull" && len(c.want) > 0 || x.ended.Load() || op.V < 0 || op.V >= len(valsC) {
			return false, nil
		}
		if op.NW {
			c.unsure = true
		}
		switch op.K {
		case "result":
			send(Msg{Type: 3, ID: c.id, Result: op.val(op.S), HasResult: true})
			if c.op.K != "send" {
				c.want = append(c.want, op.want(op.S))
			}
			c.fin = true
		case "err":
			e := op.S
			if e == "" {
				e = "x"
			}
			send(Msg{Type: 3, ID: c.id, Error: e})
			c.want = append(c.want, "e "+e)
			c.fin = true
		case "void":
			send(Msg{Type: 3, ID: c.id})
			c.fin = true
		case "item":
			n := max(1, op.N)
			for k := 0; k < n && k < 1000; k++ {
				if c.op.Lazy && len(c.want) >= x.s.Cap {
					break
				}
				s := fmt.Sprintf("%s/%d/%d", op.S, c.n, len(c.want))
				send(Msg{Type: 2, ID: c.id, Item: op.val(s)})
				c.want = append(c.want, op.want(s))
			}
		}
	case "feed", "fin", "cancelup":
		if c == nil || len(c.ups) == 0 || op.J < 0 {
			return false, nil
		}
		u := c.ups[op.J%len(c.ups)]
		if u.closed || op.N < 0 || op.N > 500 || len(u.fed) > 3000 {
			return false, nil
		}
		switch op.K {
		case "feed":
			for k := 0; k < op.N; k++ {
				u.feed(len(u.fed))
			}
		case "fin":
			u.closed = true
			u.close()
		case "cancelup":
			if u.cancel || u.sid == "" || x.ended.Load() {
				return false, nil
			}
			u.cancel, u.min = true, u.got
			send(Msg{Type: 5, ID: u.sid})
		}
	case "callback":
		if x.ended.Load() {
			return false, nil
		}
		send(Msg{Type: 1, Target: "callback", Args: []any{op.S}})
		x.nCb++
	case "ping":
		send(Msg{Type: 6})
	case "sleep":
		if op.N < 0 || op.N > 10000 {
			return false, nil
		}
		x.b.Sleep(time.Duration(op.N) * time.Millisecond)
	default:
		return false, nil
	}
	return true, nil
}

// receive looks at what the client has sent.
func (x *csess) receive() error {
	l, err := x.raw.New()
	if err != nil {
		return err
	}
	for _, m := range l {
		switch m.Type {
		case 1, 4:
			if len(m.Args) == 0 && !strings.EqualFold(m.Target, "push") {
				return eng.Errf("client sent %v", m)
			}
			var c *callC
			for _, a := range m.Args {
				if s, ok := a.(string); ok && x.byKey[s] != nil && c == nil {
					c = x.byKey[s]
				}
			}
			if c == nil || c.seen {
				return eng.Errf("client sent %v, which was not called", m)
			}
			c.seen = true
			want := map[string]string{"invoke": "Invoke", "send": "Send", "pull": "Pull", "push": "Push"}[c.op.K]
			if m.Target != want || m.Type == 4 != (c.op.K == "pull") || !m.HasID || m.ID == "" || !Same(Tree(c.plain), []any(m.Args), false) || len(m.StreamIDs) != len(c.ups) {
				return eng.Errf("client sent %v for %s%v", m, want, c.plain)
			}
			for _, id := range append([]string{m.ID}, m.StreamIDs...) {
				if x.ids[id] {
					return eng.Errf("id %q in %v was already used on this connection", id, m)
				}
				x.ids[id] = true
			}
			c.id = m.ID
			for j, u := range c.ups {
				u.sid = m.StreamIDs[j]
				x.bySid[u.sid] = u
			}
		case 2, 3:
			u := x.bySid[m.ID]
			if u == nil {
				return eng.Errf("client sent %v for an unknown stream", m)
			}
			if u.comp {
				return eng.Errf("client sent %v after the completion of the stream", m)
			}
			if m.Type == 3 {
				if m.HasError || m.HasResult && m.Result != nil {
					return eng.Errf("stream ends with %v", m)
				}
				if !u.cancel && (!u.closed || u.got != len(u.fed)) {
					return eng.Errf("stream %s completed after %d of %d items (closed: %v)", m.ID, u.got, len(u.fed), u.closed)
				}
				u.comp = true
				continue
			}
			if u.got >= len(u.fed) || !Same(u.fed[u.got], m.Item, false) {
				return eng.Errf("item %d of stream %s is %v, pushed were %s", u.got, m.ID, m.Item, clip(u.fed))
			}
			u.got++
		default:
			if m.Type == 7 && x.ended.Load() {
				continue
			}
			return eng.Errf("client sent %v", m)
		}
	}
	return nil
}

func (c *callC) elems() (l []string, closed bool) {
	if c.errs != nil {
		e, cl := c.errs.Get()
		for _, x := range e {
			l = append(l, "e "+errText(x))
		}
		return l, cl
	}
	if c.col == nil {
		return nil, false
	}
	r, cl := c.col.Get()
	for _, x := range r {
		switch {
		case x.Error != nil:
			l = append(l, "e "+x.Error.Error())
		default:
			l = append(l, fmt.Sprintf("v %v", x.Value))
		}
	}
	return l, cl
}

func errText(e error) string {
	if e == nil {
		return "<nil>"
	}
	return e.Error()
}

func (x *csess) check() error {
	if err := x.receive(); err != nil {
		return err
	}
	if st := x.cl.State(); st != signalr.ClientConnected {
		return eng.Errf("client state is %d, error %v", st, x.cl.Err())
	}
	for _, c := range x.calls {
		if !c.seen {
			return eng.Errf("call %d (%s) was not sent", c.n, c.op.K)
		}
		if !c.op.Lazy {
			got, closed := c.elems()
			want := c.want
			if !equalStrings(got, want) || closed != c.fin {
				return eng.Errf("call %d (%s, id %s) yields %s (closed %v) instead of %s (closed %v)", c.n, c.op.K, c.id, clip(got), closed, clip(want), c.fin)
			}
		}
		c.unsure, c.sure, c.surFin = false, len(c.want), c.fin
		for j, u := range c.ups {
			switch {
			case u.cancel && !u.comp:
				return eng.Errf("call %d: canceled stream %d is not completed", c.n, j)
			case u.cancel && u.got < u.min:
				return eng.Errf("harness")
			case !u.cancel && u.got != len(u.fed):
				return eng.Errf("call %d: %d of %d items pushed to channel %d have arrived", c.n, u.got, len(u.fed), j)
			case !u.cancel && u.comp != u.closed:
				return eng.Errf("call %d: stream %d completed %v, channel closed %v", c.n, j, u.comp, u.closed)
			}
		}
	}
	if n := len(x.rec.Calls()); n != x.nCb {
		return eng.Errf("%d of %d callbacks arrived", n, x.nCb)
	}
	return nil
}

// end ends the connection. strict: everything which was sent before has to be delivered.
func (x *csess) end(cause string) (strict bool, err error) {
	stopped := make(chan struct{})
	wait := time.Duration(0)
	x.ended.Store(true)
	switch cause {
	case "eof": // the failure of a write which is under way may be seen before what has arrived is read
		x.raw.CloseWith(io.EOF)
		strict = !x.dirty
	case "readerr":
		x.raw.CloseWith(errors.New("connection reset"))
		strict = !x.dirty
	case "halfclose": // the client can write still
		x.raw.CloseWrite(io.EOF)
		strict = true
	case "close":
		x.raw.Send(Msg{Type: 7})
		strict = true
	case "closeerr":
		x.raw.Send(Msg{Type: 7, Error: "server is angry"})
		strict = true
	case "closereconnect":
		x.raw.Send(Msg{Type: 7, Reconnect: true})
		strict = true
	case "closeerrreconnect":
		x.raw.Send(Msg{Type: 7, Error: "come back", Reconnect: true})
		strict = true
	case "garbage":
		_, _ = x.raw.Write(badFrame(x.s.Proto, "{]"))
		strict = true
	case "unknownid":
		x.raw.Send(Msg{Type: 3, ID: "unknown", Result: 1, HasResult: true})
		strict = true
	case "unknownstream":
		x.raw.Send(Msg{Type: 2, ID: "unknown", Item: 1})
		strict = true
	case "writefail":
		x.own.FailWriteAfter(0, errors.New("broken pipe"))
		x.startCalls(1)
	case "shortwrite":
		x.own.FailWriteAfter(7, errors.New("broken pipe"))
		x.startCalls(1)
	case "stallstop": // the server does not read any more, then the client is stopped
		x.own.SetWriteCap(1)
		x.startCalls(2)
		go func() { x.cl.Stop(); close(stopped) }()
		wait = 20 * time.Second
	case "stalltimeout":
		x.own.SetWriteCap(1)
		x.startCalls(2)
		wait = 60 * time.Second
	case "timeout":
		wait = 31 * time.Second
	case "stop":
		go func() { x.cl.Stop(); close(stopped) }()
	case "ctx":
		x.cancel()
	case "connctx":
		x.own.Cancel()
	default:
		return false, eng.Discard
	}
	if x.burst && (cause == "stop" || cause == "ctx") {
		// An item of a stream may be on its way to a call which has ended now. It is given up after the ChanReceiveTimeout.
		wait = 6 * time.Second
	}
	if wait > 0 {
		x.b.Sleep(wait)
	}
	x.b.Wait()
	if strings.Contains(cause, "stop") {
		select {
		case <-stopped:
		default:
			return false, eng.Errf("Stop does not return")
		}
	}
	return strict, nil
}

// startCalls starts further calls without looking at what happens with them now
func (x *csess) startCalls(n int) {
	for ; n > 0; n-- {
		_, _ = x.step(opC{K: "invoke"})
		_, _ = x.step(opC{K: "send"})
		_, _ = x.step(opC{K: "pull"})
		_, _ = x.step(opC{K: "push", Mix: "ki"})
	}
}

// checkEnded demands that every call has terminated.
func (x *csess) checkEnded(strict, again bool) error {
	for _, c := range x.calls {
		if c.start != nil {
			c.start()
		}
	}
	x.b.Wait()
	for _, c := range x.calls {
		got, closed := c.elems()
		if again && !closed && c.id == "" && len(got) == 0 {
			x.late = append(x.late, c)
			continue
		}
		what := fmt.Sprintf("call %d (%s, id %q)", c.n, c.op.K, c.id)
		if !closed {
			return eng.Errf("%s never terminates, it has yielded %s", what, clip(got))
		}
		if c.fin && (strict || c.surFin) && !c.op.Lazy {
			if !equalStrings(got, c.want) {
				return eng.Errf("%s was completed before the end, it yields %s instead of %s", what, clip(got), clip(c.want))
			}
			continue
		}
		if c.fin && equalStrings(got, c.want) {
			continue // the answer was faster
		}
		if c.op.K == "send" {
			if len(got) > 1 {
				return eng.Errf("%s yields %s", what, clip(got))
			}
			continue
		}
		// not completed: what had arrived, then an error
		if len(got) == 0 || !strings.HasPrefix(got[len(got)-1], "e ") {
			return eng.Errf("%s was not completed, but yields no error: %s", what, clip(got))
		}
		if c.op.K != "pull" && len(got) != 1 {
			return eng.Errf("%s yields more than one element: %s", what, clip(got))
		}
		items := got[:len(got)-1]
		if len(items) > len(c.want) || !equalStrings(items, c.want[:len(items)]) {
			return eng.Errf("%s yields %s, but the server has sent %s", what, clip(got), clip(c.want))
		}
		if (strict && len(items) < len(c.want) || len(items) < c.sure) && !c.op.Lazy {
			return eng.Errf("%s yields %s, missing what had arrived: %s", what, clip(got), clip(c.want))
		}
	}
	return nil
}

func (x *csess) steps(after func(op opC)) error {
	for i, op := range x.s.Ops {
		if op.K == "end" {
			old := x.raw
			strict, err := x.end(op.Cause)
			if err == eng.Discard {
				return err
			}
			if err != nil {
				return eng.Errf("%s: %v", op.Cause, err)
			}
			x.c.Label("end: %s", op.Cause)
			x.raw, old = old, x.raw
			if err := x.receive(); err != nil && strict {
				return eng.Errf("%s: %s: %v", x.s.Proto, op.Cause, err)
			}
			x.raw = old
			if err := x.checkEnded(strict, x.again(op.Cause)); err != nil {
				return eng.Errf("%s: after the end of the connection (%s): %v", x.s.Proto, op.Cause, err)
			}
			return x.afterEnd(op.Cause)
		}
		ok, err := x.step(op)
		if err != nil {
			return eng.Errf("%s: operation %d %+v: %v", x.s.Proto, i, op, err)
		}
		if !ok {
			continue
		}
		if after != nil {
			after(op)
		}
		x.burst = op.NW
		if op.NW {
			switch op.K {
			case "invoke", "send", "pull", "push", "feed", "fin", "cancelup":
				x.dirty = true
			}
			continue
		}
		x.dirty = false
		x.b.Wait()
		if err := x.check(); err != nil {
			return eng.Errf("%s: after operation %d %+v: %v", x.s.Proto, i, op, err)
		}
	}
	x.b.Wait()
	if err := x.check(); err != nil {
		return eng.Errf("%s: at the end: %v", x.s.Proto, err)
	}
	return nil
}

// again tells if the client reconnects
func (x *csess) again(cause string) bool {
	return x.s.Connector && cause != "stop" && cause != "ctx" && cause != "stallstop" && cause != "close" && cause != "closeerr"
}

// afterEnd makes calls when the connection has ended.
func (x *csess) afterEnd(cause string) error {
	again := x.again(cause)
	n := len(x.rec.Calls())
	if n > x.nCb {
		return eng.Errf("%s: %d of %d callbacks arrived", x.s.Proto, n, x.nCb)
	}
	x.nCb = n
	old := x.calls
	x.calls = x.late
	x.startCalls(1)
	x.b.Wait()
	if !again {
		x.b.Sleep(5 * time.Second)
		if st := x.cl.State(); st != signalr.ClientClosed {
			return eng.Errf("%s: state after the end of the connection (%s) is %d", x.s.Proto, cause, st)
		}
		if err := x.checkEnded(false, false); err != nil {
			return eng.Errf("%s: calls made after the end of the connection (%s): %v", x.s.Proto, cause, err)
		}
	} else {
		// The calls wait for the next connection
		fresh := false
		for k := 0; k < 60 && !fresh; k++ {
			x.b.Sleep(time.Second)
			_, sent := x.raw.HandshakeFrame()
			fresh = len(x.ends) > 1 && sent && time.Since(x.mkAt) < 10*time.Second
		}
		if !fresh {
			return eng.Errf("%s: the client does not reconnect (%s)", x.s.Proto, cause)
		}
		x.ids = map[string]bool{}
		if err := x.handshake(); err != nil {
			return eng.Errf("%s: after reconnecting (%s): %v", x.s.Proto, cause, err)
		}
		x.ended.Store(false)
		x.b.Wait()
		if err := x.check(); err != nil {
			return eng.Errf("%s: calls made while reconnecting (%s): %v", x.s.Proto, cause, err)
		}
		for i := range x.calls {
			for _, k := range []string{"result", "void"} {
				if _, err := x.step(opC{K: k, I: i, S: "new"}); err != nil {
					return err
				}
			}
		}
		x.b.Wait()
		if err := x.check(); err != nil {
			return eng.Errf("%s: answers after reconnecting (%s): %v", x.s.Proto, cause, err)
		}
		x.ended.Store(true)
		x.c.Label("reconnected")
	}
	x.calls = old
	return nil
}

func runC(f func(x *csess, started, answered map[string]int)) func(c *eng.C, s scC) error {
	return func(c *eng.C, s scC) error {
		return InBubble(c, func(b *B) error {
			x, err := newCsess(c, b, s)
			if err != nil {
				return err
			}
			n, a := map[string]int{}, map[string]int{}
			if err := x.steps(func(op opC) {
				switch op.K {
				case "invoke", "send", "pull", "push":
					n[op.K]++
				default:
					a[op.K]++
				}
			}); err != nil {
				return err
			}
			for k, v := range n {
				c.LabelN(k, v)
			}
			for k, v := range a {
				c.LabelN(k, v)
			}
			f(x, n, a)
			return nil
		})
	}
}

type genC struct {
	starts         []string
	ops            []string
	start          float64
	minOps, maxOps int
	long           int
	causes         []string
	connector      float64
	lazy           float64
	caps           []int
	maxItem        int
	burst          float64
}

var causesC = []string{"eof", "readerr", "halfclose", "close", "closeerr", "closereconnect", "closeerrreconnect", "garbage", "unknownid", "unknownstream", "writefail", "shortwrite",
	"stallstop", "stalltimeout", "timeout", "stop", "ctx", "connctx"}

func (g genC) gen(r *eng.R) scC {
	s := scC{Proto: protos[r.IntN(2)], Cap: 10, Connector: r.P(g.connector)}
	if len(g.caps) > 0 {
		s.Cap = g.caps[r.IntN(len(g.caps))]
	}
	if r.P(0.4) {
		s.Yield, s.YieldPct = r.Uint64()|1, r.N(5, 80)
	}
	n := r.N(g.minOps, g.maxOps)
	if g.long > 0 && r.P(0.04) {
		n = r.N(g.maxOps, g.long)
	}
	nw := 0.0
	if r.P(0.6) {
		nw = r.Float64() * 0.9
	}
	calls := 0
	recent := func() int {
		if r.P(0.4) {
			return max(0, calls-1-r.IntN(4))
		}
		return r.IntN(max(1, calls))
	}
	starts := g.starts
	if r.P(0.2) {
		starts = []string{g.starts[r.IntN(len(g.starts))]}
	}
	ps := g.start
	if r.P(0.3) {
		ps = 0.1 + 0.8*r.Float64()
	}
	for len(s.Ops) < n {
		op := opC{NW: r.P(nw)}
		if r.P(0.3) {
			op.Style = r.Uint64() | 1
		}
		if calls == 0 || r.P(ps) {
			op.K = starts[r.IntN(len(starts))]
			op.Back = r.P(0.1)
			op.S = GenString(r, 20)
			op.Buf = eng.Pick(r, 0, 0, 1, 10, 1000)
			op.Lazy = op.K == "pull" && r.P(g.lazy)
			if op.K == "push" {
				op.Mix = eng.Pick(r, "ki", "ik", "ks", "kipsp", "rkp", "kio", "skip", "kiiii", "kpppiso", "irk", "ok")
			}
			calls++
		} else {
			op.K = g.ops[r.IntN(len(g.ops))]
			op.I, op.J = recent(), r.IntN(4)
			op.N = r.N(1, 3)
			if r.P(0.1) {
				op.N = r.N(1, max(3, g.maxItem))
			}
			op.S = GenString(r, 20)
			if r.P(0.2) {
				op.V = r.N(1, len(valsC)-1)
			}
		}
		s.Ops = append(s.Ops, op)
		if g.burst > 0 && r.P(g.burst) {
			for k := r.N(1, 40); k > 0; k-- {
				o := op
				o.NW = true
				switch o.K {
				case "invoke", "send", "pull", "push":
					calls++
				default:
					o.I = recent()
				}
				s.Ops = append(s.Ops, o)
			}
		}
	}
	if len(g.causes) > 0 {
		s.Ops = append(s.Ops, opC{K: "end", Cause: g.causes[r.IntN(len(g.causes))]})
	}
	return s
}
