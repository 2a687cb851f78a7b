package checks

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// End to end: library clients call a library server, over some transport. Producers and consumers have their own pace.
// The outcome of every call is known from the scenario alone.

type opE struct {
	K    string // pull, push, invoke, send, call
	C    int    `json:",omitempty"` // client
	At   int    `json:",omitempty"` // ms
	T    int    `json:",omitempty"` // element type
	N    int    `json:",omitempty"` // items
	Size int    `json:",omitempty"` // size of the items
	Buf  int    `json:",omitempty"` // capacity of the producer's channel
	PD   []int  `json:",omitempty"` // ms before every item, cyclic
	CD   []int  `json:",omitempty"` // ms the consumer needs for every item, cyclic
	Err  string `json:",omitempty"`
	Mix  bool   `json:",omitempty"` // push: two streams
}

type scE struct {
	Proto    string
	Conns    int
	Cap      int // StreamBufferCapacity of the server
	CCap     int // StreamBufferCapacity of the clients
	Def      bool
	Real     bool // run in real time. Needed when items which are pulled are consumed slowly
	Ops      []opE
	WriteMs  int `json:",omitempty"` // how long the transport needs for a message of a client
	Yield    uint64
	YieldPct int
}

type St struct {
	A int               `json:"a" msgpack:"a"`
	B []string          `json:"b" msgpack:"b"`
	C map[string]string `json:"c" msgpack:"c"`
}

var padE = strings.Repeat("The quick brown fox jumps over the lazy dog. ÄÖÜ\u2028\n\"\\", 4000)

func padOf(n int) string {
	if n <= 0 {
		return ""
	}
	return strings.ToValidUTF8(padE[:min(n, len(padE))], "")
}

const typesE = 6

// itemE is the i-th item of call n
func itemE(t, n, i, size int) any {
	s := fmt.Sprintf("%d/%d/%s", n, i, padOf(size))
	switch t {
	case 0:
		return n*100000 + i
	case 1:
		return s
	case 2:
		return St{n*100000 + i, []string{s, ""}, map[string]string{"k": s}}
	case 3:
		return []byte(s)
	case 4:
		return float64(n) + float64(i)/1024
	case 5:
		return []string{s, "", "x"}
	}
	return nil
}

var elemsE = []reflect.Type{reflect.TypeFor[int](), reflect.TypeFor[string](), reflect.TypeFor[St](), reflect.TypeFor[[]byte](), reflect.TypeFor[float64](), reflect.TypeFor[[]string]()}

// worldE knows the calls by key
type worldE struct {
	b   *B
	mx  sync.Mutex
	ops map[string]*callE
	bad []string
}

type callE struct {
	opE
	n      int
	key    string
	runs   []string // connections the method ran on
	up     [2][]any
	upEnd  [2]bool
	ir     *Collected[signalr.InvokeResult]
	slow   *slowE
	errs   *Collected[error]
	gotCb  int
	result string
}

type slowE struct {
	mx     sync.Mutex
	items  []signalr.InvokeResult
	closed bool
}

func (w *worldE) enter(key, conn string) *callE {
	w.mx.Lock()
	defer w.mx.Unlock()
	c := w.ops[key]
	if c == nil {
		w.bad = append(w.bad, fmt.Sprintf("method called with unknown key %q", key))
		return &callE{}
	}
	c.runs = append(c.runs, conn)
	return c
}

func (c *callE) pd(i int) time.Duration { return cyc(c.PD, i) }
func (c *callE) cd(i int) time.Duration { return cyc(c.CD, i) }

func cyc(l []int, i int) time.Duration {
	if len(l) == 0 {
		return 0
	}
	return time.Duration(l[i%len(l)]) * time.Millisecond
}

// HubE has the methods
type HubE struct {
	signalr.Hub
	w *worldE
}

func produceE[T any](h *HubE, key string) (<-chan T, error) {
	c := h.w.enter(key, h.ConnectionID())
	if c.Err != "" && c.N == 0 {
		return nil, errors.New(c.Err)
	}
	ch := make(chan T, c.Buf)
	ctx := h.w.b.Ctx
	go func() {
		defer close(ch)
		for i := 0; i < c.N; i++ {
			if d := c.pd(i); d > 0 {
				time.Sleep(d)
			}
			select {
			case ch <- itemE(c.T, c.n, i, c.Size).(T):
			case <-ctx.Done():
				return
			}
		}
	}()
	return ch, nil
}

func (h *HubE) Pull0(key string) (<-chan int, error)      { return produceE[int](h, key) }
func (h *HubE) Pull1(key string) (<-chan string, error)   { return produceE[string](h, key) }
func (h *HubE) Pull2(key string) (<-chan St, error)       { return produceE[St](h, key) }
func (h *HubE) Pull3(key string) (<-chan []byte, error)   { return produceE[[]byte](h, key) }
func (h *HubE) Pull4(key string) (<-chan float64, error)  { return produceE[float64](h, key) }
func (h *HubE) Pull5(key string) (<-chan []string, error) { return produceE[[]string](h, key) }

// PullOne has no channel result, it counts as stream of one item
func (h *HubE) PullOne(key string) (string, error) {
	c := h.w.enter(key, h.ConnectionID())
	if d := c.pd(0); d > 0 {
		time.Sleep(d)
	}
	if c.Err != "" {
		return "", errors.New(c.Err)
	}
	return itemE(1, c.n, 0, c.Size).(string), nil
}

func consumeE[T any](h *HubE, key string, ch <-chan T) (string, error) {
	c := h.w.enter(key, h.ConnectionID())
	n := 0
	for x := range ch {
		h.w.mx.Lock()
		c.up[0] = append(c.up[0], x)
		h.w.mx.Unlock()
		if d := c.cd(n); d > 0 {
			time.Sleep(d)
		}
		n++
	}
	h.w.mx.Lock()
	c.upEnd[0] = true
	h.w.mx.Unlock()
	if c.Err != "" {
		return "", errors.New(c.Err)
	}
	return fmt.Sprintf("%s:%d", key, n), nil
}

func (h *HubE) Push0(key string, ch <-chan int) (string, error)      { return consumeE(h, key, ch) }
func (h *HubE) Push1(key string, ch <-chan string) (string, error)   { return consumeE(h, key, ch) }
func (h *HubE) Push2(key string, ch <-chan St) (string, error)       { return consumeE(h, key, ch) }
func (h *HubE) Push3(key string, ch <-chan []byte) (string, error)   { return consumeE(h, key, ch) }
func (h *HubE) Push4(key string, ch <-chan float64) (string, error)  { return consumeE(h, key, ch) }
func (h *HubE) Push5(key string, ch <-chan []string) (string, error) { return consumeE(h, key, ch) }

// PushMix has two streams between ordinary parameters
func (h *HubE) PushMix(a <-chan int, n int, key string, b <-chan string, s []string) (string, error) {
	c := h.w.enter(key, h.ConnectionID())
	if n != c.n || !equalStrings(s, []string{"x", key}) {
		h.w.mx.Lock()
		h.w.bad = append(h.w.bad, fmt.Sprintf("PushMix was called with %v %v", n, s))
		h.w.mx.Unlock()
	}
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for x := range a {
			h.w.mx.Lock()
			c.up[0] = append(c.up[0], x)
			i := len(c.up[0])
			h.w.mx.Unlock()
			time.Sleep(c.cd(i))
		}
		h.w.mx.Lock()
		c.upEnd[0] = true
		h.w.mx.Unlock()
	}()
	go func() {
		defer wg.Done()
		for x := range b {
			h.w.mx.Lock()
			c.up[1] = append(c.up[1], x)
			i := len(c.up[1])
			h.w.mx.Unlock()
			time.Sleep(c.cd(i + 1))
		}
		h.w.mx.Lock()
		c.upEnd[1] = true
		h.w.mx.Unlock()
	}()
	wg.Wait()
	if c.Err != "" {
		return "", errors.New(c.Err)
	}
	return key, nil
}

func (h *HubE) Invoke(key string, x St) (St, error) {
	c := h.w.enter(key, h.ConnectionID())
	if d := c.cd(0); d > 0 {
		time.Sleep(d)
	}
	if c.Err != "" {
		return St{}, errors.New(c.Err)
	}
	return x, nil
}

func (h *HubE) Send(key string) { h.w.enter(key, h.ConnectionID()) }

// Call calls the caller, N times
func (h *HubE) Call(key string) {
	c := h.w.enter(key, h.ConnectionID())
	for i := 0; i < c.N; i++ {
		h.Clients().Caller().Send("Called", key, i, itemE(2, c.n, i, c.Size))
	}
}

type rcvE struct {
	signalr.Receiver
	w *worldE
	n int
}

func (r *rcvE) Called(key string, i int, x St) {
	r.w.mx.Lock()
	defer r.w.mx.Unlock()
	c := r.w.ops[key]
	if c == nil || c.C != r.n || !SameGo(x, itemE(2, c.n, i, c.Size)) {
		r.w.bad = append(r.w.bad, fmt.Sprintf("client %d: Called(%q, %d, %v)", r.n, key, i, clip(x)))
		return
	}
	c.gotCb++
}

// dialE connects the i-th client. It returns the function which ends everything.
type dialE func(b *B, srv signalr.Server, i int, opts ...func(signalr.Party) error) (signalr.Client, error)

func dialPipe(proto string) dialE {
	return func(b *B, srv signalr.Server, i int, opts ...func(signalr.Party) error) (signalr.Client, error) {
		cl, _, _, _, err := b.Client(srv, fmt.Sprintf("c%d", i), proto, opts...)
		return cl, err
	}
}

func (s scE) valid() bool {
	if s.Proto != "json" && s.Proto != "messagepack" || s.Conns < 1 || s.Conns > 10 || s.Cap < 1 || s.CCap < 1 || s.Cap > 2000 || s.CCap > 2000 {
		return false
	}
	total := 0
	if s.WriteMs < 0 || s.WriteMs > 1000 {
		return false
	}
	for _, o := range s.Ops {
		if o.K == "pull" && len(o.CD) > 0 && !s.Real {
			return false
		}
		if o.C < 0 || o.C >= s.Conns || o.T < 0 || o.T >= typesE || o.N < 0 || o.N > 5000 || o.Size < 0 || o.Size > 200000 || o.Buf < 0 || o.Buf > 5000 || o.At < 0 || o.At > 1000000 {
			return false
		}
		for _, l := range [][]int{o.PD, o.CD} {
			for _, d := range l {
				if d < 0 || d > 4900 {
					return false
				}
				total += d * (o.N + 1)
			}
		}
	}
	return total < 10_000 || !s.Real && total < 100_000_000
}

// runE runs the scenario and judges it. max is the maximal size of a message.
func runE(c *eng.C, b *B, s scE, dial dialE, max uint, stay func() error) error {
	if !s.valid() {
		return eng.Discard
	}
	w := &worldE{b: b, ops: map[string]*callE{}}
	opts := []func(signalr.Party) error{Quiet(nil), signalr.MaximumReceiveMessageSize(max)}
	if s.Yield != 0 {
		opts[0] = Quiet(NewYield(s.Yield, s.YieldPct))
	}
	if !s.Def || s.Real {
		opts = append(opts, signalr.TimeoutInterval(1000*time.Hour), signalr.ChanReceiveTimeout(time.Minute))
	}
	srv, err := signalr.NewServer(b.Ctx, append([]func(signalr.Party) error{signalr.HubFactory(func() signalr.HubInterface { return &HubE{w: w} }), signalr.StreamBufferCapacity(uint(s.Cap))}, opts...)...)
	if err != nil {
		return err
	}
	var cls []signalr.Client
	for i := 0; i < s.Conns; i++ {
		cl, err := dial(b, srv, i, append([]func(signalr.Party) error{signalr.WithReceiver(&rcvE{w: w, n: i}), signalr.StreamBufferCapacity(uint(s.CCap)),
			signalr.TransferFormat(FormatOf(s.Proto))}, opts...)...)
		if err != nil {
			return err
		}
		ctx, cancel := context.WithTimeout(b.Ctx, time.Minute)
		err = <-cl.WaitForState(ctx, signalr.ClientConnected)
		cancel()
		if err != nil {
			return eng.Errf("client %d does not connect: %v", i, err)
		}
		cls = append(cls, cl)
	}
	var calls []*callE
	dur := 0
	for n, o := range s.Ops {
		c := &callE{opE: o, n: n, key: fmt.Sprintf("key%d", n)}
		calls = append(calls, c)
		w.ops[c.key] = c
	}
	for _, c := range calls {
		m := 0
		for _, d := range append(append([]int{}, c.PD...), c.CD...) {
			m += d
		}
		if c.Mix { // the streams might be handled one after the other
			m *= 2
		}
		dur += m*(c.N+2) + s.WriteMs*(2*c.N+4)
	}
	order := append([]*callE{}, calls...)
	sort.SliceStable(order, func(i, j int) bool { return order[i].At < order[j].At })
	start := time.Now()
	for _, c := range order {
		if d := time.Duration(c.At)*time.Millisecond - time.Since(start); d > 0 {
			time.Sleep(d)
		}
		cl := cls[c.C]
		switch c.K {
		case "pull":
			m := fmt.Sprintf("Pull%d", c.T)
			if c.Mix {
				m = "PullOne"
			}
			c.consume(b, cl.PullStream(m, c.key))
		case "push":
			if c.Mix {
				a, z := make(chan int, c.Buf), make(chan string, c.Buf)
				c.ir = Collect(cl.PushStreams("PushMix", a, c.n, c.key, z, []string{"x", c.key}))
				go pushE(b, c, a, 0)
				go pushE(b, c, z, 1)
			} else {
				ch := reflect.MakeChan(reflect.ChanOf(reflect.BothDir, elemsE[c.T]), c.Buf)
				c.ir = Collect(cl.PushStreams(fmt.Sprintf("Push%d", c.T), c.key, ch.Interface()))
				go pushAny(b, c, ch)
			}
		case "invoke":
			c.ir = Collect(cl.Invoke("Invoke", c.key, itemE(2, c.n, 0, c.Size)))
		case "send":
			c.errs = Collect(cl.Send("Send", c.key))
		case "call":
			c.errs = Collect(cl.Send("Call", c.key))
		default:
			return eng.Discard
		}
	}
	judge := func() error {
		for i, cl := range cls {
			if st := cl.State(); st != signalr.ClientConnected {
				return eng.Errf("%s: client %d has state %d after %v: %v", s.Proto, i, st, time.Since(start), cl.Err())
			}
		}
		w.mx.Lock()
		defer w.mx.Unlock()
		if len(w.bad) > 0 {
			return eng.Errf("%s: %s", s.Proto, clip(w.bad))
		}
		for _, c := range calls {
			if err := c.judge(s); err != nil {
				return eng.Errf("%s: call %d %s: %v", s.Proto, c.n, clip(fmt.Sprintf("%+v", c.opE)), err)
			}
		}
		return nil
	}
	if b.Real {
		var err error
		for end := time.Now().Add(time.Duration(dur)*time.Millisecond + 20*time.Second); time.Now().Before(end); time.Sleep(time.Millisecond) {
			if err = judge(); err == nil {
				break
			}
		}
		if err != nil {
			return err
		}
		time.Sleep(2 * time.Millisecond)
	} else {
		b.Sleep(time.Duration(dur)*time.Millisecond + 5*time.Second)
	}
	if stay != nil {
		if err := stay(); err != nil {
			return err
		}
	}
	return judge()
}

func (c *callE) consume(b *B, ch <-chan signalr.InvokeResult) {
	s := &slowE{}
	c.slow = s
	go func() {
		n := 0
		for x := range ch {
			s.mx.Lock()
			s.items = append(s.items, x)
			s.mx.Unlock()
			if d := c.cd(n); d > 0 {
				time.Sleep(d)
			}
			n++
		}
		s.mx.Lock()
		s.closed = true
		s.mx.Unlock()
	}()
}

func pushE[T any](b *B, c *callE, ch chan T, k int) {
	defer close(ch)
	for i := 0; i < c.N; i++ {
		if d := c.pd(i + k); d > 0 {
			time.Sleep(d)
		}
		select {
		case ch <- itemE(k, c.n, i, c.Size).(T):
		case <-b.Ctx.Done():
			return
		}
	}
}

func pushAny(b *B, c *callE, ch reflect.Value) {
	defer ch.Close()
	for i := 0; i < c.N; i++ {
		if d := c.pd(i); d > 0 {
			time.Sleep(d)
		}
		if n, _, _ := reflect.Select([]reflect.SelectCase{{Dir: reflect.SelectSend, Chan: ch, Send: reflect.ValueOf(itemE(c.T, c.n, i, c.Size))},
			{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(b.Ctx.Done())}}); n == 1 {
			return
		}
	}
}

func (c *callE) judge(s scE) error {
	if len(c.runs) != 1 {
		return eng.Errf("the method ran %d times", len(c.runs))
	}
	single := func(want any) error {
		l, closed := c.ir.Get()
		if len(l) != 1 || !closed {
			return eng.Errf("yields %s (closed: %v)", clip(l), closed)
		}
		if c.Err != "" {
			if l[0].Error == nil || l[0].Error.Error() != c.Err {
				return eng.Errf("yields %s instead of the error %q", clip(l), c.Err)
			}
			return nil
		}
		if l[0].Error != nil || !sameResult(s.Proto, "", want, l[0].Value) {
			return eng.Errf("yields %s instead of %s", clip(l), clip(want))
		}
		return nil
	}
	switch c.K {
	case "pull":
		c.slow.mx.Lock()
		defer c.slow.mx.Unlock()
		l := c.slow.items
		if !c.slow.closed {
			return eng.Errf("stream has not ended, %d items", len(l))
		}
		if c.Err != "" && (c.N == 0 || c.Mix) {
			if len(l) != 1 || l[0].Error == nil || l[0].Error.Error() != c.Err {
				return eng.Errf("yields %s instead of the error %q", clip(l), c.Err)
			}
			return nil
		}
		n, t := c.N, c.T
		if c.Mix {
			n, t = 1, 1
		}
		for i, x := range l {
			if x.Error != nil {
				return eng.Errf("error %v after %d of %d items", x.Error, i, n)
			}
			if i >= n || !sameResult(s.Proto, "", itemE(t, c.n, i, c.Size), x.Value) {
				return eng.Errf("item %d (of %d expected) is %s", i, n, clip(x.Value))
			}
		}
		if len(l) != n {
			return eng.Errf("%d of %d items", len(l), n)
		}
	case "push":
		k := 1
		if c.Mix {
			k = 2
		}
		for j := 0; j < k; j++ {
			t := c.T
			if c.Mix {
				t = j
			}
			for i, x := range c.up[j] {
				if i >= c.N || !SameGo(x, itemE(t, c.n, i, c.Size)) {
					return eng.Errf("item %d of stream %d (of %d expected) is %s", i, j, c.N, clip(x))
				}
			}
			if len(c.up[j]) != c.N || !c.upEnd[j] {
				return eng.Errf("%d of %d items of stream %d arrived, ended: %v", len(c.up[j]), c.N, j, c.upEnd[j])
			}
		}
		if c.Mix {
			return single(c.key)
		}
		return single(fmt.Sprintf("%s:%d", c.key, c.N))
	case "invoke":
		return single(itemE(2, c.n, 0, c.Size))
	case "send", "call":
		l, closed := c.errs.Get()
		if len(l) > 0 || !closed {
			return eng.Errf("yields %s (closed: %v)", clip(l), closed)
		}
		if c.K == "call" && c.gotCb != c.N {
			return eng.Errf("%d of %d callbacks arrived", c.gotCb, c.N)
		}
	}
	return nil
}

// genE has the weights of an end to end scenario.
type genE struct {
	kinds  []string
	maxN   int
	size   int
	minOps int
	maxOps int
	slow   float64
	real   float64
}

func (g genE) gen(r *eng.R) scE {
	s := scE{Proto: protos[r.IntN(2)], Conns: eng.Pick(r, 1, 1, 2, 3), Cap: eng.Pick(r, 1, 2, 10, 100), CCap: eng.Pick(r, 1, 2, 10, 100), Def: r.P(0.5)}
	if r.P(0.3) {
		s.Yield, s.YieldPct = r.Uint64()|1, r.N(5, 80)
	}
	n := r.N(g.minOps, g.maxOps)
	slow := r.P(g.slow)
	s.Real = slow && r.P(g.real)
	left := 400 // ms of real time
	budget := g.maxN
	for k := 0; k < n; k++ {
		o := opE{K: g.kinds[r.IntN(len(g.kinds))], C: r.IntN(s.Conns), T: r.IntN(typesE), Buf: eng.Pick(r, 0, 0, 1, 5, 100)}
		if r.P(0.5) {
			o.At = r.Heavy(20000)
		}
		o.N = min(r.Heavy(g.maxN), budget)
		if r.P(0.6) {
			o.N = r.N(0, 12)
		}
		if o.K == "call" {
			o.N = r.N(0, 5)
		}
		budget = max(5, budget-o.N)
		o.Size = min(r.Heavy(g.size), max(0, 400000/(o.N+1)))
		delays := func() (l []int) {
			d := eng.Pick(r, 1, 10, 500, 3000, 4800)
			for j := r.N(1, 4); j > 0; j-- {
				l = append(l, r.IntN(d))
			}
			if s.Real {
				for j := range l {
					l[j] = min(l[j], left/(o.N+2))
				}
				for j := 0; j < o.N+1; j++ {
					left -= l[j%len(l)]
				}
				left = max(0, left)
			}
			return
		}
		if slow && r.P(0.6) {
			o.PD = delays()
		}
		if slow && r.P(0.6) && (o.K != "pull" || s.Real) {
			o.CD = delays()
		}
		if s.Real {
			o.At = min(o.At, 20)
		}
		if r.P(0.1) {
			o.Err = eng.Pick(r, "failed", "ä\n\"", strings.Repeat("e", 1000))
			if o.K == "pull" {
				o.N = 0
			}
		}
		o.Mix = r.P(0.2)
		s.Ops = append(s.Ops, o)
	}
	return s
}

func runEPipe(final func(c *eng.C, s scE)) func(c *eng.C, s scE) error {
	return func(c *eng.C, s scE) error {
		in := InBubble
		if s.Real {
			in = Real
		}
		return in(c, func(b *B) error {
			if err := runE(c, b, s, dialPipe(s.Proto), 1<<20, nil); err != nil {
				return err
			}
			final(c, s)
			return nil
		})
	}
}
