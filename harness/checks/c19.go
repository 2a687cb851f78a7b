package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/coder/websocket"
	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// op19 is one step of a history of HTTP requests.
type op19 struct {
	K      string // neg ws sse post postsse call drop sleep method par
	Ref    int    `json:",omitempty"` // negotiation
	Which  string `json:",omitempty"` // key (the one the version requires), other (the one it does not), mutN, none, or text:...
	Ver    string `json:",omitempty"` // negotiateVersion
	How    string `json:",omitempty"` // query header; drop: how
	Method string `json:",omitempty"`
	D      int64  `json:",omitempty"` // ms
	Silent bool   `json:",omitempty"` // connects, but does not shake hands
	Sub    []op19 `json:",omitempty"`
}

type sc19 struct {
	HT         int64 // ms, also the life time of negotiations
	Limit      int   // 0: default 1000, <0: not limited
	Transports []string
	Ops        []op19
	PerConn    bool
	Yield      uint64 `json:",omitempty"`
}

type neg19 struct {
	id, token string
	key       string
	created   time.Duration
	state     string // pending used gone
}

type conn19 struct {
	neg   int // -1: without
	key   string
	id    string // expected connection id, "": unknown
	ws    *WS
	sse   *SSE
	off   int
	calls int
	at    time.Duration
	shook bool
	alive bool
}

type x19 struct {
	c     *eng.C
	b     *B
	s     sc19
	w     *Web
	hub   *w17
	negs  []*neg19
	conns []*conn19
	ids   map[string]bool
	ttl   time.Duration
	limit int
}

func esc19(s string) string { return "?id=" + url.QueryEscape(s) }

func (x *x19) now() time.Duration { return x.b.Now() }

// key returns the text of an id and the negotiation it admits (-1: none).
func (x *x19) key(o op19) (text string, neg int, err error) {
	if strings.HasPrefix(o.Which, "text:") {
		return o.Which[5:], -1, nil
	}
	if o.Which == "none" {
		return "", -1, nil
	}
	if len(x.negs) == 0 {
		return "unknown", -1, nil
	}
	i := o.Ref % len(x.negs)
	if i < 0 {
		return "", 0, eng.Discard
	}
	n := x.negs[i]
	switch {
	case o.Which == "" || o.Which == "key":
		return n.key, i, nil
	case o.Which == "other":
		if n.token == "" {
			return n.id + n.id, -1, nil
		}
		return n.id, -1, nil
	case strings.HasPrefix(o.Which, "mut"):
		k := []byte(n.key)
		switch o.Which {
		case "mut0":
			k = k[:len(k)-1]
		case "mut1":
			k = append(k, ' ')
		case "mut2":
			k = bytes.ToLower(k)
		case "mut3":
			k[0] ^= 1
		case "mut4":
			k = append([]byte("x"), k...)
		case "mut5":
			k = append(k, k...)
		default:
			return "", 0, eng.Discard
		}
		if string(k) == n.key {
			return n.key, i, nil
		}
		return string(k), -1, nil
	}
	return "", 0, eng.Discard
}

// admission tells what has to happen to a connection attempt with the negotiation: yes no maybe
func (x *x19) admission(neg int, t0, t1 time.Duration) string {
	if neg < 0 {
		return "no"
	}
	n := x.negs[neg]
	switch {
	case n.state != "pending":
		return "no"
	case t1-n.created < x.ttl:
		return "yes"
	case t0-n.created > 2*x.ttl:
		return "no"
	}
	return "maybe"
}

func (x *x19) pending(t0, t1 time.Duration) (lo, hi int) {
	for i := range x.negs {
		switch x.admission(i, t0, t1) {
		case "yes":
			lo++
			hi++
		case "maybe":
			hi++
		}
	}
	return
}

type res19 struct {
	status int
	body   []byte
	head   http.Header
	err    error
}

func (x *x19) request(o op19, path string) res19 {
	h := http.Header{}
	if o.Ver != "" {
		if o.How == "header" {
			h.Set("negotiateVersion", o.Ver)
		} else {
			path += "?negotiateVersion=" + url.QueryEscape(o.Ver)
		}
	}
	m := o.Method
	if m == "" {
		m = "POST"
	}
	var r res19
	r.status, r.body, r.head, r.err = x.w.Request(x.b.Ctx, m, path, h, nil)
	return r
}

// negotiated checks a successful negotiation.
func (x *x19) negotiated(o op19, r res19, t time.Duration) error {
	var n struct {
		ConnectionToken     string
		ConnectionID        string
		NegotiateVersion    int
		AvailableTransports []struct {
			Transport       string
			TransferFormats []string
		}
	}
	if err := json.Unmarshal(r.body, &n); err != nil {
		return eng.Errf("the negotiate response is malformed: %q", r.body)
	}
	var got, want []string
	for _, t := range n.AvailableTransports {
		f := append([]string{}, t.TransferFormats...)
		sort.Strings(f)
		got = append(got, t.Transport+fmt.Sprint(f))
	}
	for _, t := range x.s.Transports {
		if t == "WebSockets" {
			want = append(want, "WebSockets[Binary Text]")
		} else {
			want = append(want, "ServerSentEvents[Text]")
		}
	}
	if len(x.s.Transports) == 0 {
		want = []string{"WebSockets[Binary Text]", "ServerSentEvents[Text]"}
	}
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return eng.Errf("the negotiate response lists the transports %v, configured are %v", got, want)
	}
	v1 := o.Ver == "1"
	future := o.Ver == "2" || o.Ver == "10" // a server which does not know the version answers with one it knows, or as without one
	if future {
		v1 = n.ConnectionToken != ""
	}
	ids := []string{n.ConnectionID}
	if v1 {
		ids = append(ids, n.ConnectionToken)
	} else if n.ConnectionToken != "" {
		return eng.Errf("negotiate version %q, but there is a token: %q", o.Ver, r.body)
	}
	if v1 != (n.NegotiateVersion == 1) && !future {
		return eng.Errf("negotiate version %q is answered with version %d", o.Ver, n.NegotiateVersion)
	}
	for _, id := range ids {
		if len(id) < 16 {
			return eng.Errf("the identifier %q is too short to be unguessable", id)
		}
		for other := range x.ids {
			same := 0
			for i := 0; i < min(len(id), len(other)); i++ {
				if id[i] == other[i] {
					same++
				}
			}
			if same > len(id)*6/10 {
				return eng.Errf("the identifiers %q and %q are too similar", id, other)
			}
		}
		x.ids[id] = true
	}
	key := n.ConnectionID
	if v1 {
		key = n.ConnectionToken
	}
	x.negs = append(x.negs, &neg19{id: n.ConnectionID, token: n.ConnectionToken, key: key, created: t, state: "pending"})
	return nil
}

type try19 struct {
	o      op19
	key    string
	neg    int
	t0     time.Duration
	ws     *WS
	sse    *SSE
	status int
	err    error
	neg19  *res19
}

// start makes the request of a connection attempt or negotiation.
func (x *x19) start(t *try19) {
	t.t0 = x.now()
	switch t.o.K {
	case "ws":
		q := esc19(t.key)
		if t.o.Which == "none" {
			q = ""
		}
		t.ws, t.status, t.err = x.w.DialWS(x.b.Ctx, q, nil, websocket.CompressionDisabled)
	case "sse":
		q := esc19(t.key)
		if t.o.Which == "none" {
			q = ""
		}
		t.sse, t.status, t.err = x.w.OpenSSE(x.b.Ctx, q)
	case "neg":
		r := x.request(t.o, "/hub/negotiate")
		t.neg19 = &r
	}
}

// open reports if the request has led to something which looks like a connection.
func (t *try19) open() bool {
	if t.ws != nil {
		_, err := t.ws.Got()
		return err == nil
	}
	return t.sse != nil
}

func (x *x19) post(key string, body []byte) (int, error) {
	st, _, _, err := x.w.Request(x.b.Ctx, "POST", "/hub"+esc19(key), nil, bytes.NewReader(body))
	return st, err
}

func (x *x19) send(cn *conn19, p []byte) error {
	if cn.ws != nil {
		err := cn.ws.Conn.Write(x.b.Ctx, websocket.MessageText, p)
		x.b.Wait()
		return err
	}
	st, err := x.post(cn.key, p)
	if err != nil || st != 200 {
		return fmt.Errorf("POST: status %d, %v", st, err)
	}
	return nil
}

func (cn *conn19) got() ([]byte, error) {
	if cn.ws != nil {
		return cn.ws.Got()
	}
	return cn.sse.Got()
}

// finish shakes hands where it is possible and compares with the model.
func (x *x19) finish(ts []*try19) error {
	x.b.Wait()
	won := map[int]int{}
	for _, t := range ts {
		if t.o.K == "neg" {
			continue
		}
		what := fmt.Sprintf("%s with id %q (%s) at %v", t.o.K, t.key, t.o.Which, t.t0)
		opened := t.open()
		direct := t.o.K == "ws" && t.o.Which == "none"
		if t.neg >= 0 && opened {
			won[t.neg]++
		}
		adm := x.admission(t.neg, t.t0, x.now())
		if direct {
			adm = "yes"
		}
		if opened && adm == "no" {
			return eng.Errf("%s: must be refused, but the connection is open", what)
		}
		if !opened && t.sse == nil && t.o.K == "sse" && t.status < 400 {
			return eng.Errf("%s: refused without an error status: %d", what, t.status)
		}
		if !opened && adm == "yes" && len(ts) == 1 {
			return eng.Errf("%s: must be admitted, but: status %d, %v", what, t.status, t.err)
		}
		if !opened {
			x.c.Label("%s refused", t.o.K)
			continue
		}
		x.c.Label("%s admitted", t.o.K)
		cn := &conn19{neg: t.neg, key: t.key, ws: t.ws, sse: t.sse, at: t.t0, alive: true}
		if t.neg >= 0 {
			cn.id = x.negs[t.neg].id
		}
		x.conns = append(x.conns, cn)
		if t.o.Silent {
			continue
		}
		if err := x.shake(cn, what); err != nil {
			return err
		}
	}
	// those who were tried at the same time
	for _, t := range ts {
		if t.neg < 0 || t.o.K == "neg" {
			continue
		}
		n := x.negs[t.neg]
		adm := x.admission(t.neg, t.t0, x.now())
		if won[t.neg] > 1 {
			return eng.Errf("the id %q was used for %d connections", t.key, won[t.neg])
		}
		if won[t.neg] == 0 && adm == "yes" {
			return eng.Errf("the id %q was tried concurrently, but there is no connection", t.key)
		}
		if won[t.neg] == 0 && adm == "maybe" {
			n.state = "gone"
		}
	}
	for neg, k := range won {
		if k > 0 {
			x.negs[neg].state = "used"
		}
	}
	return nil
}

func (x *x19) shake(cn *conn19, what string) error {
	if err := x.send(cn, Handshake("json")); err != nil {
		return eng.Errf("%s: sending the handshake: %v", what, err)
	}
	x.b.Wait()
	p, err := cn.got()
	if string(p) != "{}\x1e" {
		return eng.Errf("%s: the handshake is answered with %q (%v)", what, p, err)
	}
	cn.off = len(p)
	cn.shook = true
	return nil
}

func (x *x19) call(i int) error {
	cn := x.conns[i]
	cn.calls++
	arg := fmt.Sprintf("%d.%d", i, cn.calls)
	what := fmt.Sprintf("connection %d (key %q)", i, cn.key)
	p, err := cn.got()
	if err != nil {
		return eng.Errf("%s should be alive: %v", what, err)
	}
	if len(p) > cn.off { // pings
		ms, _, err := DecodeAll("json", p[cn.off:])
		for _, m := range ms {
			if err != nil || m.Type != 6 {
				return eng.Errf("%s receives %q", what, p[cn.off:])
			}
		}
		cn.off = len(p)
	}
	if err := x.send(cn, Encode("json", Msg{Type: 1, ID: arg, Target: "Echo", Args: []any{arg}}, Style{})); err != nil {
		return eng.Errf("%s: %v", what, err)
	}
	x.b.Wait()
	p, err = cn.got()
	if err != nil {
		return eng.Errf("%s has ended: %v", what, err)
	}
	ms, rest, err := DecodeAll("json", p[cn.off:])
	cn.off = len(p)
	var l []Msg
	for _, m := range ms {
		if m.Type != 6 {
			l = append(l, m)
		}
	}
	if err != nil || len(rest) > 0 || len(l) != 1 || l[0].Type != 3 || l[0].ID != arg || fmt.Sprint(l[0].Result) != arg {
		return eng.Errf("%s: a call is answered with %v %q %v", what, ms, rest, err)
	}
	return nil
}

// aged updates connections which did not shake hands.
func (x *x19) aged() error {
	x.b.Wait()
	for i, cn := range x.conns {
		if cn.alive && !cn.shook && x.now()-cn.at > x.ttl+6*time.Second {
			cn.alive = false
			if _, err := cn.got(); err == nil {
				return eng.Errf("connection %d (key %q) did not shake hands for %v, but was not ended", i, cn.key, x.now()-cn.at)
			}
		}
	}
	return nil
}

var methods19 = []string{"GET", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD"}

func (x *x19) do(o op19) error {
	switch o.K {
	case "neg":
		if o.Method != "" && o.Method != "POST" {
			r := x.request(o, "/hub/negotiate")
			if r.err != nil || r.status < 400 {
				return eng.Errf("%s negotiate: status %d, %v", o.Method, r.status, r.err)
			}
			return nil
		}
		return x.do(op19{K: "par", Sub: []op19{o}})
	case "ws", "sse":
		return x.do(op19{K: "par", Sub: []op19{o}})
	case "par":
		if len(o.Sub) == 0 || len(o.Sub) > 30 {
			return eng.Discard
		}
		var ts []*try19
		negs, other := 0, 0
		for _, u := range o.Sub {
			t := &try19{o: u}
			var err error
			switch u.K {
			case "ws", "sse":
				other++
				if t.key, t.neg, err = x.key(u); err != nil {
					return err
				}
				if t.neg < 0 && t.key == "" && u.Which != "none" {
					return eng.Discard
				}
				for k := range x.negs {
					if x.negs[k].key == t.key {
						t.neg = k
					}
				}
			case "neg":
				if u.Method != "" && u.Method != "POST" {
					return eng.Discard
				}
				negs++
			default:
				return eng.Discard
			}
			ts = append(ts, t)
		}
		t0 := x.now()
		var wg sync.WaitGroup
		for _, t := range ts {
			wg.Add(1)
			go func() { defer wg.Done(); x.start(t) }()
		}
		wg.Wait()
		lo, hi := x.pending(t0, x.now())
		ok := 0
		for _, t := range ts {
			if t.neg19 == nil {
				continue
			}
			r := *t.neg19
			if r.err != nil {
				return eng.Errf("negotiate: %v", r.err)
			}
			switch {
			case r.status == 200:
				ok++
				if err := x.negotiated(t.o, r, t0); err != nil {
					return err
				}
			case r.status < 400:
				return eng.Errf("negotiate: status %d", r.status)
			default:
				x.c.Label("negotiate refused")
			}
		}
		if x.limit > 0 && negs > 0 {
			free, need := 0, 0
			for _, t := range ts {
				if t.o.K != "neg" && t.neg >= 0 {
					free++ // might free a place
				}
				if t.o.K == "ws" && t.o.Which == "none" {
					need++ // might need a place for a moment
				}
			}
			most := min(negs, max(0, x.limit-lo+free))
			least := min(negs, max(0, x.limit-hi-need))
			if ok > most || ok < least {
				return eng.Errf("%d of %d negotiations succeed, but %d to %d are pending and the limit is %d", ok, negs, lo, hi, x.limit)
			}
			if hi+negs > x.limit {
				x.c.NonTrivial()
			}
		} else if ok != negs {
			return eng.Errf("only %d of %d negotiations succeed although there is no limit", ok, negs)
		}
		if len(ts) > 1 && other > 1 {
			x.c.NonTrivial()
		}
		return x.finish(ts)
	case "postsse":
		key, neg, err := x.key(o)
		if err != nil {
			return err
		}
		t0 := x.now()
		if o.D < 0 || o.D >= x.s.HT-100 || x.admission(neg, t0, t0+time.Duration(o.D+20)*time.Millisecond) != "yes" {
			return eng.Discard
		}
		var st int
		var perr error
		done := make(chan struct{})
		go func() { st, perr = x.post(key, Handshake("json")); close(done) }()
		x.b.Sleep(time.Duration(o.D) * time.Millisecond)
		t := &try19{o: op19{K: "sse", Silent: true}, key: key, neg: neg}
		x.start(t)
		if err := x.finish([]*try19{t}); err != nil {
			return err
		}
		x.b.Sleep(70 * time.Millisecond)
		select {
		case <-done:
		default:
			return eng.Errf("POST before the event stream was opened does not return afterwards")
		}
		cn := x.conns[len(x.conns)-1]
		p, err := cn.got()
		if perr != nil || st != 200 || string(p) != "{}\x1e" {
			return eng.Errf("POST of the handshake %d ms before the event stream was opened: status %d, %v; answer %q %v", o.D, st, perr, p, err)
		}
		cn.off, cn.shook = len(p), true
		x.c.NonTrivial()
		return nil
	case "post": // to something which is not an event stream
		key, neg, err := x.key(o)
		if err != nil {
			return err
		}
		for _, cn := range x.conns {
			if cn.key == key && cn.sse != nil && cn.alive {
				return nil
			}
		}
		var st int
		if o.Which == "none" {
			var err error
			if st, _, _, err = x.w.Request(x.b.Ctx, "POST", "/hub", nil, strings.NewReader("x")); err != nil {
				return eng.Errf("POST without id: %v", err)
			}
		} else if st, err = x.post(key, Handshake("json")); err != nil {
			return eng.Errf("POST %q: %v", key, err)
		}
		if st < 400 {
			return eng.Errf("POST for id %q (negotiation %d), which has no event stream: status %d", key, neg, st)
		}
		return nil
	case "call", "drop":
		if len(x.conns) == 0 || o.Ref < 0 {
			return nil
		}
		i := o.Ref % len(x.conns)
		cn := x.conns[i]
		if !cn.alive {
			return nil
		}
		if o.K == "call" {
			if !cn.shook {
				return nil
			}
			return x.call(i)
		}
		if cn.ws != nil {
			if o.How == "close" {
				_ = cn.ws.Conn.Close(websocket.StatusNormalClosure, "")
			} else {
				_ = cn.ws.Conn.CloseNow()
			}
		} else {
			cn.sse.Close()
		}
		x.b.Sleep(6 * time.Second) // for the closing handshake
		cn.alive = false
		return nil
	case "sleep":
		if o.D < 0 {
			return eng.Discard
		}
		x.b.Sleep(time.Duration(o.D) * time.Millisecond)
		return nil
	case "method":
		key, _, err := x.key(o)
		if err != nil {
			return err
		}
		ok := false
		for _, m := range methods19 {
			ok = ok || m == o.Method
		}
		if !ok {
			return eng.Discard
		}
		st, _, _, err := x.w.Request(x.b.Ctx, o.Method, "/hub"+esc19(key), nil, nil)
		if err != nil || st < 400 {
			return eng.Errf("%s: status %d, %v", o.Method, st, err)
		}
		return nil
	}
	return eng.Discard
}

func run19(c *eng.C, s sc19) error {
	if s.HT < 1000 || s.HT > 3600000 || len(s.Ops) > 200 {
		return eng.Discard
	}
	var tr []signalr.TransportType
	for i, t := range s.Transports {
		if t != "WebSockets" && t != "ServerSentEvents" || i > 0 && t == s.Transports[0] || i > 1 {
			return eng.Discard
		}
		tr = append(tr, signalr.TransportType(t))
	}
	return InBubble(c, func(b *B) error {
		w := &w17{}
		var y *Yield
		if s.Yield != 0 {
			y = NewYield(s.Yield, 20)
		}
		opts := []func(signalr.Party) error{Quiet(y), signalr.HandshakeTimeout(time.Duration(s.HT) * time.Millisecond),
			signalr.TimeoutInterval(100000 * time.Hour), signalr.KeepAliveInterval(50000 * time.Hour)}
		if s.PerConn {
			opts = append(opts, signalr.PerConnectionHubFactory(func(string) signalr.HubInterface { return &hub17{w: w} }))
		} else {
			opts = append(opts, signalr.HubFactory(func() signalr.HubInterface { return &hub17{w: w} }))
		}
		if len(tr) > 0 {
			opts = append(opts, signalr.HTTPTransports(tr...))
		}
		x := &x19{c: c, b: b, s: s, hub: w, ids: map[string]bool{}, ttl: time.Duration(s.HT) * time.Millisecond, limit: s.Limit}
		switch {
		case s.Limit == 0:
			x.limit = 1000
		case s.Limit < 0:
			x.limit = 0
			opts = append(opts, signalr.MaxNegotiationConnections(0))
		default:
			opts = append(opts, signalr.MaxNegotiationConnections(s.Limit))
		}
		ctx, stop := context.WithCancel(b.Ctx)
		defer stop()
		srv, err := signalr.NewServer(ctx, opts...)
		if err != nil {
			return err
		}
		x.w = b.Web(srv, nil)
		for i, o := range s.Ops {
			if err := x.do(o); err != nil {
				if err == eng.Discard {
					return err
				}
				return eng.Errf("step %d (%s): %v", i, o.K, err)
			}
			if err := x.aged(); err != nil {
				return eng.Errf("step %d (%s): %v", i, o.K, err)
			}
		}
		want := map[string]int{}
		for i, cn := range x.conns {
			if cn.alive && cn.shook {
				if err := x.call(i); err != nil {
					return eng.Errf("at the end: %v", err)
				}
			}
			if cn.shook && cn.id != "" {
				want[cn.id]++
			}
		}
		b.Wait()
		direct := 0
		for _, cn := range x.conns {
			if cn.shook && cn.id == "" {
				direct++
			}
		}
		seen := map[string]int{}
		for _, call := range w.rec.Calls() {
			switch call.Method {
			case "on":
				if seen[call.Conn]++; seen[call.Conn] > 1 {
					return eng.Errf("two connections have the id %q", call.Conn)
				}
				if want[call.Conn] == 0 {
					if direct--; direct < 0 || x.ids[call.Conn] {
						return eng.Errf("the hub is told about connection %q; the ids of the connections are %v", call.Conn, want)
					}
				}
			case "off":
				alive := false
				for _, cn := range x.conns {
					if cn.id == call.Conn && cn.alive && cn.shook {
						alive = true
					}
				}
				if alive {
					return eng.Errf("the hub is told that connection %q has ended, but it has not", call.Conn)
				}
			}
		}
		for id := range want {
			if seen[id] == 0 {
				return eng.Errf("the hub was not told about connection %q, but about %v", id, seen)
			}
		}
		if len(x.conns) > 0 {
			c.NonTrivial()
		}
		return nil
	})
}

func gen19(r *eng.R) sc19 {
	s := sc19{HT: eng.Pick(r, int64(1000), 15000, int64(r.N(1000, 60000))), PerConn: r.P(0.3)}
	s.Limit = eng.Pick(r, 0, 0, -1, 1, 1, 2, 3, r.N(1, 10))
	s.Transports = eng.Pick(r, []string{}, []string{}, []string{"WebSockets"}, []string{"ServerSentEvents"}, []string{"ServerSentEvents", "WebSockets"}, []string{"WebSockets", "ServerSentEvents"})
	kinds := s.Transports
	if len(kinds) == 0 {
		kinds = []string{"WebSockets", "ServerSentEvents"}
	}
	negs, conns := 0, 0
	which := func() string {
		switch r.Weighted(12, 2, 2, 1) {
		case 1:
			return "other"
		case 2:
			return fmt.Sprint("mut", r.IntN(6))
		case 3:
			return "text:" + eng.Pick(r, "x", "0", "undefined", "AAAAAAAAAAAAAAAAAAAAAA==", "../negotiate", "a b&c=%41", "\x00", "ü", strings.Repeat("a", 3000))
		}
		return ""
	}
	ref := func(n int) int {
		if n == 0 {
			return 0
		}
		if r.P(0.7) {
			return n - 1 - min(r.Heavy(n), n-1)
		}
		return r.IntN(n)
	}
	ver := func() string { return eng.Pick(r, "", "0", "1", "1", "1", "abc", "1.0", "2", "10") }
	conn := func() op19 {
		o := op19{K: "sse", Ref: ref(negs), Which: which(), Silent: r.P(0.1)}
		if eng.Pick(r, kinds...) == "WebSockets" {
			o.K = "ws"
			if r.P(0.1) {
				o.Which = "none"
			}
		}
		conns++
		return o
	}
	for k := 2 + r.Heavy(40); k > 0; k-- {
		var o op19
		switch r.Weighted(10, 10, 2, 2, 6, 4, 5, 2, 4) {
		case 0:
			o = op19{K: "neg", Ver: ver(), How: eng.Pick(r, "query", "query", "header")}
			if r.P(0.1) {
				o.Method = eng.Pick(r, methods19...)
			} else {
				negs++
			}
		case 1:
			o = conn()
		case 2:
			o = op19{K: "post", Ref: ref(negs), Which: which()}
			if r.P(0.2) {
				o.Which = "none"
			}
		case 3:
			if !strings.Contains(fmt.Sprint(kinds), "Server") {
				continue
			}
			o = op19{K: "neg", Ver: ver(), How: "query"}
			s.Ops = append(s.Ops, o)
			negs++
			conns++
			o = op19{K: "postsse", Ref: negs - 1, D: r.Int64N(s.HT - 200)}
			if s.Limit > 0 { // the negotiation might have been refused
				continue
			}
		case 4:
			o = op19{K: "call", Ref: r.IntN(conns + 1)}
		case 5:
			o = op19{K: "drop", Ref: r.IntN(conns + 1), How: eng.Pick(r, "close", "now")}
		case 6:
			o = op19{K: "sleep", D: eng.Pick(r, 1, s.HT/2, s.HT-1, s.HT+1, 2*s.HT+1, 3*s.HT, r.Int64N(3*s.HT))}
		case 7:
			o = op19{K: "method", Ref: ref(negs), Which: which(), Method: eng.Pick(r, methods19...)}
		case 8:
			o = op19{K: "par"}
			n := r.N(2, 8)
			what := r.IntN(3)
			at := ref(negs)
			for range n {
				if what == 0 || what == 2 && r.P(0.5) {
					o.Sub = append(o.Sub, op19{K: "neg", Ver: ver(), How: eng.Pick(r, "query", "header")})
					negs++
				} else {
					u := conn()
					if r.P(0.8) {
						u.Which, u.Ref = "", at
					}
					o.Sub = append(o.Sub, u)
				}
			}
		}
		s.Ops = append(s.Ops, o)
	}
	if r.P(0.3) {
		s.Yield = r.Uint64() | 1
	}
	return s
}

// race19: requests which are handled at the same moment, again and again, without a network in between.
type race19 struct {
	Limit  int
	Rounds []rnd19
	Yield  uint64 `json:",omitempty"`
}

type rnd19 struct {
	Neg  int // concurrent negotiations
	Open int // concurrent attempts to use every id
	Post int // concurrent POSTs for every id
	V1   bool
}

// rec19 is a ResponseWriter which can be inspected while the handler runs.
type rec19 struct {
	mx     sync.Mutex
	status int
	body   bytes.Buffer
	head   http.Header
}

func (r *rec19) Header() http.Header { return r.head }
func (r *rec19) WriteHeader(s int) {
	r.mx.Lock()
	defer r.mx.Unlock()
	if r.status == 0 {
		r.status = s
	}
}
func (r *rec19) Write(p []byte) (int, error) {
	r.WriteHeader(200)
	r.mx.Lock()
	defer r.mx.Unlock()
	return r.body.Write(p)
}
func (r *rec19) Flush() { r.WriteHeader(200) }
func (r *rec19) get() int {
	r.mx.Lock()
	defer r.mx.Unlock()
	return r.status
}

func runRace19(c *eng.C, s race19) error {
	if s.Limit < 1 || len(s.Rounds) > 100 {
		return eng.Discard
	}
	for _, r := range s.Rounds {
		if r.Neg < 1 || r.Neg > 64 || r.Open < 0 || r.Open > 32 || r.Post < 0 || r.Post > 32 {
			return eng.Discard
		}
	}
	return InBubble(c, func(b *B) error {
		w := &w17{}
		var y *Yield
		if s.Yield != 0 {
			y = NewYield(s.Yield, 20)
		}
		srv, err := signalr.NewServer(b.Ctx, Quiet(y), signalr.HandshakeTimeout(time.Second), signalr.MaxNegotiationConnections(s.Limit),
			signalr.HubFactory(func() signalr.HubInterface { return &hub17{w: w} }))
		if err != nil {
			return err
		}
		mux := http.NewServeMux()
		srv.MapHTTP(signalr.WithHTTPServeMux(mux), "/hub")
		b.Wait()
		b.Sleep(500 * time.Millisecond)
		for i, rd := range s.Rounds {
			ctx, end := context.WithCancel(b.Ctx)
			type job struct {
				rec *rec19
				req *http.Request
			}
			serve := func(jobs []job) *sync.WaitGroup {
				var wg sync.WaitGroup
				var ready atomic.Int32
				for k, j := range jobs {
					wg.Add(1)
					go func() {
						defer wg.Done()
						// close together, in any order
						ready.Add(1)
						for n := 0; int(ready.Load()) < len(jobs); n++ {
							if n > 50+k {
								runtime.Gosched()
							}
						}
						mux.ServeHTTP(j.rec, j.req)
					}()
				}
				return &wg
			}
			mk := func(method, path string, body string) job {
				req, err := http.NewRequestWithContext(ctx, method, "http://test.local"+path, strings.NewReader(body))
				if err != nil {
					panic(err)
				}
				req.RequestURI = path
				return job{&rec19{head: http.Header{}}, req}
			}
			var jobs []job
			for range rd.Neg {
				path := "/hub/negotiate"
				if rd.V1 {
					path += "?negotiateVersion=1"
				}
				jobs = append(jobs, mk("POST", path, ""))
			}
			serve(jobs).Wait()
			var keys []string
			seen := map[string]bool{}
			for _, j := range jobs {
				if st := j.rec.get(); st != 200 {
					if st < 400 {
						end()
						return eng.Errf("round %d: negotiate: status %d", i, st)
					}
					continue
				}
				var n struct{ ConnectionID, ConnectionToken string }
				if err := json.Unmarshal(j.rec.body.Bytes(), &n); err != nil {
					end()
					return eng.Errf("round %d: negotiate: %q", i, j.rec.body.Bytes())
				}
				k := n.ConnectionID
				if rd.V1 {
					k = n.ConnectionToken
				}
				if k == "" || seen[k] {
					end()
					return eng.Errf("round %d: the id %q is not unique", i, k)
				}
				seen[k] = true
				keys = append(keys, k)
			}
			if want := min(rd.Neg, s.Limit); len(keys) != want {
				end()
				return eng.Errf("round %d: %d of %d concurrent negotiations succeed, the limit is %d", i, len(keys), rd.Neg, s.Limit)
			}
			if rd.Neg > s.Limit {
				c.NonTrivial()
			}
			jobs = nil
			var posts []job
			var owner []string
			for _, k := range keys[:min(len(keys), 3)] {
				for range rd.Open {
					j := mk("GET", "/hub?id="+url.QueryEscape(k), "")
					j.req.Header.Set("Accept", "text/event-stream")
					jobs = append(jobs, j)
					owner = append(owner, k)
				}
				if rd.Open > 0 {
					for range rd.Post {
						posts = append(posts, mk("POST", "/hub?id="+url.QueryEscape(k), string(Handshake("json"))))
					}
				}
			}
			all := append(append([]job{}, jobs...), posts...)
			before := len(w.rec.Calls())
			wg := serve(all)
			b.Wait()
			b.Sleep(200 * time.Millisecond)
			won := map[string]int{}
			for n, j := range jobs {
				switch st := j.rec.get(); {
				case st == 200:
					won[owner[n]]++
				case st < 400:
					end()
					return eng.Errf("round %d: opening the event stream: status %d", i, st)
				}
			}
			for _, k := range owner {
				if won[k] != 1 {
					end()
					return eng.Errf("round %d: %d of %d concurrent attempts to use the id %q succeed", i, won[k], rd.Open, k)
				}
			}
			// Of concurrent POSTs one or more are accepted, the first is the handshake
			on := 0
			for _, call := range w.rec.Calls()[before:] {
				if call.Method == "on" {
					on++
				}
			}
			if want := len(won); rd.Post == 1 && on != want || rd.Post > 1 && on > want || rd.Post == 0 && on != 0 {
				end()
				return eng.Errf("round %d: %d hubs were connected by %d connections with %d POSTs each", i, on, want, rd.Post)
			}
			if rd.Open > 1 {
				c.NonTrivial()
				c.Label("concurrent use")
			}
			end()
			wg.Wait()
			b.Sleep(5 * time.Second)
		}
		return nil
	})
}

func genRace19(r *eng.R) race19 {
	s := race19{Limit: eng.Pick(r, 1, 2, r.N(1, 20))}
	for k := r.N(1, 10); k > 0; k-- {
		s.Rounds = append(s.Rounds, rnd19{Neg: r.N(1, 24), Open: r.N(0, 8), Post: eng.Pick(r, 0, 1, 1, r.N(0, 4)), V1: r.P(0.5)})
	}
	if r.P(0.5) {
		s.Yield = r.Uint64() | 1
	}
	return s
}

func init() {
	eng.Register(&eng.Check{
		ID:   "C19",
		Rule: "a case is non-trivial when a connection was admitted, ids were used concurrently, or the limit of negotiations was reached",
		Families: []eng.Family{
			eng.Fam("histories", 12000, 120000, gen19, run19),
			eng.Fam("races", 2000, 20000, genRace19, runRace19),
		},
	})
}
