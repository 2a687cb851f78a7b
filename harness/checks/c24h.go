package checks

import (
	"context"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/coder/websocket"
	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// A library client is connected to another implementation of a server, which never ends a connection of the network itself.
// When the SignalR connection has ended, the client ends the connection of the network and keeps nothing of it, and it tells
// the server why, when the server is still there.

type end24h struct {
	Cause string
	Work  int  `json:",omitempty"` // invocations which are never answered
	Part  bool `json:",omitempty"` // the server has sent a part of a message before
	At    int  `json:",omitempty"` // ms after the connection was made
}

type sc24h struct {
	T, P string
	Ver  int
	Deaf bool // the server does not read any more when the connection ends (WebSockets)
	Ends []end24h
}

// causes24h: does the client connect again, does it have to tell the server?
var causes24h = map[string]struct{ again, tell, connected bool }{
	"close":     {false, false, true},
	"closere":   {true, false, true},
	"closeerr":  {false, false, true},
	"closeboth": {true, false, true},
	"unknown":   {true, true, true},
	"badid":     {true, true, true},
	"garbage":   {true, true, true},
	"silent":    {true, true, true},
	"stop":      {false, true, true},
	"ctx":       {false, true, true},
	"hserr":     {true, false, false},
	"hsgarbage": {true, false, false},
	"hsnone":    {true, false, false},
	"hspart":    {true, false, false},
}

type net24h struct {
	out   chan []byte
	mx    sync.Mutex
	in    []byte
	deaf  chan struct{}
	ended bool
}

func (n *net24h) got() []byte { n.mx.Lock(); defer n.mx.Unlock(); return append([]byte{}, n.in...) }
func (n *net24h) end()        { n.mx.Lock(); n.ended = true; n.mx.Unlock() }
func (n *net24h) over() bool  { n.mx.Lock(); defer n.mx.Unlock(); return n.ended }

type srv24h struct {
	b   *B
	s   sc24h
	mx  sync.Mutex
	ns  []*net24h
	ids int
}

func (x *srv24h) nets() []*net24h {
	x.mx.Lock()
	defer x.mx.Unlock()
	return append([]*net24h{}, x.ns...)
}

func (x *srv24h) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	id := r.URL.Query().Get("id")
	open := func() *net24h {
		n := &net24h{out: make(chan []byte), deaf: make(chan struct{})}
		x.mx.Lock()
		x.ns = append(x.ns, n)
		x.mx.Unlock()
		return n
	}
	switch {
	case strings.HasSuffix(r.URL.Path, "/negotiate"):
		x.mx.Lock()
		x.ids++
		id := fmt.Sprint("id", x.ids)
		x.mx.Unlock()
		tr := map[string]any{"transport": "WebSockets", "transferFormats": []string{"Text", "Binary"}}
		if x.s.T == "sse" {
			tr = map[string]any{"transport": "ServerSentEvents", "transferFormats": []string{"Text"}}
		}
		m := map[string]any{"connectionId": id, "negotiateVersion": x.s.Ver, "availableTransports": []any{tr}}
		if x.s.Ver == 1 {
			m["connectionToken"] = id
		}
		p, _ := json.Marshal(m)
		_, _ = w.Write(p)
	case x.s.T == "sse" && r.Method == "POST":
		var p []byte
		buf := make([]byte, 1000)
		for {
			k, err := r.Body.Read(buf)
			p = append(p, buf[:k]...)
			if err != nil {
				break
			}
		}
		x.mx.Lock()
		defer x.mx.Unlock()
		for i, n := range x.ns {
			if fmt.Sprint("id", i+1) == id {
				n.mx.Lock()
				n.in = append(n.in, p...)
				n.mx.Unlock()
			}
		}
	case x.s.T == "sse":
		n := open()
		w.Header().Set("Content-Type", "text/event-stream")
		w.WriteHeader(200)
		w.(http.Flusher).Flush()
		for {
			select {
			case p := <-n.out:
				_, _ = fmt.Fprintf(w, "data: %s\n\n", p)
				w.(http.Flusher).Flush()
			case <-r.Context().Done():
				n.end()
				return
			case <-x.b.Ctx.Done():
				return
			}
		}
	default:
		n := open()
		ws, err := websocket.Accept(w, r, nil)
		if err != nil {
			return
		}
		ws.SetReadLimit(-1)
		go func() {
			for {
				typ, rd, err := ws.Reader(x.b.Ctx)
				_ = typ
				if err == nil {
					buf := make([]byte, 1000)
					for err == nil {
						var k int
						k, err = rd.Read(buf)
						n.mx.Lock()
						n.in = append(n.in, buf[:k]...)
						n.mx.Unlock()
						select {
						case <-n.deaf: // until the case is over
							<-x.b.Ctx.Done()
							return
						default:
						}
					}
					if err.Error() == "EOF" {
						continue
					}
				}
				n.end()
				return
			}
		}()
		for {
			select {
			case p := <-n.out:
				typ := websocket.MessageBinary
				if x.s.P == "json" {
					typ = websocket.MessageText
				}
				_ = ws.Write(x.b.Ctx, typ, p)
			case <-x.b.Ctx.Done():
				_ = ws.CloseNow()
				return
			}
		}
	}
}

func (s sc24h) valid() bool {
	if s.T != "ws" && s.T != "sse" || s.P != "json" && s.P != "messagepack" || s.T == "sse" && (s.P != "json" || s.Deaf) || s.Ver < 0 || s.Ver > 1 || len(s.Ends) < 1 || len(s.Ends) > 10 {
		return false
	}
	for i, e := range s.Ends {
		c, ok := causes24h[e.Cause]
		if !ok || e.Work < 0 || e.Work > 20 || e.At < 0 || e.At > 3000 || c.again == (i == len(s.Ends)-1) || e.Part && (!c.connected || s.T == "sse" || e.Cause != "stop" && e.Cause != "ctx" && e.Cause != "silent") {
			return false
		}
	}
	return true
}

func run24h(c *eng.C, s sc24h) error {
	if !s.valid() {
		return eng.Discard
	}
	return InBubble(c, func(b *B) error {
		x := &srv24h{b: b, s: s}
		none, err := NewServer(b.Ctx, signalr.HubFactory(func() signalr.HubInterface { return &hub21{} }))
		if err != nil {
			return err
		}
		base := map[string]bool{}
		w := b.Web(none, func(http.Handler) http.Handler { return x })
		tr := &http.Transport{DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) { return w.Dial(ctx) }, DisableCompression: true}
		b.Cleanup(tr.CloseIdleConnections)
		b.Wait()
		const own = "github.com/philippseith/signalr"
		for _, g := range b.Goroutines(own) {
			base[goid24(g)] = true
		}
		ctx, cancel := context.WithCancel(b.Ctx)
		b.Cleanup(cancel)
		transport := signalr.TransportWebSockets
		if s.T == "sse" {
			transport = signalr.TransportServerSentEvents
		}
		cl, err := signalr.NewClient(ctx, Quiet(nil), signalr.TransferFormat(FormatOf(s.P)), signalr.WithReceiver(&rcv21{rec: &Rec{}}),
			signalr.TimeoutInterval(6*time.Second), signalr.KeepAliveInterval(2*time.Second), signalr.HandshakeTimeout(3*time.Second),
			signalr.WithBackoff(func() backoff.BackOff { return backoff.NewConstantBackOff(40 * time.Second) }),
			signalr.WithConnector(func() (signalr.Connection, error) {
				return signalr.NewHTTPConnection(b.Ctx, w.URL, signalr.WithHTTPClient(&http.Client{Transport: tr}), signalr.WithTransports(transport), signalr.WithNegotiateVersion(s.Ver))
			}))
		if err != nil {
			return err
		}
		cl.Start()
		for i, e := range s.Ends {
			what := fmt.Sprintf("%s %s connection %d (%s)", s.T, s.P, i, e.Cause)
			cause := causes24h[e.Cause]
			c.Label(e.Cause)
			for k := 0; k < 1000 && len(x.nets()) == i; k++ {
				b.Sleep(50 * time.Millisecond)
			}
			if len(x.nets()) != i+1 {
				return eng.Errf("%s: the client does not connect", what)
			}
			n := x.nets()[i]
			for k := 0; k < 40 && len(n.got()) == 0; k++ {
				b.Sleep(50 * time.Millisecond)
			}
			if got := string(n.got()); !strings.HasPrefix(got, "{") || !strings.HasSuffix(got, "\x1e") {
				return eng.Errf("%s: the client sends the handshake %q", what, got)
			}
			off := len(n.got())
			out := func(p []byte) {
				select {
				case n.out <- p:
				case <-time.After(time.Second):
				}
			}
			msg := func(m Msg) { out(Encode(s.P, m, Style{})) }
			var pending []*Collected[signalr.InvokeResult]
			if cause.connected {
				out([]byte("{}\x1e"))
				for k := 0; k < 40 && cl.State() != signalr.ClientConnected; k++ {
					b.Sleep(50 * time.Millisecond)
				}
				if st := cl.State(); st != signalr.ClientConnected {
					return eng.Errf("%s: the client is in state %d: %v", what, st, cl.Err())
				}
				for k := 0; k < e.Work; k++ {
					c.NonTrivial()
					if k%3 == 2 {
						pending = append(pending, Collect(cl.PullStream("M", k)))
					} else {
						pending = append(pending, Collect(cl.Invoke("M", k)))
					}
				}
				if e.Part {
					p := Encode(s.P, Msg{Type: 1, Target: "Never", Args: []any{"some text"}}, Style{})
					out(p[:len(p)-3])
				}
				b.Sleep(time.Duration(e.At+10) * time.Millisecond)
			}
			if s.Deaf {
				close(n.deaf)
				if e.Cause == "silent" || !cause.connected { // takes its time
					b.Sleep(10 * time.Millisecond)
				}
			}
			switch e.Cause {
			case "close":
				msg(Msg{Type: 7})
			case "closere":
				msg(Msg{Type: 7, Reconnect: true})
			case "closeerr":
				msg(Msg{Type: 7, Error: "angry"})
			case "closeboth":
				msg(Msg{Type: 7, Error: "angry", Reconnect: true})
			case "unknown":
				msg(Msg{Type: 2, ID: "unknown", Item: 1})
			case "badid":
				msg(Msg{Type: 3, ID: "unknown", Result: 1, HasResult: true})
			case "garbage":
				if s.P == "json" {
					out([]byte("{\"type\":[}\x1e"))
				} else {
					out([]byte{1, 0xc1})
				}
			case "stop":
				go cl.Stop()
			case "ctx":
				cancel()
			case "hserr":
				out([]byte("{\"error\":\"no\"}\x1e"))
			case "hsgarbage":
				out([]byte("[[\x1e"))
			case "hspart":
				out([]byte("{"))
			}
			b.Sleep(30 * time.Second)
			if st, want := cl.State(), map[bool]signalr.ClientState{true: signalr.ClientConnecting, false: signalr.ClientClosed}[cause.again]; st != want {
				return eng.Errf("%s: the client is in state %d instead of %d afterwards (%v)", what, st, want, cl.Err())
			}
			if !s.Deaf && !n.over() {
				return eng.Errf("%s: 30 s after its end, the connection of the network is still there", what)
			}
			for k, p := range pending {
				if l, closed := p.Get(); !closed || len(l) == 0 || l[len(l)-1].Error == nil {
					return eng.Errf("%s: call %d yields %v (closed %v) after the end of its connection", what, k, l, closed)
				}
			}
			if !s.Deaf {
				ms, rest, err := DecodeAll(s.P, n.got()[off:])
				if err != nil || len(rest) > 0 {
					return eng.Errf("%s: the client has sent %q (%v)", what, clip(string(n.got()[off:])), err)
				}
				closes := 0
				for k, m := range ms {
					if m.Type == 7 {
						closes++
						if k != len(ms)-1 {
							return eng.Errf("%s: the client sends %v after its close message", what, ms[k+1:])
						}
					}
				}
				if closes > 1 || closes == 0 && cause.tell {
					return eng.Errf("%s: the client has sent %d close messages: %v", what, closes, ms)
				}
			}
			for _, g := range b.Goroutines(own) {
				// The client itself waits for its next attempt, and so does its user for the end
				if !base[goid24(g)] && !(cause.again && strings.Contains(g, "(*client).Start")) {
					return eng.Errf("%s: left over: %s", what, clip(g))
				}
			}
		}
		return nil
	})
}

func gen24h(r *eng.R) sc24h {
	for {
		s := sc24h{T: eng.Pick(r, "ws", "ws", "sse"), P: protos[r.IntN(2)], Ver: r.IntN(2), Deaf: r.P(0.15)}
		if s.T == "sse" {
			s.P, s.Deaf = "json", false
		}
		for {
			e := end24h{Cause: eng.Pick(r, "close", "closere", "closere", "closeerr", "closeboth", "closeboth", "unknown", "badid", "garbage", "silent", "stop", "ctx", "hserr", "hsgarbage", "hsnone", "hspart")}
			if r.P(0.6) {
				e.Work = r.N(1, 6)
			}
			if r.P(0.3) {
				e.At = r.N(0, 3000)
			}
			e.Part = r.P(0.2) && s.T == "ws" && (e.Cause == "stop" || e.Cause == "ctx" || e.Cause == "silent")
			s.Ends = append(s.Ends, e)
			if !causes24h[e.Cause].again || len(s.Ends) > 10 {
				break
			}
		}
		if s.valid() {
			return s
		}
	}
}
