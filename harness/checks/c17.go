package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// cut17 is a pause followed by N bytes of the text.
type cut17 struct {
	D int64 // ms
	N int
}

// txt17 is a handshake text and the way it is sent.
type txt17 struct {
	Raw   []byte // as sent, including the 0x1e if there is one
	Cuts  []cut17
	End   string `json:",omitempty"` // "", eof, err: what happens after the text
	EndD  int64  `json:",omitempty"`
	Stall int64  `json:",omitempty"` // ms until the peer accepts output: <0 never
	Tail  int    `json:",omitempty"` // bytes of messages sent together with the handshake (client: invocations)
}

type peer17 struct {
	At  int64
	Dup bool // has the id of the connection which is there from the start
	T   txt17
}

type sc17 struct {
	HT      int64 // ms, 0: default
	PerConn bool
	StopAt  int64 `json:",omitempty"`
	Peers   []peer17
	Yield   uint64 `json:",omitempty"`
}

// classify17 tells what a handshake request is: the name of a supported protocol, "unsup", "bad" (must not be
// admitted) or "open" (either way).
func classify17(frame []byte) (class, name string) {
	if len(frame) > 4096 {
		return "open", ""
	}
	d := json.NewDecoder(bytes.NewReader(frame))
	t, err := d.Token()
	if err != nil || t != json.Delim('{') {
		return "bad", ""
	}
	protos, versionOK, isString, exact := 0, true, true, true
	for d.More() {
		k, err := d.Token()
		if err != nil {
			return "bad", ""
		}
		key, _ := k.(string)
		var v json.RawMessage
		if d.Decode(&v) != nil {
			return "bad", ""
		}
		if strings.EqualFold(key, "protocol") {
			protos++
			if key != "protocol" {
				exact = false
			}
			if json.Unmarshal(v, &name) != nil || v[0] != '"' {
				isString = false
			}
		}
		if strings.EqualFold(key, "version") {
			var n int
			if key != "version" || json.Unmarshal(v, &n) != nil || n != 1 {
				versionOK = false
			}
		}
	}
	if t, err := d.Token(); err != nil || t != json.Delim('}') {
		return "bad", ""
	}
	if !json.Valid(frame) { // something follows
		return "bad", ""
	}
	switch {
	case protos > 1 || !exact:
		return "open", ""
	case protos == 1 && !isString:
		return "bad", ""
	case protos == 1 && (name == "json" || name == "messagepack"):
		if !versionOK || !utf8.Valid(frame) {
			return "open", ""
		}
		return name, name
	case !versionOK || !utf8.Valid(frame):
		return "bad", name
	}
	return "unsup", name
}

// times returns when the handshake text was completely sent (-1: never) and when the connection ends (-1: never).
func (t txt17) times() (frame, end int64) {
	frame, end = -1, -1
	pos := 0
	at := int64(0)
	i := bytes.IndexByte(t.Raw, 0x1e)
	step := func(n int) {
		if pos+n > len(t.Raw) {
			n = len(t.Raw) - pos
		}
		if i >= pos && i < pos+n {
			frame = at
		}
		pos += n
	}
	for _, c := range t.Cuts {
		at += c.D
		step(c.N)
	}
	step(len(t.Raw))
	if t.End != "" {
		end = at + t.EndD
	}
	return
}

func (t txt17) valid() bool {
	if t.EndD < 0 || t.Tail < 0 || len(t.Raw) > 1<<20 {
		return false
	}
	for _, c := range t.Cuts {
		if c.D < 0 || c.N < 0 {
			return false
		}
	}
	return t.End == "" || t.End == "eof" || t.End == "err"
}

// stall lets the peer of other take output after Stall only.
func (t txt17) stall(b *B, other *End) {
	if t.Stall != 0 {
		other.SetWriteCap(1)
		if t.Stall > 0 {
			go func() {
				select {
				case <-time.After(time.Duration(t.Stall) * time.Millisecond):
					other.SetWriteCap(0)
				case <-b.Ctx.Done():
				}
			}()
		}
	}
}

// play sends the text over e.
func (t txt17) play(e *End, extra []byte) {
	pos := 0
	raw := append(append([]byte{}, t.Raw...), extra...)
	for _, c := range t.Cuts {
		time.Sleep(time.Duration(c.D) * time.Millisecond)
		n := min(c.N, len(raw)-pos)
		if n > 0 {
			_, _ = e.Write(raw[pos : pos+n])
			pos += n
		}
	}
	if pos < len(raw) {
		_, _ = e.Write(raw[pos:])
	}
	if t.End != "" {
		time.Sleep(time.Duration(t.EndD) * time.Millisecond)
		if t.End == "eof" {
			e.CloseWith(nil)
		} else {
			e.CloseWith(ErrClosed)
		}
	}
}

type w17 struct {
	rec  Rec
	news atomic.Int32
}

type hub17 struct {
	signalr.Hub
	w *w17
	n int
}

func (h *hub17) OnConnected(id string)    { h.w.rec.Add("on", id) }
func (h *hub17) OnDisconnected(id string) { h.w.rec.Add("off", id) }
func (h *hub17) Echo(s string) string     { h.w.rec.Add("echo", h.ConnectionID(), s); return s }
func (h *hub17) Count() int               { h.n++; return h.n }

func run17(c *eng.C, s sc17) error {
	if s.HT < 0 || s.StopAt < 0 || len(s.Peers) == 0 {
		return eng.Discard
	}
	ht := s.HT
	if ht == 0 {
		ht = 15000
	}
	for _, p := range s.Peers {
		f, e := p.T.times()
		if p.At < 0 || !p.T.valid() || f == ht || e == ht || p.T.Stall > 0 && (p.T.Stall == ht || f >= 0 && p.T.Stall == f+ht || p.T.Stall == f) {
			return eng.Discard
		}
		i := bytes.IndexByte(p.T.Raw, 0x1e)
		if i < 0 {
			i = len(p.T.Raw)
		}
		if cl, _ := classify17(p.T.Raw[:i]); p.Dup && (cl == "json" || cl == "messagepack" || cl == "open") && f >= 0 && f < ht {
			return eng.Discard // admitted twice
		}
	}
	return InBubble(c, func(b *B) error { return exec17(c, b, s, ht) })
}

func exec17(c *eng.C, b *B, s sc17, ht int64) error {
	w := &w17{}
	var y *Yield
	if s.Yield != 0 {
		y = NewYield(s.Yield, 20)
	}
	opts := []func(signalr.Party) error{Quiet(y), signalr.TimeoutInterval(240 * time.Hour), signalr.KeepAliveInterval(100 * time.Hour)}
	if s.HT > 0 {
		opts = append(opts, signalr.HandshakeTimeout(time.Duration(s.HT)*time.Millisecond))
	}
	made := map[string]int{}
	if s.PerConn {
		opts = append(opts, signalr.PerConnectionHubFactory(func(id string) signalr.HubInterface { w.rec.Add("new", id); return &hub17{w: w} }))
	} else {
		opts = append(opts, signalr.HubFactory(func() signalr.HubInterface { return &hub17{w: w} }))
	}
	ctx, stop := b.Ctx, func() {}
	if s.StopAt > 0 {
		ctx, stop = context.WithCancel(b.Ctx)
		defer stop()
	}
	srv, err := signalr.NewServer(ctx, opts...)
	if err != nil {
		return err
	}
	owner, osv := b.Connect(srv, "owner", "json")
	count := func() error {
		if !s.PerConn {
			return nil
		}
		made["count"]++
		owner.Send(Msg{Type: 1, ID: fmt.Sprint("n", made["count"]), Target: "Count", Args: []any{}})
		b.Wait()
		ms, err := owner.New()
		if err != nil {
			return err
		}
		if len(ms) != 1 || ms[0].Error != "" || fmt.Sprint(ms[0].Result) != fmt.Sprint(made["count"]) {
			return eng.Errf("the connection which was there before lost its hub: call %d of Count is answered with %v", made["count"], ms)
		}
		return nil
	}
	if err := count(); err != nil {
		return err
	}
	type st struct {
		raw  *Raw
		srvE *End
		sv   *Served
		id   string
		t0   time.Duration
	}
	var stsMx sync.Mutex
	sts := make([]*st, len(s.Peers))
	last := int64(0)
	for i, p := range s.Peers {
		id := fmt.Sprint("p", i)
		if p.Dup {
			id = "owner"
		}
		se, ce := NewPipe(b.Ctx, id, id)
		sts[i] = &st{raw: &Raw{End: ce, Proto: "json"}, srvE: se, id: id}
		b.Cleanup(func() { ce.CloseWith(nil) })
		f, e := p.T.times()
		last = max(last, p.At+max(f, e, 0)+2*ht, p.At+max(f, e, 0)+p.T.Stall)
		go func() {
			time.Sleep(time.Duration(p.At) * time.Millisecond)
			stsMx.Lock()
			sts[i].t0 = b.Now()
			stsMx.Unlock()
			p.T.stall(b, se)
			stsMx.Lock()
			sts[i].sv = Serve(srv, se)
			stsMx.Unlock()
			p.T.play(ce, nil)
		}()
	}
	stopped := false
	if s.StopAt > 0 && s.StopAt < last {
		b.Sleep(time.Duration(s.StopAt) * time.Millisecond)
		stop()
		b.Wait()
		stopped = true
		c.Label("server stopped")
		for i, x := range sts {
			stsMx.Lock()
			sv := x.sv
			stsMx.Unlock()
			if sv != nil && !sv.Ended() {
				return eng.Errf("peer %d: Serve has not returned although the server was stopped", i)
			}
		}
	}
	b.Sleep(time.Duration(last+1) * time.Millisecond)
	admitted := map[string]string{"owner": "json"}
	maybe := map[string]bool{}
	for i, p := range s.Peers {
		x := sts[i]
		f, e := p.T.times()
		ix := bytes.IndexByte(p.T.Raw, 0x1e)
		class, name := "none", ""
		if ix >= 0 {
			class, name = classify17(p.T.Raw[:ix])
		}
		if x.sv == nil {
			return &eng.Infra{Msg: "peer did not start"}
		}
		out := x.raw.Received()
		frames := bytes.Split(out, []byte{0x1e})
		what := fmt.Sprintf("peer %d (%s, %s, frame at %d, end at %d, handshake timeout %d, stall %d)", i, x.id, class, f, e, ht, p.T.Stall)
		dur := x.sv.At.Sub(b.Start.Add(x.t0)).Milliseconds()
		if stopped {
			if !x.sv.Ended() {
				return eng.Errf("%s: Serve does not return after the server was stopped", what)
			}
			continue
		}
		incomplete := f < 0 || f > ht || e >= 0 && e < f
		gone := !incomplete && e >= 0 && (e <= f || p.T.Stall != 0 && (p.T.Stall < 0 || p.T.Stall >= e))
		switch {
		case incomplete:
			c.NonTrivial()
			limit := ht
			if e >= 0 && e < ht {
				limit = e
			}
			c.Label("incomplete")
			if !x.sv.Ended() || x.sv.Err == nil {
				return eng.Errf("%s: no complete handshake, but Serve: ended %v, error %v", what, x.sv.Ended(), x.sv.Err)
			}
			if dur > limit {
				return eng.Errf("%s: Serve returned after %d ms, should have been %d", what, dur, limit)
			}
			if ferr := onlyError17(frames); ferr != "" {
				return eng.Errf("%s: no complete handshake, but %s: %q", what, ferr, out)
			}
		case gone:
			c.Label("gone")
			if !x.sv.Ended() {
				return eng.Errf("%s: connection has gone, but Serve has not returned", what)
			}
			maybe[x.id] = true
		case class == "open":
			maybe[x.id] = true
		case p.T.Stall != 0 && (p.T.Stall < 0 || p.T.Stall > f+ht) && class != "bad":
			c.NonTrivial()
			c.Label("response stalled")
			if !x.sv.Ended() || x.sv.Err == nil {
				return eng.Errf("%s: response can not be sent, but Serve: ended %v, error %v", what, x.sv.Ended(), x.sv.Err)
			}
			if dur > f+ht {
				return eng.Errf("%s: response can not be sent, but Serve returned after %d ms", what, dur)
			}
		case class == "json" || class == "messagepack":
			c.Label("admitted")
			if len(frames) < 2 || !okResponse17(frames[0]) {
				return eng.Errf("%s: supported protocol, answer is %q", what, out)
			}
			at := int64(0)
			n := 0
			for _, ch := range x.raw.ReceivedLog() {
				n += len(ch.B)
				at = ch.At.Sub(b.Start.Add(x.t0)).Milliseconds()
				if n > len(frames[0]) {
					break
				}
			}
			if due := max(f, p.T.Stall); at > due {
				return eng.Errf("%s: answered after %d ms, should have been %d", what, at, due)
			}
			if e >= 0 { // ended after it was admitted
				if !x.sv.Ended() {
					return eng.Errf("%s: connection has ended, Serve has not", what)
				}
				admitted[x.id] = "ended"
				continue
			}
			if x.sv.Ended() {
				return eng.Errf("%s: supported protocol, but Serve has ended: %v", what, x.sv.Err)
			}
			x.raw.Proto = name
			admitted[x.id] = name
		default:
			c.NonTrivial()
			c.Label("%s", class)
			if !x.sv.Ended() || x.sv.Err == nil {
				return eng.Errf("%s: no supported protocol, but Serve: ended %v, error %v", what, x.sv.Ended(), x.sv.Err)
			}
			if limit := max(f, p.T.Stall); dur > limit && (p.T.Stall == 0 || dur > f+ht) {
				return eng.Errf("%s: no supported protocol, but Serve ended after %d ms", what, dur)
			}
			if p.T.Stall < 0 || p.T.Stall > f+ht {
				continue // the answer was cut off
			}
			if ferr := onlyError17(frames); ferr != "" || class == "unsup" && len(frames) != 2 {
				return eng.Errf("%s: no supported protocol %q, but %s: %q", what, name, ferr, out)
			}
		}
	}
	if stopped {
		return nil
	}
	// Speak the protocol
	for i := range s.Peers {
		x := sts[i]
		if p := admitted[x.id]; p == "" || p == "ended" || s.Peers[i].Dup {
			continue
		}
		if _, err := x.raw.New(); err != nil {
			return eng.Errf("peer %d: %v", i, err)
		}
		x.raw.Send(Msg{Type: 1, ID: "e", Target: "Echo", Args: []any{x.id}})
		b.Wait()
		ms, err := x.raw.New()
		if err != nil || len(ms) != 1 || ms[0].Type != 3 || ms[0].ID != "e" || fmt.Sprint(ms[0].Result) != x.id {
			return eng.Errf("peer %d: call after the handshake is answered with %v (%v), Serve ended %v %v", i, ms, err, x.sv.Ended(), x.sv.Err)
		}
	}
	if osv.Ended() {
		return eng.Errf("the connection which was there before has ended: %v", osv.Err)
	}
	if err := count(); err != nil {
		return err
	}
	// Nobody else is seen
	before := make([]int, len(sts))
	for i, x := range sts {
		before[i] = len(x.raw.Received())
	}
	srv.HubClients().All().Send("note", "all")
	srv.HubClients().Client("owner").Send("note", "own")
	b.Wait()
	ms, err := owner.New()
	if err != nil || len(ms) != 2 {
		return eng.Errf("the connection which was there before receives %v (%v) instead of two messages", ms, err)
	}
	for i, x := range sts {
		p := admitted[x.id]
		if s.Peers[i].Dup {
			p = ""
		}
		switch {
		case p == "json" || p == "messagepack":
			ms, err := x.raw.New()
			if err != nil || len(ms) != 1 || ms[0].Target != "note" {
				return eng.Errf("peer %d: receives %v (%v) instead of the broadcast", i, ms, err)
			}
		case !maybe[x.id]:
			if n := len(x.raw.Received()); n != before[i] {
				return eng.Errf("peer %d: was not admitted, but gets %q", i, x.raw.Received()[before[i]:])
			}
		}
	}
	on := map[string]int{}
	for _, call := range w.rec.Calls() {
		if admitted[call.Conn] == "" && !maybe[call.Conn] {
			return eng.Errf("hub was called for a connection which was not admitted: %v", call)
		}
		switch call.Method {
		case "on", "new":
			on[call.Method+call.Conn]++
			if on[call.Method+call.Conn] > 1 {
				return eng.Errf("hub is told twice: %v", call)
			}
		case "off":
			if call.Conn == "owner" {
				return eng.Errf("hub is told that the connection which was there before has ended")
			}
		}
	}
	for id := range admitted {
		if on["on"+id] != 1 {
			return eng.Errf("hub was not told about the admitted connection %s", id)
		}
	}
	if len(s.Peers) > 1 {
		c.NonTrivial()
	}
	return nil
}

// okResponse17 tells if a frame is an empty handshake response.
func okResponse17(f []byte) bool {
	m := map[string]json.RawMessage{}
	if !utf8.Valid(f) || json.Unmarshal(f, &m) != nil || m == nil {
		return false
	}
	return len(m) == 0
}

// onlyError17 tells what is wrong with frames which may only contain one error response or nothing.
func onlyError17(frames [][]byte) string {
	if len(frames) == 1 && len(frames[0]) == 0 {
		return ""
	}
	if len(frames) != 2 || len(frames[1]) != 0 {
		return "the answer is not one frame"
	}
	var r map[string]any
	if !utf8.Valid(frames[0]) || json.Unmarshal(frames[0], &r) != nil {
		return "the answer is malformed"
	}
	if e, _ := r["error"].(string); e == "" {
		return "the answer has no error"
	}
	return ""
}

// --- generators ---

var protoNames17 = []string{"", "JSON", "json ", " json", "Json", "messagepack2", "jso", "json\x00", "xml", "blazorpack", "a\"b", "back\\slash", "{\"x\":1}",
	"new\nline", "tab\t", "\u2028", "</script>", "ünïcödé", "\U0001F600", "%s%d%v", "%!", "null", "0", "json,messagepack", "\x1d", "\x7f"}

func genReq17(r *eng.R) []byte {
	q := func(s string) string {
		switch r.Weighted(6, 2, 1) {
		case 1: // escape some
			var sb strings.Builder
			sb.WriteByte('"')
			for _, c := range s {
				if c < 0x10000 && (r.P(0.5) || c < 0x20 || c == '"' || c == '\\') {
					fmt.Fprintf(&sb, "\\u%04x", c)
				} else {
					sb.WriteRune(c)
				}
			}
			sb.WriteByte('"')
			return sb.String()
		case 2:
			j, _ := json.Marshal(s)
			return string(j)
		}
		var bb bytes.Buffer
		e := json.NewEncoder(&bb)
		e.SetEscapeHTML(false)
		_ = e.Encode(s)
		return strings.TrimSuffix(bb.String(), "\n")
	}
	var f []string
	name := eng.Pick(r, "json", "messagepack", "json", "messagepack", eng.Pick(r, protoNames17...), GenString(r, 300))
	name = strings.ReplaceAll(strings.ToValidUTF8(name, "?"), "\x1e", "?")
	if !r.P(0.04) {
		f = append(f, `"protocol":`+q(name))
	}
	if !r.P(0.1) {
		f = append(f, `"version":`+eng.Pick(r, "1", "1", "1", "1", "1", "0", "2", "-1", "1.5", `"1"`, "null", "1e0"))
	}
	for k := r.Heavy(5); k > 0; k-- {
		f = append(f, q(eng.Pick(r, "x", "minorVersion", "error", "type", "protocols", "", "headers", "é"))+":"+
			eng.Pick(r, "1", "null", `"json"`, `{"protocol":"json"}`, `["messagepack"]`, q(strings.ReplaceAll(strings.ToValidUTF8(GenString(r, 900), "?"), "\x1e", "?")), "[[[[1]]]]", "1e400", "true"))
	}
	r.Shuffle(len(f), func(i, j int) { f[i], f[j] = f[j], f[i] })
	ws := func() string {
		return eng.Pick(r, "", "", "", "", " ", "\n", "\t \r\n", strings.Repeat(" ", r.Heavy(500)))
	}
	var sb strings.Builder
	sb.WriteString(ws() + "{" + ws())
	for i, x := range f {
		if i > 0 {
			sb.WriteString("," + ws())
		}
		sb.WriteString(x)
	}
	sb.WriteString(ws() + "}" + ws())
	return []byte(sb.String())
}

func mangle17(r *eng.R, t []byte) []byte {
	t = append([]byte{}, t...)
	for k := r.N(1, 3); k > 0; k-- {
		i := r.IntN(len(t) + 1)
		switch r.IntN(5) {
		case 0:
			t = t[:i]
		case 1:
			if i < len(t) {
				t = append(t[:i], t[i+1:]...)
			}
		case 2:
			t = append(t[:i], append([]byte{byte(r.IntN(256))}, t[i:]...)...)
		case 3:
			if i < len(t) {
				t[i] = byte(r.IntN(256))
			}
		case 4:
			t = append(t, eng.Pick(r, "}", "x", "{}", ",", "null")...)
		}
	}
	return bytes.ReplaceAll(t, []byte{0x1e}, []byte{0x1f})
}

func genTxt17(r *eng.R, ht int64, ok, bad func() []byte) txt17 {
	var t txt17
	switch r.Weighted(10, 3, 2, 2) {
	case 0:
		t.Raw = append(ok(), 0x1e)
	case 1:
		t.Raw = append(bad(), 0x1e)
	case 2: // never complete
		t.Raw = ok()
		t.Raw = t.Raw[:r.IntN(len(t.Raw)+1)]
	case 3: // large
		t.Raw = bytes.Repeat([]byte(eng.Pick(r, " ", "{", "[", "a", "\x00", "\"")), r.N(1, 1<<r.N(1, 18)))
		if r.P(0.3) {
			t.Raw = append(t.Raw, append(ok(), 0x1e)...)
		}
	}
	mode := r.IntN(4)
	left := len(t.Raw)
	for left > 0 && mode > 0 && len(t.Cuts) < 40 {
		var n int
		switch mode {
		case 1:
			n = r.N(1, 3)
		case 2:
			n = r.N(1, left)
		case 3:
			n = r.N(0, 30)
		}
		n = min(n, left)
		d := int64(0)
		switch r.IntN(6) {
		case 0:
			d = r.Int64N(ht/3 + 1)
		case 1:
			d = r.Int64N(20)
		case 2:
			d = ht * int64(r.N(1, 9)) / 10
		}
		t.Cuts = append(t.Cuts, cut17{d, n})
		left -= n
	}
	if r.P(0.2) {
		t.Cuts = append([]cut17{{eng.Pick(r, ht-1, ht+1, ht/2, 2*ht, int64(1)), 0}}, t.Cuts...)
	}
	if r.P(0.3) {
		t.End = eng.Pick(r, "eof", "err")
		t.EndD = eng.Pick(r, 0, 0, 1, r.Int64N(2*ht))
	}
	if r.P(0.12) {
		t.Stall = eng.Pick(r, int64(-1), 1, ht/2, ht-1, 3*ht)
	}
	return t
}

func gen17(r *eng.R) sc17 {
	s := sc17{PerConn: r.P(0.5)}
	ht := int64(15000)
	if !r.P(0.2) {
		s.HT = eng.Pick(r, 10, 50, 1000, int64(r.N(10, 60000)))
		ht = s.HT
	}
	for k := 1 + r.Heavy(8); k > 0; k-- {
		p := peer17{At: eng.Pick(r, 0, 0, 1, r.Int64N(2*ht)), Dup: r.P(0.25)}
		p.T = genTxt17(r, ht, func() []byte {
			if p.Dup {
				for {
					q := genReq17(r)
					if cl, _ := classify17(q); cl == "unsup" || cl == "bad" {
						return q
					}
				}
			}
			return genReq17(r)
		}, func() []byte {
			if r.P(0.3) {
				return eng.Pick(r, []byte(""), []byte("null"), []byte("[]"), []byte("1"), []byte(`"json"`), []byte("{}"), []byte("\xff\xfe"), []byte("GET / HTTP/1.1\r\n"),
					[]byte(`{"protocol":1}`), []byte(`{"protocol":null,"version":1}`), []byte(`{"protocol":["json"],"version":1}`), []byte(`{"type":6}`))
			}
			return mangle17(r, genReq17(r))
		})
		s.Peers = append(s.Peers, p)
	}
	if r.P(0.1) {
		s.StopAt = 1 + r.Int64N(2*ht)
	}
	if r.P(0.3) {
		s.Yield = r.Uint64() | 1
	}
	return s
}

// --- client ---

type sc17c struct {
	Proto string
	HT    int64
	T     txt17
	Calls []int64 `json:",omitempty"` // when calls are made, before the outcome or after
	Stop  int64   `json:",omitempty"`
	How   string  `json:",omitempty"`
	Yield uint64  `json:",omitempty"`
}

// classify17c tells what a handshake response is: "ok", "error" with its text, "bad" or "open".
func classify17c(f []byte) (class, text string) {
	if len(f) > 4096 {
		return "open", ""
	}
	m := map[string]json.RawMessage{}
	if json.Unmarshal(f, &m) != nil {
		return "bad", ""
	}
	if m == nil || !utf8.Valid(f) {
		return "open", ""
	}
	n := 0
	for k := range m {
		if strings.EqualFold(k, "error") {
			n++
		}
	}
	// the keys of objects with the same key twice are not in m twice
	if n > 1 || bytes.Count(bytes.ToLower(f), []byte("error\"")) > 1 || bytes.Contains(f, []byte("\\u")) && n == 0 {
		return "open", ""
	}
	if n == 0 {
		if _, ok := m["type"]; ok {
			return "open", ""
		}
		return "ok", ""
	}
	v, ok := m["error"]
	if !ok {
		return "open", ""
	}
	if json.Unmarshal(v, &text) != nil {
		return "bad", ""
	}
	if text == "" {
		return "open", ""
	}
	return "error", text
}

type rcv17 struct {
	signalr.Receiver
	got *atomic.Int32
}

func (h *rcv17) Note(string) { h.got.Add(1) }

func run17c(c *eng.C, s sc17c) error {
	f, e := s.T.times()
	if s.HT < 1 || s.Proto != "json" && s.Proto != "messagepack" || !s.T.valid() || s.Stop < 0 || s.Stop > 0 && s.How != "stop" && s.How != "cancel" || s.T.Tail > 5 {
		return eng.Discard
	}
	w := max(s.T.Stall, 0) // when the request has been written
	for _, t := range append([]int64{s.Stop, w}, s.Calls...) {
		if t < 0 || t != 0 && (t == f || t == e || t == s.HT || t == w+s.HT) {
			return eng.Discard
		}
	}
	for _, t := range s.Calls {
		if t == s.Stop {
			return eng.Discard
		}
	}
	if f == w+s.HT || e == w+s.HT {
		return eng.Discard
	}
	return InBubble(c, func(b *B) error { return exec17c(c, b, s, f, e, w) })
}

func exec17c(c *eng.C, b *B, s sc17c, f, e, w int64) error {
	srvE, cliE := NewPipe(b.Ctx, "c1", "c1")
	raw := &Raw{End: srvE, Proto: s.Proto}
	b.Cleanup(func() { srvE.CloseWith(nil) })
	var y *Yield
	if s.Yield != 0 {
		y = NewYield(s.Yield, 20)
	}
	var got atomic.Int32
	ctx, cancel := context.WithCancel(b.Ctx)
	defer cancel()
	cl, err := signalr.NewClient(ctx, Quiet(y), signalr.WithConnection(cliE), signalr.TransferFormat(FormatOf(s.Proto)),
		signalr.HandshakeTimeout(time.Duration(s.HT)*time.Millisecond), signalr.TimeoutInterval(240*time.Hour), signalr.KeepAliveInterval(100*time.Hour),
		signalr.WithReceiver(&rcv17{got: &got}))
	if err != nil {
		return err
	}
	i := bytes.IndexByte(s.T.Raw, 0x1e)
	class, text := "none", ""
	if i >= 0 {
		class, text = classify17c(s.T.Raw[:i])
	}
	// What has to happen, and when
	end := int64(-1) // when the client is closed
	conn := int64(-1)
	open := false
	switch {
	case s.T.Stall < 0 || s.T.Stall > s.HT: // request can not be written
		end = s.HT
		if e >= 0 && e < end {
			end = e
		}
	case e >= 0 && e <= w:
		end = e
		open = e == w
	case f < 0 || f > w+s.HT || e >= 0 && e < f:
		end = w + s.HT
		if e >= 0 {
			end = min(end, max(e, w))
		}
		if f < 0 && len(s.T.Raw) > 4096 {
			open = true // may give up before
		}
	case class == "ok":
		conn = max(f, w)
		end = e
		if e >= 0 && e <= conn {
			open = true
		}
	case class == "open":
		open = true
	default:
		end = max(f, w)
	}
	if len(s.T.Raw) > 4096 && conn < 0 {
		open = true
	}
	c.Label("%s", class)
	if s.Stop > 0 && (end < 0 || s.Stop < end) {
		c.Label("stopped before")
		end = s.Stop
		if conn > s.Stop {
			conn = -1
		}
	}
	if class == "error" && conn < 0 || end >= 0 && end == w+s.HT {
		c.NonTrivial()
	}
	var extra []byte
	if class == "ok" {
		for range s.T.Tail {
			extra = append(extra, Encode(s.Proto, Msg{Type: 1, Target: "note", Args: []any{"x"}}, Style{})...)
		}
	}
	// events in time
	type evt struct {
		at int64
		k  string
		n  int
	}
	var evs []evt
	for n, t := range s.Calls {
		evs = append(evs, evt{t, "call", n})
	}
	if s.Stop > 0 {
		evs = append(evs, evt{s.Stop, "stop", 0})
	}
	for _, t := range []int64{end, conn} {
		if t >= 0 {
			evs = append(evs, evt{t, "look", 0})
			if t > 0 {
				evs = append(evs, evt{t - 1, "look", 0})
			}
		}
	}
	last := int64(0)
	for _, ev := range evs {
		last = max(last, ev.at)
	}
	evs = append(evs, evt{max(last, f, e) + 2*s.HT + w + 1, "look", 0})
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
	s.T.stall(b, cliE)
	cl.Start()
	go s.T.play(srvE, extra)
	type call struct {
		at  int64
		col *Collected[signalr.InvokeResult]
	}
	var calls []call
	stopRet := make(chan struct{})
	look := func(now int64) error {
		b.Wait()
		st := cl.State()
		what := fmt.Sprintf("at %d ms (response %s at %d, end %d, request accepted %d, handshake timeout %d, stop %d)", now, class, f, e, s.T.Stall, s.HT, s.Stop)
		switch {
		case open:
			if end >= 0 && now >= end && st != signalr.ClientClosed && class != "open" {
				return eng.Errf("%s: the client should be closed, state %d", what, st)
			}
		case end >= 0 && now >= end:
			if st != signalr.ClientClosed {
				return eng.Errf("%s: the client should be closed, state %d, err %v", what, st, cl.Err())
			}
			if conn < 0 && cl.Err() == nil {
				return eng.Errf("%s: client closed without being connected, but Err is nil", what)
			}
			if class == "error" && s.T.Stall >= 0 && s.T.Stall <= s.HT && conn < 0 && end == max(f, w) && s.Stop != end && !strings.Contains(cl.Err().Error(), text) {
				return eng.Errf("%s: the server's error is %q, Err is %q", what, text, cl.Err())
			}
		case conn >= 0 && now >= conn:
			if st != signalr.ClientConnected {
				return eng.Errf("%s: the client should be connected, state %d, err %v", what, st, cl.Err())
			}
		default:
			if st != signalr.ClientConnecting {
				return eng.Errf("%s: the client should be connecting, state %d, err %v", what, st, cl.Err())
			}
			if n := bytes.Count(raw.Received(), []byte{0x1e}); n > 1 || n == 1 && raw.Received()[len(raw.Received())-1] != 0x1e {
				return eng.Errf("%s: the client sends something before the handshake is done: %q", what, raw.Received())
			}
		}
		return nil
	}
	for _, ev := range evs {
		if d := time.Duration(ev.at)*time.Millisecond - b.Now(); d > 0 {
			b.Sleep(d)
		}
		b.Wait()
		switch ev.k {
		case "call":
			calls = append(calls, call{ev.at, Collect(cl.Invoke("Echo", fmt.Sprint("v", ev.n)))})
			b.Wait()
		case "stop":
			go func() {
				if s.How == "stop" {
					cl.Stop()
				} else {
					cancel()
				}
				close(stopRet)
			}()
			b.Wait()
			select {
			case <-stopRet:
			default:
				return eng.Errf("Stop does not return while the handshake is running")
			}
		}
		if err := look(ev.at); err != nil {
			return err
		}
		// the server answers calls
		if conn >= 0 && !open && ev.at >= conn && (end < 0 || ev.at < end) {
			ms, err := raw.New()
			if err != nil {
				return err
			}
			for _, m := range ms {
				if m.Type == 1 {
					raw.Send(Msg{Type: 3, ID: m.ID, HasResult: true, Result: m.Args[0]})
				}
			}
			b.Wait()
		}
	}
	// request
	if s.T.Stall >= 0 && !open && (e < 0 || e > w) && (s.Stop == 0 || s.Stop > w) && s.T.Stall <= s.HT {
		fr, ok := raw.HandshakeFrame()
		var req map[string]any
		if !ok || json.Unmarshal([]byte(fr), &req) != nil || req["protocol"] != s.Proto || req["version"] != float64(1) {
			return eng.Errf("the handshake request is %q", fr)
		}
	}
	if open {
		return nil
	}
	for i, cc := range calls {
		items, closed := cc.col.Get()
		what := fmt.Sprintf("call %d made at %d (connected at %d, ended at %d)", i, cc.at, conn, end)
		if !closed {
			return eng.Errf("%s does not end", what)
		}
		alive := conn >= 0 && (end < 0 || cc.at < end) && (cc.at != end)
		if alive {
			if end >= 0 && end <= conn { // no time to answer
				continue
			}
			c.NonTrivial()
			if len(items) != 1 || items[0].Error != nil {
				return eng.Errf("%s fails: %v", what, items)
			}
		} else if len(items) != 1 || items[0].Error == nil {
			return eng.Errf("%s was never possible, but ends with %v", what, items)
		}
	}
	if conn >= 0 && got.Load() != int32(s.T.Tail) && (end < 0 || end > conn) {
		return eng.Errf("%d of %d messages sent together with the handshake response arrived", got.Load(), s.T.Tail)
	}
	return nil
}

func genResp17(r *eng.R) []byte {
	str := func() string {
		s := eng.Pick(r, "no", "protocol x not supported", eng.Pick(r, protoNames17...), GenString(r, 200))
		j, _ := json.Marshal(strings.ReplaceAll(strings.ToValidUTF8(s, "?"), "\x1e", "?"))
		return string(j)
	}
	ws := eng.Pick(r, "", "", "", " ", "\r\n")
	switch r.Weighted(6, 4, 2) {
	case 0:
		return []byte(ws + "{" + ws + "}" + ws)
	case 1:
		return []byte(ws + `{"error":` + str() + "}" + ws)
	}
	f := []string{`"minorVersion":0`, `"x":[1,{"error":"y"}]`, `"z":` + str(), `"error":` + str(), `"n":null`}
	r.Shuffle(len(f), func(i, j int) { f[i], f[j] = f[j], f[i] })
	return []byte("{" + strings.Join(f[:r.N(1, 4)], ","+ws) + "}")
}

func gen17c(r *eng.R) sc17c {
	s := sc17c{Proto: protos[r.IntN(2)], HT: eng.Pick(r, 10, 1000, 15000, int64(r.N(10, 60000)))}
	s.T = genTxt17(r, s.HT, func() []byte { return genResp17(r) }, func() []byte {
		if r.P(0.4) {
			return eng.Pick(r, []byte(""), []byte("[]"), []byte("1"), []byte(`{"error":1}`), []byte("HTTP/1.1 400 Bad Request\r\n\r\n"), []byte("\xff"), []byte(`{"error":"a"`))
		}
		return mangle17(r, genResp17(r))
	})
	if r.P(0.5) {
		s.T.Tail = r.N(0, 4)
	}
	for k := r.Heavy(4); k > 0; k-- {
		s.Calls = append(s.Calls, r.Int64N(2*s.HT))
	}
	if r.P(0.25) {
		s.Stop, s.How = 1+r.Int64N(2*s.HT), eng.Pick(r, "stop", "cancel")
	}
	if r.P(0.3) {
		s.Yield = r.Uint64() | 1
	}
	return s
}

func init() {
	eng.Register(&eng.Check{
		ID:   "C17",
		Rule: "a case is non-trivial when a handshake had to be refused, did not come to an end, or several connections shook hands at the same time (server), when the server refused, the timeout had to end it or calls had to wait for the outcome (client)",
		Families: []eng.Family{
			eng.Fam("server", 12000, 120000, gen17, run17),
			eng.Fam("client", 15000, 120000, gen17c, run17c),
		},
	})
}
