package lib

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// Msg is a SignalR message as the reference codec sees it. Values are wire trees:
// nil, bool, int64, uint64, float64, string, []byte, []any, map[string]any, json.Number (JSON only), Ext (MessagePack only).
type Msg struct {
	Type      int
	ID        string
	HasID     bool
	Target    string
	Args      []any
	StreamIDs []string
	Item      any
	Result    any
	HasResult bool
	Error     string
	HasError  bool
	Reconnect bool
	Raw       []byte
	At        time.Time
}

// Ext is a MessagePack extension value.
type Ext struct {
	Type int8
	B    []byte
}

func (m Msg) String() string {
	switch m.Type {
	case 1, 4:
		return fmt.Sprintf("{%d id=%q target=%q args=%s streams=%v}", m.Type, m.ID, m.Target, short(m.Args), m.StreamIDs)
	case 2:
		return fmt.Sprintf("{item id=%q %s}", m.ID, short(m.Item))
	case 3:
		return fmt.Sprintf("{completion id=%q result=%s(%v) error=%q}", m.ID, short(m.Result), m.HasResult, m.Error)
	case 5:
		return fmt.Sprintf("{cancel id=%q}", m.ID)
	case 6:
		return "{ping}"
	case 7:
		return fmt.Sprintf("{close error=%q reconnect=%v}", m.Error, m.Reconnect)
	}
	return fmt.Sprintf("{type %d}", m.Type)
}

func short(v any) string {
	s := fmt.Sprintf("%v", v)
	if len(s) > 200 {
		return s[:200] + "…"
	}
	return s
}

// Style chooses between the legal encodings of a message. The zero Style is the canonical encoding.
type Style struct {
	Seed uint64 `json:",omitempty"`
}

type styler struct{ s uint64 }

func (s *styler) n(n int) int {
	if s.s == 0 {
		return 0
	}
	s.s ^= s.s << 13
	s.s ^= s.s >> 7
	s.s ^= s.s << 17
	return int((s.s >> 11) % uint64(n))
}

// Encode encodes the message in the given protocol ("json" or "messagepack") including framing.
func Encode(proto string, m Msg, st Style) []byte {
	s := &styler{st.Seed}
	if proto == "json" {
		return append(encodeJSON(m, s), 0x1e)
	}
	body := encodeMsgpack(m, s)
	var l [10]byte
	n := binary.PutUvarint(l[:], uint64(len(body)))
	return append(append([]byte{}, l[:n]...), body...)
}

// ---------- JSON ----------

func encodeJSON(m Msg, s *styler) []byte {
	type kv struct{ k, v string }
	var f []kv
	add := func(k string, v any) { f = append(f, kv{k, jsonText(v, s)}) }
	f = append(f, kv{"type", strconv.Itoa(m.Type)})
	switch m.Type {
	case 1, 4:
		if m.HasID || m.ID != "" {
			add("invocationId", m.ID)
		}
		add("target", m.Target)
		args := m.Args
		if args == nil {
			args = []any{}
		}
		add("arguments", args)
		if len(m.StreamIDs) > 0 || s.n(4) == 1 {
			l := []any{}
			for _, x := range m.StreamIDs {
				l = append(l, x)
			}
			add("streamIds", l)
		}
	case 2:
		add("invocationId", m.ID)
		add("item", m.Item)
	case 3:
		add("invocationId", m.ID)
		if m.HasResult {
			add("result", m.Result)
		}
		if m.HasError || m.Error != "" {
			add("error", m.Error)
		}
	case 5:
		add("invocationId", m.ID)
	case 7:
		if m.HasError || m.Error != "" {
			add("error", m.Error)
		}
		if m.Reconnect || s.n(2) == 1 {
			add("allowReconnect", m.Reconnect)
		}
	}
	if m.Type != 6 && m.Type != 7 && s.n(5) == 1 {
		f = append(f, kv{"headers", `{"x":"1","Trace":"ä"}`})
	}
	if s.s != 0 {
		for i := len(f) - 1; i > 0; i-- {
			j := s.n(i + 1)
			f[i], f[j] = f[j], f[i]
		}
	}
	ws := func() string { return []string{"", "", "", " ", "\n", "\t", "  ", "\r\n"}[s.n(8)] }
	var b strings.Builder
	b.WriteString(ws() + "{" + ws())
	for i, x := range f {
		if i > 0 {
			b.WriteString("," + ws())
		}
		b.WriteString(`"` + x.k + `"` + ws() + ":" + ws() + x.v + ws())
	}
	b.WriteString("}" + ws())
	return []byte(b.String())
}

func jsonText(v any, s *styler) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return strconv.FormatBool(x)
	case int64:
		return strconv.FormatInt(x, 10)
	case int:
		return strconv.Itoa(x)
	case uint64:
		return strconv.FormatUint(x, 10)
	case json.Number:
		return string(x)
	case float64:
		b, err := json.Marshal(x)
		if err != nil {
			panic(err)
		}
		if s.n(3) == 1 {
			return strconv.FormatFloat(x, 'e', -1, 64)
		}
		return string(b)
	case float32:
		return strconv.FormatFloat(float64(x), 'g', -1, 32)
	case time.Time:
		return `"` + x.Format(time.RFC3339Nano) + `"`
	case string:
		return jsonString(x, s)
	case []byte:
		return `"` + base64.StdEncoding.EncodeToString(x) + `"`
	case []any:
		var p []string
		for _, e := range x {
			p = append(p, jsonText(e, s))
		}
		return "[" + strings.Join(p, []string{",", ", ", " , ", ",\n"}[s.n(4)]) + "]"
	case map[string]any:
		var p []string
		for _, k := range keys(x) {
			p = append(p, jsonString(k, s)+":"+jsonText(x[k], s))
		}
		return "{" + strings.Join(p, []string{",", ", "}[s.n(2)]) + "}"
	}
	panic(fmt.Sprintf("jsonText %T", v))
}

func jsonString(x string, s *styler) string {
	var b strings.Builder
	b.WriteByte('"')
	mode := s.n(4)
	for _, r := range x {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r < 0x20 || (mode == 1 && r > 0x7e) || (mode == 2 && s.n(3) == 0):
			if r > 0xffff {
				r -= 0x10000
				fmt.Fprintf(&b, `\u%04x\u%04X`, 0xd800+(r>>10), 0xdc00+(r&0x3ff))
			} else {
				fmt.Fprintf(&b, `\u%04x`, r)
			}
		case mode == 3 && r == '/':
			b.WriteString(`\/`)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func keys(m map[string]any) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// DecodeError tells that bytes are not what the protocol specification demands.
type DecodeError struct{ Msg string }

func (d *DecodeError) Error() string { return d.Msg }

func bad(format string, args ...any) error { return &DecodeError{fmt.Sprintf(format, args...)} }

// DecodeAll decodes a byte stream. It returns the complete messages and the incomplete rest.
func DecodeAll(proto string, b []byte) (msgs []Msg, rest []byte, err error) {
	for len(b) > 0 {
		var frame []byte
		if proto == "json" {
			i := bytes.IndexByte(b, 0x1e)
			if i < 0 {
				return msgs, b, nil
			}
			frame, b = b[:i], b[i+1:]
			m, err := decodeJSON(frame)
			if err != nil {
				return msgs, b, err
			}
			m.Raw = frame
			msgs = append(msgs, m)
			continue
		}
		n, l := binary.Uvarint(b)
		if l == 0 {
			if len(b) >= 5 {
				return msgs, b, bad("length prefix too long: % x", b[:5])
			}
			return msgs, b, nil
		}
		if l < 0 || l > 5 || n > 1<<31 {
			return msgs, b, bad("bad length prefix % x", b[:min(len(b), 10)])
		}
		if uint64(len(b)-l) < n {
			return msgs, b, nil
		}
		frame, b = b[l:l+int(n)], b[l+int(n):]
		m, err := decodeMsgpack(frame)
		if err != nil {
			return msgs, b, err
		}
		m.Raw = frame
		msgs = append(msgs, m)
	}
	return msgs, nil, nil
}

func decodeJSON(frame []byte) (m Msg, err error) {
	if !utf8.Valid(frame) {
		return m, bad("JSON message is not UTF-8: %q", clipB(frame))
	}
	d := json.NewDecoder(bytes.NewReader(frame))
	d.UseNumber()
	var o map[string]any
	if err := d.Decode(&o); err != nil {
		return m, bad("not a JSON object: %q: %v", clipB(frame), err)
	}
	var extra any
	if err := d.Decode(&extra); err == nil {
		return m, bad("more than one JSON value in one message: %q", clipB(frame))
	}
	tn, ok := o["type"].(json.Number)
	if !ok {
		return m, bad("message without numeric type: %q", clipB(frame))
	}
	t, err := tn.Int64()
	if err != nil {
		return m, bad("type is no integer: %q", clipB(frame))
	}
	m.Type = int(t)
	str := func(k string, need bool) (string, bool) {
		v, ok := o[k]
		if !ok {
			if need {
				err = bad("missing %s: %q", k, clipB(frame))
			}
			return "", false
		}
		s, isStr := v.(string)
		if !isStr {
			err = bad("%s is no string: %q", k, clipB(frame))
		}
		return s, true
	}
	switch m.Type {
	case 1, 4:
		m.ID, m.HasID = str("invocationId", m.Type == 4)
		m.Target, _ = str("target", true)
		a, ok := o["arguments"].([]any)
		if !ok {
			return m, bad("arguments is no array: %q", clipB(frame))
		}
		m.Args = a
		if v, ok := o["streamIds"]; ok {
			l, ok := v.([]any)
			if !ok {
				return m, bad("streamIds is no array: %q", clipB(frame))
			}
			for _, x := range l {
				s, ok := x.(string)
				if !ok {
					return m, bad("stream id is no string: %q", clipB(frame))
				}
				m.StreamIDs = append(m.StreamIDs, s)
			}
		}
	case 2:
		m.ID, _ = str("invocationId", true)
		m.HasID = true
		var ok bool
		if m.Item, ok = o["item"]; !ok {
			return m, bad("stream item without item: %q", clipB(frame))
		}
	case 3:
		m.ID, _ = str("invocationId", true)
		m.HasID = true
		m.Result, m.HasResult = o["result"]
		m.Error, m.HasError = str("error", false)
		if m.HasResult && m.HasError && m.Error != "" && m.Result != nil {
			return m, bad("completion with result and error: %q", clipB(frame))
		}
	case 5:
		m.ID, _ = str("invocationId", true)
	case 6:
	case 7:
		m.Error, m.HasError = str("error", false)
		if v, ok := o["allowReconnect"]; ok {
			b, ok := v.(bool)
			if !ok {
				return m, bad("allowReconnect is no bool: %q", clipB(frame))
			}
			m.Reconnect = b
		}
	default:
		return m, bad("unknown message type %d: %q", m.Type, clipB(frame))
	}
	return m, err
}

func clipB(b []byte) []byte {
	if len(b) > 300 {
		return b[:300]
	}
	return b
}

// ---------- MessagePack ----------

type mpw struct {
	b []byte
	s *styler
}

func (w *mpw) be(code byte, n int, v uint64) {
	w.b = append(w.b, code)
	for i := n - 1; i >= 0; i-- {
		w.b = append(w.b, byte(v>>(8*i)))
	}
}

func (w *mpw) int(v int64) {
	type form struct {
		code byte
		n    int
	}
	var f []form
	if v >= -32 && v <= 127 {
		f = append(f, form{0, 0})
	}
	if v >= math.MinInt8 && v <= math.MaxInt8 {
		f = append(f, form{0xd0, 1})
	}
	if v >= 0 && v <= math.MaxUint8 {
		f = append(f, form{0xcc, 1})
	}
	if v >= 0 && v <= math.MaxUint16 {
		f = append(f, form{0xcd, 2})
	}
	if v >= math.MinInt16 && v <= math.MaxInt16 {
		f = append(f, form{0xd1, 2})
	}
	if v >= 0 && v <= math.MaxUint32 {
		f = append(f, form{0xce, 4})
	}
	if v >= math.MinInt32 && v <= math.MaxInt32 {
		f = append(f, form{0xd2, 4})
	}
	if v >= 0 {
		f = append(f, form{0xcf, 8})
	}
	f = append(f, form{0xd3, 8})
	x := f[w.s.n(len(f))]
	if x.n == 0 {
		w.b = append(w.b, byte(v))
		return
	}
	w.be(x.code, x.n, uint64(v))
}

func (w *mpw) uint(v uint64) {
	if v <= math.MaxInt64 {
		w.int(int64(v))
		return
	}
	w.be(0xcf, 8, v)
}

// sized writes a length with one of the legal codes. fix<0: there is no fix form.
func (w *mpw) sized(n int, fixBase byte, fixMax int, c8, c16, c32 byte) {
	opts := []int{}
	if n <= fixMax {
		opts = append(opts, 0)
	}
	if c8 != 0 && n <= 255 {
		opts = append(opts, 1)
	}
	if n <= 65535 {
		opts = append(opts, 2)
	}
	opts = append(opts, 3)
	switch opts[w.s.n(len(opts))] {
	case 0:
		w.b = append(w.b, fixBase|byte(n))
	case 1:
		w.be(c8, 1, uint64(n))
	case 2:
		w.be(c16, 2, uint64(n))
	case 3:
		w.be(c32, 4, uint64(n))
	}
}

func (w *mpw) str(s string) {
	w.sized(len(s), 0xa0, 31, 0xd9, 0xda, 0xdb)
	w.b = append(w.b, s...)
}

func (w *mpw) arr(n int) { w.sized(n, 0x90, 15, 0, 0xdc, 0xdd) }

func (w *mpw) val(v any) {
	switch x := v.(type) {
	case nil:
		w.b = append(w.b, 0xc0)
	case bool:
		if x {
			w.b = append(w.b, 0xc3)
		} else {
			w.b = append(w.b, 0xc2)
		}
	case int:
		w.int(int64(x))
	case int64:
		w.int(x)
	case uint64:
		w.uint(x)
	case float32:
		w.be(0xca, 4, uint64(math.Float32bits(x)))
	case float64:
		if float64(float32(x)) == x && w.s.n(2) == 1 {
			w.be(0xca, 4, uint64(math.Float32bits(float32(x))))
		} else {
			w.be(0xcb, 8, math.Float64bits(x))
		}
	case string:
		w.str(x)
	case []byte:
		w.sized(len(x), 0, -1, 0xc4, 0xc5, 0xc6)
		w.b = append(w.b, x...)
	case []any:
		w.arr(len(x))
		for _, e := range x {
			w.val(e)
		}
	case map[string]any:
		w.sized(len(x), 0x80, 15, 0, 0xde, 0xdf)
		for _, k := range keys(x) {
			w.str(k)
			w.val(x[k])
		}
	case time.Time:
		sec, ns := x.Unix(), x.Nanosecond()
		e := Ext{Type: -1}
		switch {
		case ns == 0 && sec >= 0 && sec <= math.MaxUint32 && w.s.n(3) != 1:
			e.B = binary.BigEndian.AppendUint32(nil, uint32(sec))
		case sec >= 0 && sec < 1<<34 && w.s.n(3) != 1:
			e.B = binary.BigEndian.AppendUint64(nil, uint64(ns)<<34|uint64(sec))
		default:
			e.B = binary.BigEndian.AppendUint64(binary.BigEndian.AppendUint32(nil, uint32(ns)), uint64(sec))
		}
		w.val(e)
	case Ext:
		switch len(x.B) {
		case 4:
			w.b = append(w.b, 0xd6, byte(x.Type))
		case 8:
			w.b = append(w.b, 0xd7, byte(x.Type))
		default:
			w.b = append(w.b, 0xc7, byte(len(x.B)), byte(x.Type))
		}
		w.b = append(w.b, x.B...)
	default:
		panic(fmt.Sprintf("msgpack %T", v))
	}
}

func encodeMsgpack(m Msg, s *styler) []byte {
	w := &mpw{s: s}
	hdr := func() {
		if s.n(5) == 1 {
			w.val(map[string]any{"x": "1", "Trace": "ä"})
		} else {
			w.val(map[string]any{})
		}
	}
	switch m.Type {
	case 1, 4:
		n := 6
		if len(m.StreamIDs) == 0 && s.n(3) == 1 {
			n = 5
		}
		w.arr(n)
		w.int(int64(m.Type))
		hdr()
		if m.HasID || m.ID != "" {
			w.str(m.ID)
		} else {
			w.val(nil)
		}
		w.str(m.Target)
		w.arr(len(m.Args))
		for _, a := range m.Args {
			w.val(a)
		}
		if n == 6 {
			w.arr(len(m.StreamIDs))
			for _, x := range m.StreamIDs {
				w.str(x)
			}
		}
	case 2:
		w.arr(4)
		w.int(2)
		hdr()
		w.str(m.ID)
		w.val(m.Item)
	case 3:
		kind := 2
		if m.Error != "" || m.HasError {
			kind = 1
		} else if m.HasResult {
			kind = 3
		}
		n := 5
		if kind == 2 {
			n = 4
		}
		w.arr(n)
		w.int(3)
		hdr()
		w.str(m.ID)
		w.int(int64(kind))
		if kind == 1 {
			w.str(m.Error)
		} else if kind == 3 {
			w.val(m.Result)
		}
	case 5:
		w.arr(3)
		w.int(5)
		hdr()
		w.str(m.ID)
	case 6:
		w.arr(1)
		w.int(6)
	case 7:
		// The specification has no headers in Close
		n := 3
		if !m.Reconnect && s.n(2) == 1 {
			n = 2
		}
		w.arr(n)
		w.int(7)
		if m.Error == "" && s.n(3) == 1 {
			w.val(nil)
		} else {
			w.str(m.Error)
		}
		if n == 3 {
			w.val(m.Reconnect)
		}
	default:
		w.arr(1)
		w.int(int64(m.Type))
	}
	return w.b
}

type mpr struct {
	b []byte
}

var errShort = errors.New("truncated")

func (r *mpr) take(n int) ([]byte, error) {
	if n < 0 || len(r.b) < n {
		return nil, errShort
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x, nil
}

func (r *mpr) uintN(n int) (uint64, error) {
	x, err := r.take(n)
	if err != nil {
		return 0, err
	}
	var v uint64
	for _, c := range x {
		v = v<<8 | uint64(c)
	}
	return v, nil
}

func (r *mpr) val() (any, error) {
	h, err := r.take(1)
	if err != nil {
		return nil, err
	}
	c := h[0]
	blob := func(n uint64, err error) ([]byte, error) {
		if err != nil {
			return nil, err
		}
		return r.take(int(n))
	}
	str := func(n uint64, err error) (any, error) {
		b, err := blob(n, err)
		return string(b), err
	}
	arr := func(n uint64, err error) (any, error) {
		if err != nil || n > uint64(len(r.b)) {
			return nil, errShort
		}
		l := make([]any, n)
		for i := range l {
			if l[i], err = r.val(); err != nil {
				return nil, err
			}
		}
		return l, nil
	}
	mp := func(n uint64, err error) (any, error) {
		if err != nil || n > uint64(len(r.b)) {
			return nil, errShort
		}
		m := map[string]any{}
		for i := 0; i < int(n); i++ {
			k, err := r.val()
			if err != nil {
				return nil, err
			}
			v, err := r.val()
			if err != nil {
				return nil, err
			}
			m[fmt.Sprint(k)] = v
		}
		return m, nil
	}
	ext := func(n uint64, err error) (any, error) {
		if err != nil {
			return nil, err
		}
		t, err := r.take(1)
		if err != nil {
			return nil, err
		}
		tt := int8(t[0])
		b, err := r.take(int(n))
		return Ext{tt, append([]byte{}, b...)}, err
	}
	switch {
	case c <= 0x7f:
		return int64(c), nil
	case c >= 0xe0:
		return int64(int8(c)), nil
	case c >= 0x80 && c <= 0x8f:
		return mp(uint64(c&0xf), nil)
	case c >= 0x90 && c <= 0x9f:
		return arr(uint64(c&0xf), nil)
	case c >= 0xa0 && c <= 0xbf:
		return str(uint64(c&0x1f), nil)
	}
	switch c {
	case 0xc0:
		return nil, nil
	case 0xc2:
		return false, nil
	case 0xc3:
		return true, nil
	case 0xc4, 0xc5, 0xc6:
		b, err := blob(r.uintN(1 << (c - 0xc4)))
		return append([]byte{}, b...), err
	case 0xc7, 0xc8, 0xc9:
		return ext(r.uintN(1 << (c - 0xc7)))
	case 0xca:
		v, err := r.uintN(4)
		return float64(math.Float32frombits(uint32(v))), err
	case 0xcb:
		v, err := r.uintN(8)
		return math.Float64frombits(v), err
	case 0xcc, 0xcd, 0xce, 0xcf:
		v, err := r.uintN(1 << (c - 0xcc))
		if v > math.MaxInt64 {
			return v, err
		}
		return int64(v), err
	case 0xd0:
		v, err := r.uintN(1)
		return int64(int8(v)), err
	case 0xd1:
		v, err := r.uintN(2)
		return int64(int16(v)), err
	case 0xd2:
		v, err := r.uintN(4)
		return int64(int32(v)), err
	case 0xd3:
		v, err := r.uintN(8)
		return int64(v), err
	case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
		return ext(uint64(1)<<(c-0xd4), nil)
	case 0xd9, 0xda, 0xdb:
		return str(r.uintN(1 << (c - 0xd9)))
	case 0xdc, 0xdd:
		return arr(r.uintN(2 << (c - 0xdc)))
	case 0xde, 0xdf:
		return mp(r.uintN(2 << (c - 0xde)))
	}
	return nil, fmt.Errorf("bad code %x", c)
}

func decodeMsgpack(frame []byte) (m Msg, err error) {
	r := &mpr{frame}
	v, err := r.val()
	if err != nil {
		return m, bad("no MessagePack value: %v: % x", err, clipB(frame))
	}
	if len(r.b) > 0 {
		return m, bad("%d surplus bytes in message: % x", len(r.b), clipB(frame))
	}
	a, ok := v.([]any)
	if !ok || len(a) == 0 {
		return m, bad("message is no array: % x", clipB(frame))
	}
	t, ok := a[0].(int64)
	if !ok {
		return m, bad("message type is no integer: % x", clipB(frame))
	}
	m.Type = int(t)
	if t == 6 {
		if len(a) != 1 {
			return m, bad("ping of length %d", len(a))
		}
		return m, nil
	}
	if len(a) < 2 {
		return m, bad("message too short: % x", clipB(frame))
	}
	if _, ok := a[1].(map[string]any); !ok && t != 7 {
		return m, bad("headers are no map: % x", clipB(frame))
	}
	str := func(i int) string {
		if i >= len(a) {
			err = bad("message too short: % x", clipB(frame))
			return ""
		}
		s, ok := a[i].(string)
		if !ok {
			err = bad("element %d is no string: % x", i, clipB(frame))
		}
		return s
	}
	size := func(l ...int) bool {
		for _, n := range l {
			if len(a) == n {
				return true
			}
		}
		err = bad("message of type %d has length %d: % x", t, len(a), clipB(frame))
		return false
	}
	switch t {
	case 1, 4:
		if !size(5, 6) {
			return m, err
		}
		if a[2] != nil {
			m.ID = str(2)
			m.HasID = true
		}
		m.Target = str(3)
		args, ok := a[4].([]any)
		if !ok {
			return m, bad("arguments are no array: % x", clipB(frame))
		}
		m.Args = args
		if len(a) == 6 {
			l, ok := a[5].([]any)
			if !ok {
				return m, bad("stream ids are no array: % x", clipB(frame))
			}
			for _, x := range l {
				s, ok := x.(string)
				if !ok {
					return m, bad("stream id is no string: % x", clipB(frame))
				}
				m.StreamIDs = append(m.StreamIDs, s)
			}
		}
	case 2:
		if !size(4) {
			return m, err
		}
		m.ID, m.HasID = str(2), true
		m.Item = a[3]
	case 3:
		if !size(4, 5) {
			return m, err
		}
		m.ID, m.HasID = str(2), true
		k, ok := a[3].(int64)
		if !ok {
			return m, bad("result kind is no integer: % x", clipB(frame))
		}
		switch k {
		case 1:
			if !size(5) {
				return m, err
			}
			m.Error, m.HasError = str(4), true
		case 2:
			if !size(4) {
				return m, err
			}
		case 3:
			if !size(5) {
				return m, err
			}
			m.Result, m.HasResult = a[4], true
		default:
			return m, bad("result kind %d: % x", k, clipB(frame))
		}
	case 5:
		if !size(3) {
			return m, err
		}
		m.ID = str(2)
	case 7:
		if !size(2, 3) {
			return m, err
		}
		if a[1] != nil {
			m.Error, m.HasError = str(1), true
		}
		if len(a) > 2 {
			ok := false
			if m.Reconnect, ok = a[2].(bool); !ok {
				return m, bad("allowReconnect is no bool: % x", clipB(frame))
			}
		}
	default:
		return m, bad("unknown message type %d", t)
	}
	return m, err
}

// ---------- comparison ----------

// Tree converts a Go value to a wire tree as the specification of the protocols and the json tags demand.
func Tree(v any) any { return tree(reflect.ValueOf(v)) }

func tree(v reflect.Value) any {
	if !v.IsValid() {
		return nil
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			return nil
		}
		return tree(v.Elem())
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if u := v.Uint(); u > math.MaxInt64 {
			return u
		}
		return int64(v.Uint())
	case reflect.Float32:
		return float32(v.Float())
	case reflect.Float64:
		return v.Float()
	case reflect.String:
		if n, ok := v.Interface().(json.Number); ok {
			return n
		}
		return v.String()
	case reflect.Slice:
		if v.IsNil() {
			return nil
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return append([]byte{}, v.Bytes()...)
		}
		fallthrough
	case reflect.Array:
		l := make([]any, v.Len())
		for i := range l {
			l[i] = tree(v.Index(i))
		}
		return l
	case reflect.Map:
		if v.IsNil() {
			return nil
		}
		m := map[string]any{}
		for _, k := range v.MapKeys() {
			m[fmt.Sprint(k.Interface())] = tree(v.MapIndex(k))
		}
		return m
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			return t
		}
		m := map[string]any{}
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if !f.IsExported() {
				continue
			}
			name, opt := f.Name, ""
			if tag, ok := f.Tag.Lookup("json"); ok {
				p := strings.SplitN(tag, ",", 2)
				if p[0] == "-" {
					continue
				}
				if p[0] != "" {
					name = p[0]
				}
				if len(p) > 1 {
					opt = p[1]
				}
			}
			if strings.Contains(opt, "omitempty") && v.Field(i).IsZero() {
				continue
			}
			m[name] = tree(v.Field(i))
		}
		return m
	}
	panic("tree " + v.Kind().String())
}

// num returns a number exactly.
func num(v any) (*big.Rat, bool) {
	switch x := v.(type) {
	case int64:
		return new(big.Rat).SetInt64(x), true
	case int:
		return new(big.Rat).SetInt64(int64(x)), true
	case uint64:
		return new(big.Rat).SetFrac(new(big.Int).SetUint64(x), big.NewInt(1)), true
	case float32:
		return new(big.Rat).SetFloat64(float64(x)), true
	case float64:
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return nil, false
		}
		return new(big.Rat).SetFloat64(x), true
	case json.Number:
		if strings.ContainsAny(string(x), ".eE") {
			f, err := x.Float64()
			if err != nil {
				return nil, false
			}
			return new(big.Rat).SetFloat64(f), true
		}
		r, ok := new(big.Rat).SetString(string(x))
		return r, ok
	}
	return nil, false
}

// Same compares two wire trees. lossy: integers may have gone through float64.
func Same(a, b any, lossy bool) bool {
	if a == nil || b == nil {
		return emptyBytes(a) && emptyBytes(b)
	}
	if ra, ok := num(a); ok {
		rb, ok := num(b)
		if !ok {
			return false
		}
		_, a32 := a.(float32)
		_, b32 := b.(float32)
		if a32 || b32 {
			// The shortest decimal of a float32 stands for the float32
			fa, _ := ra.Float64()
			fb, _ := rb.Float64()
			return float32(fa) == float32(fb)
		}
		if ra.Cmp(rb) == 0 {
			return true
		}
		_, a64 := a.(float64)
		_, b64 := b.(float64)
		_, aN := a.(json.Number)
		_, bN := b.(json.Number)
		if lossy || a64 && bN || b64 && aN {
			// the shortest decimal of a float64 stands for the float64
			fa, _ := ra.Float64()
			fb, _ := rb.Float64()
			return fa == fb
		}
		return false
	}
	switch x := a.(type) {
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case float64: // NaN, Inf
		y, ok := b.(float64)
		return ok && (x == y || math.IsNaN(x) && math.IsNaN(y))
	case string:
		switch y := b.(type) {
		case string:
			return x == y
		case []byte:
			return x == base64.StdEncoding.EncodeToString(y)
		case time.Time:
			return sameTime(b, a)
		}
		return false
	case []byte:
		switch y := b.(type) {
		case []byte:
			return bytes.Equal(x, y)
		case string:
			return y == base64.StdEncoding.EncodeToString(x)
		}
		return false
	case time.Time:
		return sameTime(a, b)
	case Ext:
		if _, ok := b.(time.Time); ok {
			return sameTime(b, a)
		}
		return reflect.DeepEqual(a, b)
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !Same(x[i], y[i], lossy) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			z, ok := y[k]
			if !ok || !Same(x[k], z, lossy) {
				return false
			}
		}
		return true
	}
	return false
}

func sameTime(t, w any) bool {
	a, ok := t.(time.Time)
	if !ok {
		return false
	}
	switch y := w.(type) {
	case time.Time:
		return a.Equal(y)
	case string:
		b, err := time.Parse(time.RFC3339Nano, y)
		return err == nil && a.Equal(b)
	case Ext:
		if y.Type != -1 {
			return false
		}
		var sec int64
		var ns uint32
		switch len(y.B) {
		case 4:
			sec = int64(binary.BigEndian.Uint32(y.B))
		case 8:
			v := binary.BigEndian.Uint64(y.B)
			ns, sec = uint32(v>>34), int64(v&(1<<34-1))
		case 12:
			ns, sec = binary.BigEndian.Uint32(y.B), int64(binary.BigEndian.Uint64(y.B[4:]))
		default:
			return false
		}
		return a.Equal(time.Unix(sec, int64(ns)))
	}
	return false
}

// emptyBytes tells if v is nil or an empty []byte, which are not distinguished.
func emptyBytes(v any) bool {
	if v == nil {
		return true
	}
	b, ok := v.([]byte)
	return ok && len(b) == 0
}
