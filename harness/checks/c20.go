package checks

import (
	"encoding/json"
	"fmt"
	"net/http"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/coder/websocket"
	"github.com/philippseith/signalr"

	"verif/harness/eng"
	. "verif/harness/lib"
)

// srv20 is one server and its options.
type srv20 struct {
	Patterns []string `json:",omitempty"`
	Skip     []bool   `json:",omitempty"` // InsecureSkipVerify options, in this order
	Late     bool     `json:",omitempty"` // InsecureSkipVerify after AllowOriginPatterns
	Before   []string `json:",omitempty"` // AllowOriginPatterns which is replaced by the one with Patterns
}

// org20 is an Origin header.
type org20 struct {
	Raw    string `json:",omitempty"` // "bad:..." can not be parsed, "none:..." has no host
	Scheme string `json:",omitempty"`
	User   string `json:",omitempty"`
	Host   string `json:",omitempty"`
	Path   string `json:",omitempty"`
}

type req20 struct {
	Srv    int
	Path   int    `json:",omitempty"`
	Host   string `json:",omitempty"` // "": test.local
	Origin *org20 `json:",omitempty"`
	ID     string `json:",omitempty"` // "", v0, v1: negotiates first
	Retry  bool   `json:",omitempty"` // when refused, connects without an Origin with the same id
	Ext    bool   `json:",omitempty"` // offers compression
	Other  http.Header
}

type sc20 struct {
	Servers []srv20
	Batches [][]req20
	Yield   uint64 `json:",omitempty"`
}

// glob20 is a model of the patterns: * any sequence without /, ? one character but /, [...] classes, \ escapes.
func glob20(p, s string) (match, bad bool) {
	if p == "" {
		return s == "", false
	}
	switch p[0] {
	case '*':
		for i := 0; ; i++ {
			m, b := glob20(p[1:], s[i:])
			if m || b {
				return m, b
			}
			if i == len(s) || s[i] == '/' {
				return false, false
			}
		}
	case '?':
		if s == "" || s[0] == '/' {
			return false, false
		}
		return glob20(p[1:], s[1:])
	case '[':
		i := 1
		neg := false
		if i < len(p) && p[i] == '^' {
			neg = true
			i++
		}
		in, any := false, false
		one := func() (byte, bool) {
			if i >= len(p) || p[i] == '-' || p[i] == ']' {
				return 0, false
			}
			if p[i] == '\\' {
				i++
			}
			if i >= len(p) {
				return 0, false
			}
			i++
			return p[i-1], true
		}
		for {
			if i < len(p) && p[i] == ']' && any {
				i++
				break
			}
			lo, ok := one()
			if !ok {
				return false, true
			}
			hi := lo
			if i < len(p) && p[i] == '-' {
				i++
				if hi, ok = one(); !ok {
					return false, true
				}
			}
			any = true
			if s != "" && lo <= s[0] && s[0] <= hi {
				in = true
			}
		}
		if s == "" || in == neg {
			return false, false
		}
		return glob20(p[i:], s[1:])
	case '\\':
		if len(p) == 1 {
			return false, true
		}
		p = p[1:]
	}
	if s == "" || s[0] != p[0] {
		return false, false
	}
	return glob20(p[1:], s[1:])
}

// malformed20 reports if p might be malformed.
func malformed20(p string) bool {
	open := false
	for i := 0; i < len(p); i++ {
		switch p[i] {
		case '\\':
			i++
			if i == len(p) {
				return true
			}
		case '[':
			if open {
				continue
			}
			open = true
			if i+1 < len(p) && p[i+1] == '^' {
				i++
			}
			if i+1 < len(p) && (p[i+1] == ']' || p[i+1] == '-') {
				return true
			}
		case ']':
			open = false
		case '-':
			if open && i+1 < len(p) && (p[i+1] == ']' || p[i+1] == '-') {
				return true
			}
		}
	}
	return open
}

func (o *org20) text() string {
	if o.Raw != "" {
		return o.Raw[strings.Index(o.Raw, ":")+1:]
	}
	s := o.Scheme + "://"
	if o.User != "" {
		s += o.User + "@"
	}
	return s + o.Host + o.Path
}

var (
	host20   = regexp.MustCompile(`^([A-Za-z0-9._-]{1,60}|\[[0-9a-f:]{2,30}\])(:[0-9]{1,5})?$`)
	scheme20 = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9+.-]{0,20}$`)
	user20   = regexp.MustCompile(`^[A-Za-z0-9._:-]{0,60}$`)
	path20   = regexp.MustCompile(`^(|[/?#][A-Za-z0-9._/=&-]*)$`)
	bad20    = []string{"bad:http://[::1", "bad:%zz", "bad:http://a%zz.com", "bad:http://good.com:port", "bad::", "bad:http://go od.com"}
	none20   = []string{"none:null", "none:file://", "none:/good.com", "none:good.com", "none://", "none:*", "none:http:good.com", "none:http:///good.com", "none:data:good.com"}
)

func (o *org20) valid() bool {
	if o.Raw != "" {
		for _, l := range [][]string{bad20, none20} {
			for _, r := range l {
				if r == o.Raw {
					return true
				}
			}
		}
		return false
	}
	return host20.MatchString(o.Host) && scheme20.MatchString(o.Scheme) && user20.MatchString(o.User) && path20.MatchString(o.Path)
}

func lower20(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// decide20 is the model: yes, no or maybe.
func decide20(s srv20, host string, o *org20) string {
	if len(s.Skip) > 0 && s.Skip[len(s.Skip)-1] {
		return "yes"
	}
	if o == nil {
		return "yes"
	}
	if strings.HasPrefix(o.Raw, "bad:") {
		return "no"
	}
	oh, sch := lower20(o.Host), lower20(o.Scheme)
	if o.Raw != "" {
		sch = "none"
	} else {
		if oh == lower20(host) {
			return "yes"
		}
		def := ":80"
		if sch == "https" || sch == "wss" {
			def = ":443"
		}
		if strings.TrimSuffix(oh, def) == strings.TrimSuffix(lower20(host), def) {
			return "maybe"
		}
	}
	bad := false
	for _, p := range s.Patterns {
		bad = bad || malformed20(p)
	}
	for _, p := range s.Patterns {
		for _, sch := range []string{sch, "", "file", "http", "data"} {
			t := oh
			if strings.Contains(p, "://") {
				t = sch + "://" + oh
			}
			if m, _ := glob20(lower20(p), t); m {
				if bad || o.Raw != "" {
					return "maybe"
				}
				return "yes"
			}
			if o.Raw == "" {
				break
			}
		}
	}
	return "no"
}

type out20 struct {
	r      req20
	host   string
	key    string
	ws     *WS
	status int
	err    error
}

func run20(c *eng.C, s sc20) error {
	if len(s.Servers) == 0 || len(s.Servers) > 5 || len(s.Batches) > 60 {
		return eng.Discard
	}
	for _, v := range s.Servers {
		for _, p := range append(v.Before[:len(v.Before):len(v.Before)], v.Patterns...) {
			if len(p) > 200 {
				return eng.Discard
			}
		}
	}
	for _, bt := range s.Batches {
		if len(bt) > 20 {
			return eng.Discard
		}
		for _, q := range bt {
			if q.Srv < 0 || q.Srv >= len(s.Servers) || q.Path < 0 || q.Path > 1 || q.Host != "" && !host20.MatchString(q.Host) || q.Origin != nil && !q.Origin.valid() ||
				q.ID != "" && q.ID != "v0" && q.ID != "v1" || len(q.Other) > 20 {
				return eng.Discard
			}
		}
	}
	return InBubble(c, func(b *B) error {
		var y *Yield
		if s.Yield != 0 {
			y = NewYield(s.Yield, 20)
		}
		var webs []*Web
		var hubs []*w17
		for _, v := range s.Servers {
			w := &w17{}
			opts := []func(signalr.Party) error{Quiet(y), signalr.TimeoutInterval(100000 * time.Hour), signalr.KeepAliveInterval(50000 * time.Hour),
				signalr.HandshakeTimeout(10000 * time.Hour), signalr.MaxNegotiationConnections(0),
				signalr.HubFactory(func() signalr.HubInterface { return &hub17{w: w} })}
			skip := func() {
				for _, k := range v.Skip {
					opts = append(opts, signalr.InsecureSkipVerify(k))
				}
			}
			if !v.Late {
				skip()
			}
			if v.Patterns != nil {
				if v.Before != nil {
					opts = append(opts, signalr.AllowOriginPatterns(v.Before))
				}
				opts = append(opts, signalr.AllowOriginPatterns(append(make([]string, 0, len(v.Patterns)+4), v.Patterns...)))
			}
			if v.Late {
				skip()
			}
			srv, err := signalr.NewServer(b.Ctx, opts...)
			if err != nil {
				return err
			}
			webs = append(webs, b.Web(srv, func(h http.Handler) http.Handler {
				srv.MapHTTP(signalr.WithHTTPServeMux(h.(*http.ServeMux)), "/other/hub")
				return h
			}))
			hubs = append(hubs, w)
		}
		yes, no := 0, 0
		on := make([]int, len(webs))
		for bi, bt := range s.Batches {
			outs := make([]*out20, len(bt))
			var wg sync.WaitGroup
			for i, q := range bt {
				u := &out20{r: q, host: q.Host}
				if u.host == "" {
					u.host = "test.local"
				}
				outs[i] = u
				wg.Add(1)
				go func() { defer wg.Done(); u.dial(b, webs[q.Srv]) }()
			}
			wg.Wait()
			b.Wait()
			for i, u := range outs {
				org := "without Origin"
				if u.r.Origin != nil {
					org = fmt.Sprintf("Origin %q", u.r.Origin.text())
				}
				v := s.Servers[u.r.Srv]
				what := fmt.Sprintf("batch %d, request %d: %s, Host %q (patterns %q, skip %v)", bi, i, org, u.host, v.Patterns, v.Skip)
				if _, ok := u.err.(*eng.Infra); ok {
					return u.err
				}
				d := decide20(v, u.host, u.r.Origin)
				c.Label("%s: %s", d, u.class(v))
				if d == "maybe" {
					if u.ws != nil {
						if err := u.use(b, hubs[u.r.Srv]); err != nil {
							return eng.Errf("%s: %v", what, err)
						}
						on[u.r.Srv]++
					}
					continue
				}
				if d == "yes" {
					yes++
					if u.ws == nil {
						return eng.Errf("%s: must be accepted, but is refused: status %d, %v", what, u.status, u.err)
					}
					if err := u.use(b, hubs[u.r.Srv]); err != nil {
						return eng.Errf("%s: must be accepted, but: %v", what, err)
					}
					on[u.r.Srv]++
					continue
				}
				no++
				if u.ws != nil {
					return eng.Errf("%s: must be refused, but is accepted", what)
				}
				if u.status < 400 {
					return eng.Errf("%s: refused without an error status: %d", what, u.status)
				}
				if u.r.Retry {
					v := *u
					v.r.Origin = nil
					v.dial(b, webs[u.r.Srv])
					if v.ws == nil {
						return eng.Errf("%s: after it was refused, the same request without an Origin is refused, too: status %d, %v", what, v.status, v.err)
					}
					if err := v.use(b, hubs[u.r.Srv]); err != nil {
						return eng.Errf("%s: after it was refused, the same request without an Origin: %v", what, err)
					}
					on[u.r.Srv]++
				}
			}
			for i, h := range hubs {
				n := 0
				for _, call := range h.rec.Calls() {
					if call.Method == "on" {
						n++
					}
				}
				if n != on[i] {
					return eng.Errf("batch %d: server %d was told about %d connections, but %d were accepted", bi, i, n, on[i])
				}
			}
		}
		if yes > 0 && no > 0 {
			c.NonTrivial()
		}
		return nil
	})
}

func (u *out20) class(v srv20) string {
	switch {
	case len(v.Skip) > 0 && v.Skip[len(v.Skip)-1]:
		return "unchecked"
	case u.r.Origin == nil:
		return "no origin"
	case u.r.Origin.Raw != "":
		return "strange origin"
	case strings.EqualFold(u.r.Origin.Host, u.host):
		return "own host"
	case len(v.Patterns) > 0:
		return "patterns"
	}
	return "no patterns"
}

// dial makes the requests.
func (u *out20) dial(b *B, w *Web) {
	path := []string{"/hub", "/other/hub"}[u.r.Path]
	q := ""
	if u.r.ID != "" {
		if u.key == "" {
			st, body, _, err := w.Request(b.Ctx, "POST", path+"/negotiate?negotiateVersion="+u.r.ID[1:], nil, nil)
			var n struct{ ConnectionID, ConnectionToken string }
			if err != nil || st != 200 || json.Unmarshal(body, &n) != nil {
				u.err = &eng.Infra{Msg: fmt.Sprintf("negotiation fails: %d %v %s", st, err, body)}
				return
			}
			u.key = n.ConnectionID
			if u.r.ID == "v1" {
				u.key = n.ConnectionToken
			}
		}
		q = esc19(u.key)
	}
	h := http.Header{}
	for k, v := range u.r.Other {
		switch k {
		case "Cookie", "Referer", "X-Forwarded-Host", "X-Forwarded-For", "Sec-Fetch-Site", "Authorization", "Forwarded", "X-Original-Host", "Sec-Websocket-Origin", "X-Forwarded-Proto":
			h[k] = v
		}
	}
	if u.r.Origin != nil {
		h.Set("Origin", u.r.Origin.text())
	}
	mode := websocket.CompressionDisabled
	if u.r.Ext {
		mode = websocket.CompressionContextTakeover
	}
	u.ws, u.status, u.err = w.DialWSPath(b.Ctx, path, q, u.host, h, mode)
}

// use shakes hands and calls a method.
func (u *out20) use(b *B, w *w17) error {
	write := func(p []byte) error { return u.ws.Conn.Write(b.Ctx, websocket.MessageText, p) }
	if err := write(Handshake("json")); err != nil {
		return eng.Errf("can not send the handshake: %v", err)
	}
	if err := write(Encode("json", Msg{Type: 1, ID: "7", Target: "Echo", Args: []any{"x"}}, Style{})); err != nil {
		return eng.Errf("can not send an invocation: %v", err)
	}
	b.Wait()
	p, err := u.ws.Got()
	if err != nil || !strings.HasPrefix(string(p), "{}\x1e") {
		return eng.Errf("the handshake is answered with %q (%v)", p, err)
	}
	ms, rest, err := DecodeAll("json", p[3:])
	if err != nil || len(rest) > 0 || len(ms) != 1 || ms[0].Type != 3 || ms[0].ID != "7" || ms[0].Result != "x" {
		return eng.Errf("a call is answered with %q", p[3:])
	}
	return nil
}

var hosts20 = []string{"good.com", "www.good.com", "evil.com", "good.com.evil.com", "evilgood.com", "good.org", "a.b.good.com", "localhost", "10.0.0.1", "test.local", "goodXcom", "good-com", "g00d.com", "x.test.local"}

func case20(r *eng.R, s string) string {
	switch r.Weighted(5, 1, 1) {
	case 1:
		return strings.ToUpper(s)
	case 2:
		b := []byte(s)
		for i := range b {
			if r.P(0.3) && b[i] >= 'a' && b[i] <= 'z' {
				b[i] -= 32
			}
		}
		return string(b)
	}
	return s
}

func genHost20(r *eng.R, base []string) string {
	h := base[r.IntN(len(base))]
	switch r.Weighted(20, 2, 2, 2, 1, 1) {
	case 1:
		h = Pick20(r, "www.", "x", "a.b.", ".", "-") + h
	case 2:
		h += Pick20(r, ".evil.com", "x", ".", ".org")
	case 3:
		i := r.IntN(len(h))
		h = h[:i] + string("ax.09-"[r.IntN(6)]) + h[i+1:]
	case 4:
		h = "[::1]"
	case 5:
		if i := strings.Index(h, "."); i > 0 {
			h = h[i+1:]
		}
	}
	if h == "" || h[0] != '[' && strings.ContainsAny(h, "[]") {
		h = "good.com"
	}
	if r.P(0.2) && !strings.Contains(h, ":8") {
		h += Pick20(r, ":8080", ":80", ":443", ":8443", ":1")
	}
	return case20(r, h)
}

func Pick20(r *eng.R, l ...string) string { return l[r.IntN(len(l))] }

func genPattern20(r *eng.R, base []string) string {
	h := lower20(genHost20(r, base))
	if strings.HasPrefix(h, "[") {
		h = strings.NewReplacer("[", `\[`, "]", `\]`).Replace(h)
	} else {
		for k := r.N(0, 2); k > 0; k-- {
			l := strings.Split(h, ".")
			i := r.IntN(len(l))
			switch r.Weighted(6, 2, 2, 1, 1) {
			case 0:
				l[i] = "*"
			case 1:
				if len(l[i]) > 0 {
					j := r.IntN(len(l[i]))
					l[i] = l[i][:j] + "*" + l[i][j+r.IntN(2):]
				}
			case 2:
				if len(l[i]) > 0 {
					j := r.IntN(len(l[i]))
					l[i] = l[i][:j] + "?" + l[i][j+1:]
				}
			case 3:
				if len(l[i]) > 0 && !strings.ContainsAny(l[i], `[]\`) {
					j := r.IntN(len(l[i]))
					l[i] = l[i][:j] + Pick20(r, "[a-z]", "[^a-f]", "[0-9o]", "[G-O]", "["+l[i][j:j+1]+"]", "[a") + l[i][j+1:]
				}
			case 4:
				if len(l[i]) > 0 && !strings.ContainsAny(l[i], `[]\`) {
					j := r.IntN(len(l[i]))
					l[i] = l[i][:j] + `\` + l[i][j:]
				}
			}
			h = strings.Join(l, ".")
		}
	}
	switch r.Weighted(12, 3, 1, 1) {
	case 1:
		h = Pick20(r, "http", "https", "*", "http*", "HTTPS", "ht?p", "chrome-extension") + "://" + h
	case 2:
		h = Pick20(r, "*", "", "*:*", "*.com", "*://*", "https://*", "[", "null", "*.*", "good.com/*", "*good*")
	case 3:
		h += Pick20(r, ":*", ":8080", ":[0-9]*", ":????", "/", "*")
	}
	return case20(r, h)
}

func gen20(r *eng.R) sc20 {
	s := sc20{}
	// few hosts, so that the requests are related
	base := make([]string, r.N(1, 4))
	for i := range base {
		base[i] = hosts20[r.IntN(len(hosts20))]
	}
	for i := r.Weighted(0, 6, 3, 1); i > 0; i-- {
		v := srv20{Late: r.P(0.5)}
		if r.P(0.85) {
			for k := r.Weighted(0, 6, 4, 2, 1); k > 0; k-- {
				v.Patterns = append(v.Patterns, genPattern20(r, base))
			}
		} else if r.P(0.3) {
			v.Patterns = []string{}
		}
		if v.Patterns != nil && r.P(0.1) {
			v.Before = []string{genPattern20(r, base), genPattern20(r, base)}
		}
		switch r.Weighted(14, 2, 2, 1, 1) {
		case 1:
			v.Skip = []bool{false}
		case 2:
			v.Skip = []bool{true}
		case 3:
			v.Skip = []bool{true, false}
		case 4:
			v.Skip = []bool{false, true}
		}
		s.Servers = append(s.Servers, v)
	}
	var old []req20
	for n := 1 + r.Heavy(12); n > 0; n-- {
		var bt []req20
		for k := r.Weighted(0, 8, 1, 1, 1); k > 0; k-- {
			q := req20{Srv: r.IntN(len(s.Servers)), Path: r.IntN(2), Retry: r.P(0.4), Ext: r.P(0.2)}
			if r.P(0.6) {
				q.Host = genHost20(r, base)
			}
			if r.P(0.9) {
				o := &org20{Scheme: Pick20(r, "http", "https", "https", "HTTP", "Https", "chrome-extension", "ws", "httpss"), Host: genHost20(r, base)}
				if r.P(0.2) {
					o.Host = case20(r, q.Host)
					if q.Host == "" {
						o.Host = "test.local"
					}
				}
				if r.P(0.08) {
					o.User = Pick20(r, "good.com", "test.local", "u:p", base[0])
				}
				if r.P(0.12) {
					o.Path = Pick20(r, "/", "/good.com", "/"+base[0], "?good.com", "#test.local", "/x")
				}
				if r.P(0.05) {
					o = &org20{Raw: bad20[r.IntN(len(bad20))]}
				} else if r.P(0.05) {
					o = &org20{Raw: none20[r.IntN(len(none20))]}
				}
				q.Origin = o
			}
			q.ID = Pick20(r, "", "v0", "v1", "v1")
			if len(old) > 0 && r.P(0.4) { // a variant of an earlier request
				p := old[r.IntN(len(old))]
				switch r.IntN(3) {
				case 0:
					q.Origin = p.Origin
				case 1:
					q.Host = p.Host
				case 2:
					q.Origin, q.Host = p.Origin, p.Host
				}
			}
			if r.P(0.15) {
				g := base[r.IntN(len(base))]
				q.Other = http.Header{}
				switch r.IntN(5) {
				case 0:
					q.Other.Set("X-Forwarded-Host", g)
					if q.Origin != nil && q.Origin.Host != "" {
						q.Other.Set("X-Forwarded-Host", q.Origin.Host)
					}
				case 1:
					q.Other.Set("Referer", "http://"+g+"/")
				case 2:
					q.Other.Set("Sec-Fetch-Site", Pick20(r, "same-origin", "cross-site", "none"))
				case 3:
					q.Other.Set("Forwarded", "host="+g)
				case 4:
					q.Other.Set("Sec-Websocket-Origin", "http://"+g)
				}
			}
			old = append(old, q)
			bt = append(bt, q)
		}
		s.Batches = append(s.Batches, bt)
	}
	if r.P(0.3) {
		s.Yield = r.Uint64() | 1
	}
	return s
}

func init() {
	eng.Register(&eng.Check{
		ID:   "C20",
		Rule: "a case is non-trivial when at least one upgrade had to be accepted and at least one had to be refused",
		Families: []eng.Family{
			eng.Fam("requests", 10000, 150000, gen20, run20),
		},
	})
}
