package lib

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/philippseith/signalr"
	"github.com/philippseith/signalr/ext"
	"github.com/redis/go-redis/v9"
	"github.com/redis/go-redis/v9/maintnotifications"
)

// Redis is a small Redis server on in-memory connections: sets, publish/subscribe, transactions.
type Redis struct {
	mx    sync.Mutex
	sets  map[string]map[string]bool
	keys  map[string]string
	until map[string]time.Time // when sets and keys expire
	conns map[*redisConn]bool
	down  bool
	// Published counts the messages
	Published int
}

type redisConn struct {
	c     *MemConn
	owner string
	subs  map[string]bool
	psubs map[string]bool
	multi [][]string
	inTx  bool
}

// NewRedis starts a server without any data.
func NewRedis() *Redis {
	return &Redis{sets: map[string]map[string]bool{}, keys: map[string]string{}, until: map[string]time.Time{}, conns: map[*redisConn]bool{}}
}

// Client returns a client of the server, which is closed at the end of the bubble.
func (r *Redis) Client(b *B, owner string) *redis.Client {
	c := redis.NewClient(&redis.Options{
		Addr:                     "127.0.0.1:6379",
		Protocol:                 2,
		PoolSize:                 5000, // waiting for a connection uses timers which do not know bubbles
		MaintNotificationsConfig: &maintnotifications.Config{Mode: maintnotifications.ModeDisabled},
		Dialer: func(context.Context, string, string) (net.Conn, error) {
			r.mx.Lock()
			defer r.mx.Unlock()
			if r.down {
				return nil, errors.New("connection refused")
			}
			cli, srv := NewMemPipe()
			x := &redisConn{c: srv, owner: owner, subs: map[string]bool{}, psubs: map[string]bool{}}
			r.conns[x] = true
			go r.serve(x)
			return redisNet{cli}, nil
		},
	})
	b.Cleanup(func() { _ = c.Close() })
	return c
}

// redisNet lets the client of Redis find out that an idle connection was cut, as it does with a system call for a real one.
type redisNet struct{ *MemConn }

func (c redisNet) SyscallConn() (syscall.RawConn, error) { return redisSys{c.MemConn}, nil }

type redisSys struct{ c *MemConn }

func (s redisSys) Control(func(fd uintptr)) error    { return nil }
func (s redisSys) Write(func(fd uintptr) bool) error { return nil }
func (s redisSys) Read(func(fd uintptr) bool) error {
	s.c.in.mx.Lock()
	defer s.c.in.mx.Unlock()
	if s.c.in.wclosed {
		return io.EOF
	}
	return nil
}

// Drop cuts all connections of a client.
func (r *Redis) Drop(owner string) {
	r.mx.Lock()
	defer r.mx.Unlock()
	for x := range r.conns {
		if x.owner == owner {
			_ = x.c.Close()
		}
	}
}

// Down refuses new connections and cuts the existing ones.
func (r *Redis) Down(down bool) {
	r.mx.Lock()
	defer r.mx.Unlock()
	if r.down = down; down {
		for x := range r.conns {
			_ = x.c.Close()
		}
	}
}

func (r *Redis) serve(x *redisConn) {
	defer func() {
		_ = x.c.Close()
		r.mx.Lock()
		delete(r.conns, x)
		r.mx.Unlock()
	}()
	rd := bufio.NewReader(x.c)
	for {
		cmd, err := readCommand(rd)
		if err != nil {
			return
		}
		if len(cmd) == 0 {
			continue
		}
		r.mx.Lock()
		for k, t := range r.until {
			if time.Now().After(t) {
				delete(r.until, k)
				delete(r.sets, k)
				delete(r.keys, k)
			}
		}
		out := r.handle(x, cmd)
		r.mx.Unlock()
		if _, err := x.c.Write([]byte(out)); err != nil {
			return
		}
		if strings.EqualFold(cmd[0], "quit") {
			return
		}
	}
}

func readCommand(rd *bufio.Reader) ([]string, error) {
	line := func() (string, error) {
		s, err := rd.ReadString('\n')
		return strings.TrimRight(s, "\r\n"), err
	}
	l, err := line()
	if err != nil {
		return nil, err
	}
	if !strings.HasPrefix(l, "*") {
		return strings.Fields(l), nil
	}
	n, err := strconv.Atoi(l[1:])
	if err != nil {
		return nil, err
	}
	var cmd []string
	for ; n > 0; n-- {
		if l, err = line(); err != nil {
			return nil, err
		}
		if !strings.HasPrefix(l, "$") {
			return nil, errors.New("protocol error")
		}
		k, err := strconv.Atoi(l[1:])
		if err != nil {
			return nil, err
		}
		b := make([]byte, k+2)
		if _, err := io.ReadFull(rd, b); err != nil {
			return nil, err
		}
		cmd = append(cmd, string(b[:k]))
	}
	return cmd, nil
}

func bulk(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }
func integer(n int) string { return fmt.Sprintf(":%d\r\n", n) }
func array(l ...string) string {
	return fmt.Sprintf("*%d\r\n%s", len(l), strings.Join(l, ""))
}
func ofBool(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (r *Redis) handle(x *redisConn, cmd []string) string {
	name := strings.ToUpper(cmd[0])
	if x.inTx && name != "EXEC" && name != "DISCARD" {
		x.multi = append(x.multi, cmd)
		return "+QUEUED\r\n"
	}
	arg := func(i int) string {
		if i < len(cmd) {
			return cmd[i]
		}
		return ""
	}
	switch name {
	case "PING":
		if len(x.subs)+len(x.psubs) > 0 {
			return array(bulk("pong"), bulk(arg(1)))
		}
		if len(cmd) > 1 {
			return bulk(cmd[1])
		}
		return "+PONG\r\n"
	case "CLIENT", "QUIT", "SELECT", "AUTH":
		return "+OK\r\n"
	case "MULTI":
		x.inTx, x.multi = true, nil
		return "+OK\r\n"
	case "DISCARD":
		x.inTx = false
		return "+OK\r\n"
	case "EXEC":
		x.inTx = false
		var l []string
		for _, c := range x.multi {
			l = append(l, r.handle(x, c))
		}
		return array(l...)
	case "SUBSCRIBE", "PSUBSCRIBE", "UNSUBSCRIBE", "PUNSUBSCRIBE":
		m := x.subs
		if strings.HasPrefix(name, "P") {
			m = x.psubs
		}
		names := cmd[1:]
		if len(names) == 0 {
			for k := range m {
				names = append(names, k)
			}
		}
		var out string
		for _, n := range names {
			if strings.Contains(name, "UNSUB") {
				delete(m, n)
			} else {
				m[n] = true
			}
			out += array(bulk(strings.ToLower(name)), bulk(n), integer(len(x.subs)+len(x.psubs)))
		}
		return out
	case "PUBLISH":
		r.Published++
		n := 0
		for y := range r.conns {
			var out string
			if y.subs[arg(1)] {
				out += array(bulk("message"), bulk(arg(1)), bulk(arg(2)))
				n++
			}
			for p := range y.psubs {
				if glob(p, arg(1)) {
					out += array(bulk("pmessage"), bulk(p), bulk(arg(1)), bulk(arg(2)))
					n++
				}
			}
			if out != "" {
				_, _ = y.c.Write([]byte(out))
			}
		}
		return integer(n)
	case "SADD", "SREM":
		n := 0
		for _, m := range cmd[2:] {
			s := r.sets[arg(1)]
			if name == "SADD" && !s[m] {
				if s == nil {
					s = map[string]bool{}
					r.sets[arg(1)] = s
				}
				s[m] = true
				n++
			}
			if name == "SREM" && s[m] {
				if delete(s, m); len(s) == 0 {
					delete(r.until, arg(1))
					delete(r.sets, arg(1))
				}
				n++
			}
		}
		return integer(n)
	case "SISMEMBER":
		return integer(ofBool(r.sets[arg(1)][arg(2)]))
	case "SMISMEMBER":
		var l []string
		for _, m := range cmd[2:] {
			l = append(l, integer(ofBool(r.sets[arg(1)][m])))
		}
		return array(l...)
	case "SCARD":
		return integer(len(r.sets[arg(1)]))
	case "SMEMBERS":
		var l []string
		for m := range r.sets[arg(1)] {
			l = append(l, bulk(m))
		}
		return array(l...)
	case "EXISTS":
		n := 0
		for _, k := range cmd[1:] {
			_, ok := r.keys[k]
			n += ofBool(ok || r.sets[k] != nil)
		}
		return integer(n)
	case "DEL", "UNLINK":
		n := 0
		for _, k := range cmd[1:] {
			_, ok := r.keys[k]
			n += ofBool(ok || r.sets[k] != nil)
			delete(r.keys, k)
			delete(r.sets, k)
			delete(r.until, k)
		}
		return integer(n)
	case "SET":
		r.keys[arg(1)] = arg(2)
		return "+OK\r\n"
	case "GET":
		if v, ok := r.keys[arg(1)]; ok {
			return bulk(v)
		}
		return "$-1\r\n"
	case "EXPIRE", "PEXPIRE", "PERSIST":
		_, ok := r.keys[arg(1)]
		if ok = ok || r.sets[arg(1)] != nil; ok {
			delete(r.until, arg(1))
			unit := time.Second
			if name == "PEXPIRE" {
				unit = time.Millisecond
			}
			if n, err := strconv.Atoi(arg(2)); err == nil {
				r.until[arg(1)] = time.Now().Add(time.Duration(n) * unit)
			}
		}
		return integer(ofBool(ok))
	}
	return fmt.Sprintf("-ERR unknown command '%s'\r\n", cmd[0])
}

// glob matches with the patterns of Redis.
func glob(p, s string) bool {
	for len(p) > 0 {
		switch p[0] {
		case '*':
			for len(p) > 1 && p[1] == '*' {
				p = p[1:]
			}
			for i := 0; i <= len(s); i++ {
				if glob(p[1:], s[i:]) {
					return true
				}
			}
			return false
		case '?':
			if s == "" {
				return false
			}
			p, s = p[1:], s[1:]
			continue
		case '[':
			end := strings.IndexByte(p, ']')
			if end > 0 {
				if s == "" {
					return false
				}
				set, not := p[1:end], false
				if strings.HasPrefix(set, "^") {
					set, not = set[1:], true
				}
				if strings.IndexByte(set, s[0]) >= 0 == not {
					return false
				}
				p, s = p[end+1:], s[1:]
				continue
			}
		case '\\':
			if len(p) > 1 {
				p = p[1:]
			}
		}
		if s == "" || p[0] != s[0] {
			return false
		}
		p, s = p[1:], s[1:]
	}
	return s == ""
}

// Backplane is the option for a server which uses this Redis.
func (r *Redis) Backplane(b *B, owner string, y *Yield) func(signalr.Party) error {
	return ext.WithRedisHubLifetimeManager(r.Client(b, owner), YieldLogger{y})
}
