package lib

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/go-kit/log"

	"verif/harness/eng"
)

// B is a case running in a synctest bubble: time is virtual and Wait returns when nothing can happen any more
// without time passing.
type B struct {
	C      *eng.C
	Ctx    context.Context
	cancel context.CancelFunc
	Start  time.Time
	Real   bool
	closer []func()
}

// Real runs f in real time, without a bubble. Wait does nothing then.
func Real(c *eng.C, f func(b *B) error) error {
	b := &B{C: c, Start: time.Now(), Real: true}
	b.Ctx, b.cancel = context.WithCancel(context.Background())
	defer b.End()
	return f(b)
}

// Wait waits until every goroutine of the case is blocked.
func (b *B) Wait() {
	if !b.Real {
		synctest.Wait()
	}
}

// Sleep lets virtual time pass.
func (b *B) Sleep(d time.Duration) { time.Sleep(d); b.Wait() }

// Now is the virtual time since the start of the case.
func (b *B) Now() time.Duration { return time.Since(b.Start) }

// Cleanup registers f to be run (in reverse order) before the case ends.
func (b *B) Cleanup(f func()) { b.closer = append(b.closer, f) }

// End cancels the context of the case and runs the cleanups.
func (b *B) End() {
	b.cancel()
	for i := len(b.closer) - 1; i >= 0; i-- {
		b.closer[i]()
	}
	b.closer = nil
}

// Bubble runs f in a bubble of its own and returns its verdict. Goroutines which are left over after f has ended
// and the context of the case was cancelled are returned as text (one line each).
func Bubble(c *eng.C, f func(b *B) error) (err error, leftover string) {
	var verdict error
	done := false
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if strings.Contains(s, "blocked goroutines remain") || strings.Contains(s, "deadlock") {
				if done {
					err, leftover = verdict, stacks()
					return
				}
				err = fmt.Errorf("the scenario can not go on, everything is blocked for ever: %s\n%s", s, stacks())
				return
			}
			err = &eng.Infra{Msg: fmt.Sprintf("panic: %v\n%s", r, debug.Stack())}
		}
	}()
	t := c.T.(*testing.T)
	synctest.Test(t, func(*testing.T) {
		b := &B{C: c, Start: time.Now()}
		b.Ctx, b.cancel = context.WithCancel(context.Background())
		func() {
			defer func() {
				if r := recover(); r != nil {
					verdict = &eng.Infra{Msg: fmt.Sprintf("panic in scenario: %v\n%s", r, debug.Stack())}
				}
			}()
			verdict = f(b)
		}()
		done = true
		b.End()
	})
	return verdict, ""
}

// InBubble is Bubble for checks which do not care about leftovers.
func InBubble(c *eng.C, f func(b *B) error) error {
	err, left := Bubble(c, f)
	if left != "" {
		c.Label("leftover goroutines")
	}
	return err
}

// stacks lists the durably blocked goroutines in code under test.
func stacks() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "synctest bubble") && strings.Contains(g, "philippseith/signalr") {
			out = append(out, g)
		}
	}
	return strings.Join(out, "\n\n")
}

// Yield perturbs the schedule: some calls give the processor away.
type Yield struct {
	s   atomic.Uint64
	cut uint64
}

// NewYield returns a perturbation; percent of the calls yield.
func NewYield(seed uint64, percent int) *Yield {
	y := &Yield{cut: uint64(percent)}
	y.s.Store(seed | 1)
	return y
}

func (y *Yield) Do() {
	var x uint64
	if eng.RaceEnabled {
		x = rand.Uint64() // does not synchronise anything
	} else {
		x = y.s.Add(0x9E3779B97F4A7C15)
	}
	x ^= x >> 31
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 29
	if x%100 < y.cut {
		for i := uint64(0); i <= x>>32%3; i++ {
			runtime.Gosched()
		}
	}
}

// YieldLogger is a logger which only perturbs the schedule.
type YieldLogger struct{ Y *Yield }

func (l YieldLogger) Log(kv ...any) error {
	if l.Y != nil {
		l.Y.Do()
	}
	return loud(kv)
}

// Loud tells what loggers do with events, see C31.
//
//	0 nothing
//	1 panic
//	2 return an error
//	3 format them
//	4 one of these
var Loud atomic.Int32

var loudCount atomic.Int32

func loud(kv []any) error {
	k := Loud.Load()
	if k == 0 {
		return nil
	}
	n := loudCount.Add(1)
	if k == 4 {
		k = 1 + n%3
	}
	switch k {
	case 1:
		switch n % 4 {
		case 0:
			panic("logger")
		case 1:
			panic(errors.New("logger"))
		case 2:
			var m map[string]int
			m["a"] = 1
		default:
			_ = kv[len(kv)]
		}
	case 2:
		return errors.New("logger")
	case 3:
		_ = log.NewLogfmtLogger(io.Discard).Log(kv...)
		_ = log.NewJSONLogger(io.Discard).Log(kv...)
	}
	return nil
}

// Spin lets a little real time pass, in which nothing else is done.
func Spin(n int) int {
	x := 0
	for i := range n {
		x += i ^ x
	}
	return x
}

// Trigger is a logger which triggers something after some log events. This is about timing only: the moment of a fault is
// chosen among the steps of the code. The contents of the events do not matter.
type Trigger struct {
	y    *Yield
	left atomic.Int64
	C    chan struct{} // closed when it triggers
}

// NewTrigger returns a trigger which is not armed.
func NewTrigger(y *Yield) *Trigger { return &Trigger{y: y, C: make(chan struct{})} }

// Arm lets Wait return after n log events.
func (t *Trigger) Arm(n int) { t.left.Store(int64(n)) }

func (t *Trigger) Log(kv ...any) error {
	if t.left.Load() > 0 && t.left.Add(-1) == 0 {
		close(t.C)
	}
	if t.y != nil {
		t.y.Do()
	}
	return loud(kv)
}

// Wait waits for the trigger and some additions more, but not when nothing else happens any more.
func (t *Trigger) Wait(spin int) {
	select {
	case <-t.C:
	case <-time.After(time.Millisecond):
	}
	Spin(spin)
}

// Goroutines lists the goroutines of the case whose stack contains one of the texts.
func (b *B) Goroutines(with ...string) []string {
	buf := make([]byte, 1<<22)
	buf = buf[:runtime.Stack(buf, true)]
	gs := strings.Split(string(buf), "\n\n")
	// The first one is the caller: goroutine 12 [running, synctest bubble 7]:
	head, _, _ := strings.Cut(gs[0], "\n")
	_, bubble, ok := strings.Cut(head, "synctest bubble ")
	if !ok {
		return nil
	}
	bubble = "synctest bubble " + bubble
	var out []string
	for _, g := range gs[1:] {
		head, _, _ := strings.Cut(g, "\n")
		if !strings.HasSuffix(head, bubble) {
			continue
		}
		for _, w := range with {
			if strings.Contains(g, w) {
				out = append(out, g)
				break
			}
		}
	}
	return out
}
