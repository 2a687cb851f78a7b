package eng

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"syscall"
	"testing"
	"time"
)

type request struct {
	Check  string
	Family string
	Tier   string
	Sc     json.RawMessage
	Procs  int
	Replay bool
}

type reply struct {
	OK         bool
	Discard    bool
	Infra      bool
	Err        string
	Labels     map[string]int
	NonTrivial bool
	MS         float64
	Goroutines int
	HeapMB     int
}

// Worker runs the scenarios requested on stdin and writes the replies to file descriptor 3.
func Worker(t *testing.T) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := os.NewFile(3, "replies")
	debug.SetGCPercent(200)
	// A scenario which makes the code under test allocate without bounds shall end this process, not another one
	if !RaceEnabled {
		lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	for {
		line, err := in.ReadBytes('\n')
		if err == io.EOF {
			return
		}
		if err != nil {
			os.Exit(3)
		}
		var q request
		if err := json.Unmarshal(line, &q); err != nil {
			os.Exit(3)
		}
		b, _ := json.Marshal(runOne(t, &q))
		if _, err := out.Write(append(b, '\n')); err != nil {
			os.Exit(3)
		}
	}
}

func runOne(t *testing.T, q *request) (rep reply) {
	chk := checks[q.Check]
	if chk == nil {
		return reply{Infra: true, Err: "unknown check " + q.Check}
	}
	f := chk.family(q.Family)
	if f == nil {
		return reply{Infra: true, Err: "unknown family " + q.Family}
	}
	sc, err := f.Decode(q.Sc)
	if err != nil {
		return reply{Discard: true, Err: err.Error()}
	}
	if q.Procs > 0 {
		runtime.GOMAXPROCS(q.Procs)
	}
	c := &C{T: t, Labels: map[string]int{}, Replay: q.Replay, Tier: q.Tier}
	start := time.Now()
	err = func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = &Infra{fmt.Sprintf("panic in scenario code: %v\n%s", r, debug.Stack())}
			}
		}()
		return f.Run(c, sc)
	}()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	rep = reply{OK: err == nil, Labels: c.Labels, NonTrivial: c.nontrivial,
		MS: float64(time.Since(start).Microseconds()) / 1000, Goroutines: runtime.NumGoroutine(), HeapMB: int(ms.HeapAlloc >> 20)}
	if err == Discard {
		rep.OK, rep.Discard = true, true
	} else if err != nil {
		rep.Err = err.Error()
		if _, ok := err.(*Infra); ok {
			rep.Infra = true
		}
	}
	return rep
}
