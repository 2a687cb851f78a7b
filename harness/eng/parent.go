package eng

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var hangLimit = 60 * time.Second

type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	outF   *os.File
	stderr *tail
	cases  int
}

// tail keeps the first and the last bytes written to it.
type tail struct {
	mx    sync.Mutex
	first []byte
	last  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mx.Lock()
	defer t.mx.Unlock()
	// The interesting part of a crash starts at the panic line. Forget what came before it.
	if len(t.first) < 1<<20 {
		t.first = append(t.first, p...)
	}
	t.last = append(t.last, p...)
	if len(t.last) > 1<<20 {
		t.last = append([]byte{}, t.last[len(t.last)-1<<19:]...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mx.Lock()
	defer t.mx.Unlock()
	for _, b := range [][]byte{t.last, t.first} {
		for _, mark := range []string{"panic: ", "fatal error: ", "SIGQUIT: "} {
			if i := bytes.Index(b, []byte(mark)); i >= 0 {
				return string(b[i:])
			}
		}
	}
	return string(t.last)
}

func startProc() (*proc, error) {
	cmd := exec.Command(os.Args[0], "-test.run=^TestWorker$", "-test.timeout=0")
	cmd.Env = append(os.Environ(), "VERIF_ROLE=worker", "GOTRACEBACK=all", "GORACE=halt_on_error=1 history_size=2")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd.ExtraFiles = []*os.File{w}
	p := &proc{cmd: cmd, stderr: &tail{}, outF: r, out: bufio.NewReaderSize(r, 1<<16)}
	cmd.Stderr = p.stderr
	cmd.Stdout = p.stderr
	if p.in, err = cmd.StdinPipe(); err != nil {
		return nil, err
	}
	if err = cmd.Start(); err != nil {
		return nil, err
	}
	_ = w.Close()
	return p, nil
}

func (p *proc) stop() {
	if p == nil {
		return
	}
	_ = p.in.Close()
	done := make(chan struct{})
	go func() { _ = p.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(time.Second):
		_ = p.cmd.Process.Kill()
		<-done
	}
	_ = p.outF.Close()
}

// result of one case as the parent sees it
type outcome struct {
	reply
	Crash  bool
	Hang   bool
	Memory bool // died because it wanted too much memory
	Alive  bool // process can be used again
}

func (o *outcome) bad() bool { return !o.OK && !o.Infra && !o.Discard }

// racesOnly: only data races are judged
var racesOnly bool

const notJudged = "other failure (not judged)"

// run lets the process execute one request.
func (p *proc) run(q *request, limit time.Duration) outcome {
	o := p.run0(q, limit)
	if racesOnly && !o.OK && !strings.HasPrefix(o.Err, "data race\n") {
		if os.Getenv("VERIF_LABELS") != "" {
			fmt.Println("not judged:", q.Family, clip(o.Err, 400))
		}
		o = outcome{reply: reply{OK: true, Discard: o.Discard, Labels: map[string]int{notJudged: 1}, Goroutines: o.Goroutines, HeapMB: o.HeapMB}, Alive: o.Alive}
	}
	return o
}

func (p *proc) run0(q *request, limit time.Duration) outcome {
	b, _ := json.Marshal(q)
	type lineT struct {
		b   []byte
		err error
	}
	ch := make(chan lineT, 1)
	go func() {
		if _, err := p.in.Write(append(b, '\n')); err != nil {
			ch <- lineT{nil, err}
			return
		}
		l, err := p.out.ReadBytes('\n')
		ch <- lineT{l, err}
	}()
	p.cases++
	select {
	case l := <-ch:
		if l.err == nil {
			var r reply
			if err := json.Unmarshal(l.b, &r); err == nil {
				return outcome{reply: r, Alive: true}
			}
		}
		// The process died
		done := make(chan error, 1)
		go func() { done <- p.cmd.Wait() }()
		var werr error
		select {
		case werr = <-done:
		case <-time.After(10 * time.Second):
			_ = p.cmd.Process.Kill()
			werr = <-done
		}
		_ = p.outF.Close()
		text := p.stderr.String()
		o := outcome{Crash: true}
		if report, own := dataRace(text); report != "" {
			o.Err = "data race\n" + clip(report, 6000)
			if !own {
				// A fault of the scenario code, which says nothing about the code under test
				o.reply = reply{OK: true, Labels: map[string]int{"race in the harness (not judged)": 1}}
			}
			return o
		}
		if racesOnly && fatalRace(text) {
			o.Err = "data race\n" + clip(text, 6000)
			return o
		}
		o.Err = fmt.Sprintf("process died: %v\n%s", werr, clip(text, 6000))
		// Died by signal KILL: memory or outside interference, says nothing about the property
		if ws, ok := p.cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			o.Infra = true
		}
		if !strings.Contains(text, "panic: ") && !strings.Contains(text, "fatal error: ") {
			o.Infra = true
		}
		if strings.HasPrefix(text, "panic: test timed out") {
			o.Infra = true
		}
		o.Memory = strings.Contains(text, "out of memory") || strings.Contains(text, "cannot allocate memory")
		if !o.Infra && !strings.Contains(firstGoroutine(text), "philippseith/signalr") {
			o.Infra = true
		}
		return o
	case <-time.After(limit):
		_ = p.cmd.Process.Signal(syscall.SIGQUIT)
		done := make(chan error, 1)
		go func() { done <- p.cmd.Wait() }()
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			_ = p.cmd.Process.Kill()
			<-done
		}
		_ = p.outF.Close()
		text := p.stderr.String()
		o := outcome{Hang: true}
		o.Err = fmt.Sprintf("no end of the scenario after %v (real time), nothing it waits for can happen any more or the code spins\n%s", limit, clip(hangSummary(text), 6000))
		if !strings.Contains(text, "philippseith/signalr") {
			o.Infra = true
		}
		return o
	}
}

// firstGoroutine returns the stack of the goroutine which caused the crash.
func firstGoroutine(text string) string {
	i := strings.Index(text, "\ngoroutine ")
	if i < 0 {
		return text
	}
	rest := text[i+1:]
	if j := strings.Index(rest, "\n\n"); j >= 0 {
		rest = rest[:j]
	}
	return rest
}

var reGoroutine = regexp.MustCompile(`(?m)^goroutine \d+ .*$`)

// hangSummary keeps the goroutines which run or wait for a mutex in code under test.
func hangSummary(text string) string {
	var keep []string
	for _, g := range strings.Split(text, "\n\n") {
		if strings.Contains(g, "philippseith/signalr") && reGoroutine.MatchString(g) {
			head := reGoroutine.FindString(g)
			if strings.Contains(head, "Mutex") || strings.Contains(head, "runn") || strings.Contains(head, "semacquire") {
				keep = append([]string{g}, keep...)
			}
		}
	}
	if len(keep) == 0 {
		return text
	}
	return strings.Join(keep, "\n\n")
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

type failure struct {
	Family string
	Sc     json.RawMessage
	Out    outcome
}

// Replay is the content of a replay file.
type Replay struct {
	Check    string
	Family   string
	Error    string
	Runs     int
	Failed   int
	Scenario json.RawMessage
}

type finding struct{ kind, property, key, text string }

// loadFindings reads the committed file of known findings.
//
//	known: property=C05 key=<substring of the failure> <text>
//	fixed: property=C05 <commit> <text>      (suppresses nothing)
func loadFindings(root string) []finding {
	b, err := os.ReadFile(filepath.Join(root, "KNOWN_FINDINGS"))
	if err != nil {
		return nil
	}
	var l []finding
	re := regexp.MustCompile(`^known: property=(\S+) key=(\S+) (.*)$`)
	for _, line := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(line); m != nil {
			l = append(l, finding{"known", m[1], m[2], m[3]})
		}
	}
	return l
}

// Parent runs a check and returns the exit code.
func Parent(args []string) int {
	root := os.Getenv("VERIF_ROOT")
	if len(args) == 2 && args[0] == "replay" {
		return replay(args[1])
	}
	if len(args) != 1 {
		fmt.Println("usage: CHECK | replay FILE")
		return 2
	}
	chk := checks[args[0]]
	if chk == nil {
		fmt.Println("unknown check", args[0])
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if !chk.prepare() {
		fmt.Println("ERROR this check needs a binary built with the race detector")
		return 2
	}
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 63)
	nWorkers := 8
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		nWorkers, _ = strconv.Atoi(s)
	}
	if s := os.Getenv("VERIF_HANG"); s != "" {
		hangLimit, _ = time.ParseDuration(s)
	}
	scale := 1.0
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		scale, _ = strconv.ParseFloat(s, 64)
	}
	only := os.Getenv("VERIF_FAMILY")
	start := time.Now()

	type job struct {
		f *Family
		i int
	}
	var jobs []job
	counts := map[string]int{}
	for i := range chk.Families {
		f := &chk.Families[i]
		if only != "" && f.Name != only {
			continue
		}
		fixed, gen := f.cases(tier)
		n := fixed + int(float64(gen)*scale)
		for k := 0; k < n; k++ {
			jobs = append(jobs, job{f, k})
		}
	}
	// Interleave the families: sort by relative position
	total := map[string]int{}
	for _, j := range jobs {
		total[j.f.Name]++
	}
	sort.SliceStable(jobs, func(a, b int) bool {
		return float64(jobs[a].i)/float64(total[jobs[a].f.Name]) < float64(jobs[b].i)/float64(total[jobs[b].f.Name])
	})

	known := []finding{}
	for _, f := range loadFindings(root) {
		if f.property == chk.ID {
			known = append(known, f)
		}
	}
	var mx sync.Mutex
	next := 0
	evaluations, discarded, inconclusive := 0, 0, 0
	distinct := map[[8]byte]bool{}
	labels := map[string]int{}
	knownSeen := map[string]int{}
	var samples []any
	sampleFam := map[string]int{}
	var fails []failure
	var infra []string
	var slowest float64
	var slowSc string
	stop, lost := false, 0

	take := func() (job, bool) {
		mx.Lock()
		defer mx.Unlock()
		if stop || next >= len(jobs) {
			return job{}, false
		}
		j := jobs[next]
		next++
		return j, true
	}
	var wg sync.WaitGroup
	for w := 0; w < nWorkers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			defer func() { p.stop() }()
			for {
				j, ok := take()
				if !ok {
					return
				}
				sc, err := j.f.scenario(chk.ID, seed, j.i)
				if err != nil {
					mx.Lock()
					infra = append(infra, fmt.Sprintf("generator %s/%d: %v", j.f.Name, j.i, err))
					stop = true
					mx.Unlock()
					return
				}
				q := &request{Check: chk.ID, Family: j.f.Name, Tier: tier, Sc: sc, Procs: []int{2, 1, 4, 2}[j.i%4]}
				if p == nil {
					if p, err = startProc(); err != nil {
						mx.Lock()
						infra = append(infra, fmt.Sprintf("start worker: %v", err))
						stop = true
						mx.Unlock()
						return
					}
				}
				o := p.run(q, hangLimit)
				if !o.Alive {
					p = nil
				} else if p.cases > 3000 || o.Goroutines > 30000 || o.HeapMB > 1000 {
					p.stop()
					p = nil
				}
				if (o.Hang || o.Memory) && !o.Infra {
					// Confirm in a process of its own before believing it
					confirmed := false
					for k := 0; k < 2 && !confirmed; k++ {
						if p2, err := startProc(); err == nil {
							o2 := p2.run(q, hangLimit)
							if o2.Alive {
								p2.stop()
							}
							if o2.bad() {
								confirmed = true
								o = o2
							}
						}
					}
					if !confirmed {
						mx.Lock()
						inconclusive++
						n := inconclusive
						mx.Unlock()
						fmt.Printf("inconclusive: %s/%s case %d did not end in time or used up the memory once\n", chk.ID, j.f.Name, j.i)
						if n < 3 {
							continue
						}
					}
				}
				mx.Lock()
				if !o.Alive && o.Labels[notJudged] > 0 {
					// Others judge that. This must not take all the time
					if lost++; lost > 20 {
						stop = true
					}
				}
				evaluations++
				counts[j.f.Name]++
				for k, v := range o.Labels {
					labels[j.f.Name+":"+k] += v
				}
				if o.MS > slowest {
					slowest = o.MS
					slowSc = fmt.Sprintf("%s/%d", j.f.Name, j.i)
				}
				switch {
				case o.Discard:
					discarded++
				case o.OK:
					if o.NonTrivial {
						var h [8]byte
						s := sha256.Sum256(append([]byte(j.f.Name), sc...))
						copy(h[:], s[:8])
						distinct[h] = true
						if sampleFam[j.f.Name] < 2 && len(sc) < 1500 {
							sampleFam[j.f.Name]++
							samples = append(samples, map[string]any{"family": j.f.Name, "index": j.i, "scenario": json.RawMessage(sc)})
						}
					}
				case o.Infra:
					infra = append(infra, fmt.Sprintf("%s/%d: %s", j.f.Name, j.i, clip(o.Err, 6000)))
					if len(infra) > 3 {
						stop = true
					}
				default:
					isKnown := false
					for _, k := range known {
						if strings.Contains(o.Err, "["+k.key+"]") {
							knownSeen[k.key]++
							isKnown = true
						}
					}
					if !isKnown {
						fails = append(fails, failure{j.f.Name, sc, o})
						if os.Getenv("VERIF_KEEPGOING") == "" {
							stop = true
						} else {
							fmt.Printf("FAIL %s/%d: %s\n", j.f.Name, j.i, clip(o.Err, 600))
						}
					}
				}
				mx.Unlock()
			}
		}()
	}
	wg.Wait()

	var replayPath string
	if len(fails) > 0 {
		f := fails[0]
		// prefer the smallest
		for _, g := range fails {
			if len(g.Sc) < len(f.Sc) {
				f = g
			}
		}
		fmt.Printf("failure in %s/%s: %s\n", chk.ID, f.Family, clip(f.Out.Err, 4000))
		rp := Replay{Check: chk.ID, Family: f.Family, Scenario: f.Sc, Error: f.Out.Err}
		if os.Getenv("VERIF_NOSHRINK") == "" {
			rp.Scenario, rp.Error = shrink(chk, f, tier)
			rp.Runs, rp.Failed = confirm(&rp, tier, 5)
		}
		h := sha256.Sum256(rp.Scenario)
		dir := filepath.Join(root, "replays")
		_ = os.MkdirAll(dir, 0o755)
		replayPath = filepath.Join(dir, fmt.Sprintf("%s-%s-%s.json", chk.ID, f.Family, hex.EncodeToString(h[:5])))
		b, _ := json.MarshalIndent(rp, "", " ")
		_ = os.WriteFile(replayPath, b, 0o644)
		fmt.Printf("minimal scenario (%d of %d fresh runs fail): %s\n%s\n", rp.Failed, rp.Runs, clip(string(rp.Scenario), 3000), clip(rp.Error, 4000))
	}

	type lc struct {
		k string
		v int
	}
	ev := map[string]any{
		"property": chk.ID, "tier": tier, "seed": int(seed), "level": "exploration",
		"wall_s": time.Since(start).Seconds(), "violations": len(fails),
		"assumptions": append([]string{"the scenario generators, the reference models and the reference codec of the harness are right", "goroutine schedules inside a case are those the Go scheduler produced in this run; time is virtual where a case runs in a synctest bubble"}, chk.Assume...),
		"coverage": map[string]any{
			"evaluations": evaluations, "distinct_nontrivial": len(distinct), "rule": chk.Rule,
			"samples": samples, "cases_per_family": counts, "labels": labels, "discarded": discarded,
			"inconclusive": inconclusive, "known_findings_seen": knownSeen,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", chk.ID+".json"), b, 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d discarded, %.1fs, slowest %.0fms (%s)\n", chk.ID, tier, seed, evaluations, len(distinct), discarded, time.Since(start).Seconds(), slowest, slowSc)
	if os.Getenv("VERIF_LABELS") != "" {
		var ls []lc
		for k, v := range labels {
			ls = append(ls, lc{k, v})
		}
		sort.Slice(ls, func(a, b int) bool { return ls[a].k < ls[b].k })
		for _, l := range ls {
			fmt.Printf("  %-50s %d\n", l.k, l.v)
		}
	}
	for _, k := range known {
		if n := knownSeen[k.key]; n > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", chk.ID, k.text)
		}
	}
	if len(fails) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", chk.ID, replayPath)
		return 1
	}
	if len(infra) > 0 {
		for _, s := range infra {
			fmt.Println("ERROR", s)
		}
		return 2
	}
	if evaluations == 0 {
		fmt.Println("ERROR no cases")
		return 2
	}
	return 0
}

func confirm(rp *Replay, tier string, n int) (runs, failed int) {
	for i := 0; i < n; i++ {
		p, err := startProc()
		if err != nil {
			continue
		}
		o := p.run(&request{Check: rp.Check, Family: rp.Family, Tier: tier, Sc: rp.Scenario, Procs: []int{2, 1, 4}[i%3]}, hangLimit/3)
		if o.Alive {
			p.stop()
		}
		runs++
		if o.bad() {
			failed++
		}
		if o.Hang {
			break
		}
	}
	return
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Println(err)
		return 2
	}
	chk := checks[rp.Check]
	if chk == nil {
		fmt.Println("unknown check", rp.Check)
		return 2
	}
	if !chk.prepare() {
		fmt.Println("ERROR this check needs a binary built with the race detector")
		return 2
	}
	for i := 0; i < 20; i++ {
		p, err := startProc()
		if err != nil {
			fmt.Println(err)
			return 2
		}
		o := p.run(&request{Check: rp.Check, Family: rp.Family, Tier: "quick", Sc: rp.Scenario, Procs: []int{2, 1, 4}[i%3], Replay: true}, hangLimit)
		if o.Alive {
			p.stop()
		}
		if o.bad() {
			fmt.Printf("run %d: %s\n", i+1, clip(o.Err, 6000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Check, path)
			return 1
		}
		if o.Infra {
			fmt.Println("ERROR", o.Err)
			return 2
		}
	}
	fmt.Println("20 runs, no failure")
	return 0
}
