package checks

import "verif/harness/eng"

func init() {
	meths := []string{"Chan", "ChanErr", "BiChan", "Chan", "ChanErr", "BiChan", "One", "Up", "OneErr"}
	g := genS{meths: meths, noID: 0.02, block: 0.25, bad: 0.05, err: 0.05, panic: 0.03, stream: 0.85, reuse: 0.3, calls: 0.35,
		ops: []string{"cancel", "cancel", "cancel", "badcancel", "feed", "feed", "feed", "close", "release"}, max: []int{1, 1, 2, 3, 10, 100, 0},
		minOps: 4, maxOps: 40, long: 500, conns: 2, burst: 0.05, maxItem: 60}
	final := func(x *sess) {
		x.c.LabelN("cancels of running streams", x.stats.cancels)
		x.c.LabelN("reused ids", x.stats.reuse)
		x.c.Label("max streams %d", x.s.Max)
		if x.s.Max > 0 && x.stats.cancels > x.s.Max {
			x.c.Label("more cancels than concurrent streams allowed")
		}
		if x.stats.cancels > 0 && x.stats.calls > x.stats.cancels {
			x.c.NonTrivial()
		}
	}
	// Many streams which are all cancelled, one after the other or at the same time
	many := func(r *eng.R) scS {
		s := scS{Role: eng.Pick(r, "server", "server", "client"), Proto: protos[r.IntN(2)], Conns: 1, Cap: 10, Max: eng.Pick(r, 1, 2, 5, 100, 0)}
		n := r.N(2, 40)
		if r.P(0.1) {
			n = r.N(100, 300)
		}
		same := r.P(0.3)
		together := r.P(0.5)
		other := r.P(0.5) // cancels of ids which are not streams, before
		if other {
			for k := r.N(1, 150); k > 0; k-- {
				s.Ops = append(s.Ops, opS{K: "badcancel", N: k, NW: true})
			}
		}
		for i := 0; i < n; i++ {
			s.Ops = append(s.Ops, opS{K: "call", M: eng.Pick(r, "Chan", "ChanErr"), T: 4, Reuse: same && i > 0 && !together, I: i - 1, Buf: eng.Pick(r, 0, 1, 100), Block: r.P(0.1), NW: r.P(0.3)})
			if r.P(0.7) {
				s.Ops = append(s.Ops, opS{K: "feed", I: i, N: r.N(1, 20), NW: r.P(0.3)})
			}
			if !together {
				s.Ops = append(s.Ops, opS{K: "cancel", I: i}, opS{K: "release", I: i})
				if r.P(0.3) {
					s.Ops = append(s.Ops, opS{K: "cancel", I: i})
				}
			}
		}
		if together {
			for _, i := range r.Perm(n) {
				if r.P(0.8) {
					s.Ops = append(s.Ops, opS{K: "cancel", I: i, NW: r.P(0.5)})
				}
			}
			s.Ops = append(s.Ops, opS{K: "ping"})
			for i := 0; i < n; i++ {
				s.Ops = append(s.Ops, opS{K: "feed", I: i, N: 2, NW: r.P(0.5)})
			}
		}
		return s
	}
	// The streams a client pushes are canceled by the server
	ups := genC{starts: []string{"push", "push", "push", "push", "push", "invoke", "pull"}, ops: []string{"feed", "feed", "feed", "feed", "fin", "cancelup", "cancelup", "cancelup", "result", "void", "err"},
		start: 0.3, minOps: 4, maxOps: 50, long: 500, burst: 0.06, maxItem: 30}
	eng.Register(&eng.Check{
		ID:   "C11",
		Rule: "a case is non-trivial when a running stream was cancelled and there were other calls or streams",
		Families: []eng.Family{
			eng.Fam("histories", 6000, 80000, g.gen, runSess(nil, final)),
			eng.Fam("many-cancels", 1500, 15000, many, runSess(nil, final)),
			eng.Fam("uploads", 4000, 50000, ups.gen, runC(func(x *csess, n, a map[string]int) {
				for _, c := range x.calls {
					for _, u := range c.ups {
						if u.cancel {
							x.c.NonTrivial()
							x.c.Label("canceled upload")
						}
					}
				}
			})),
			eng.Fam("races", 2000, 30000, gen11r, run11r),
			eng.Fam("reuse", 2000, 30000, gen11x, run11x),
			eng.Fam("push-races", 2000, 30000, gen11p, run11p),
			eng.Fam("stalled", 1500, 20000, gen11s, run11s),
		},
	})
}
