package checks

import "verif/harness/eng"

func init() {
	meths := []string{"Chan", "ChanErr", "BiChan", "Chan", "ChanErr", "BiChan", "One", "Any", "PtrErr", "Up", "OneErr", "Err"}
	prod := genS{meths: meths, noID: 0.02, block: 0.2, bad: 0.03, err: 0.1, panic: 0.03, stream: 0.9, reuse: 0.2, calls: 0.3,
		ops:    []string{"feed", "feed", "feed", "feed", "close", "close", "release", "cancel", "item", "fin", "ping"},
		minOps: 4, maxOps: 40, long: 500, conns: 3, burst: 0.06, maxItem: 200}
	cons := genC{starts: []string{"pull", "pull", "pull", "pull", "invoke", "push"}, ops: []string{"item", "item", "item", "item", "item", "void", "err", "callback", "feed", "fin", "ping"},
		start: 0.3, minOps: 4, maxOps: 40, long: 400, burst: 0.08, maxItem: 300, caps: []int{1, 2, 10, 100}}
	both := genE{kinds: []string{"pull", "pull", "pull", "pull", "push", "invoke", "call"}, maxN: 1500, size: 3000, minOps: 1, maxOps: 8, slow: 0.6, real: 0.4}
	eng.Register(&eng.Check{
		ID:   "C10",
		Rule: "a case is non-trivial when at least one stream with at least two items was running together with another call or stream",
		Families: []eng.Family{
			eng.Fam("producer", 6000, 80000, prod.gen, runSess(nil, func(x *sess) {
				n := 0
				for _, c := range x.calls {
					if c.op.T == 4 && c.m.ch && !c.refused {
						n++
						if len(c.fed) > 1 && len(x.calls) > 1 {
							x.c.NonTrivial()
						}
					}
				}
				x.c.LabelN("streams", n)
				x.c.LabelN("items", x.stats.items)
			})),
			eng.Fam("consumer", 6000, 80000, cons.gen, runC(func(x *csess, n, a map[string]int) {
				for _, c := range x.calls {
					if c.op.K == "pull" && len(c.want) > 1 && len(x.calls) > 1 {
						x.c.NonTrivial()
					}
				}
			})),
			eng.Fam("end-to-end", 3000, 40000, both.gen, runEPipe(func(c *eng.C, s scE) {
				for _, o := range s.Ops {
					if o.K == "pull" {
						c.LabelN("end-to-end items", o.N)
						if o.N > 1 && len(s.Ops) > 1 {
							c.NonTrivial()
						}
						if len(o.CD) > 0 {
							c.Label("slow consumer")
						}
						if len(o.PD) > 0 {
							c.Label("slow producer")
						}
					}
				}
			})),
		},
	})
}
