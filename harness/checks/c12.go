package checks

import "verif/harness/eng"

func init() {
	meths := []string{"Up", "UpErr", "Up2", "Up3", "Up", "Up2", "Up2", "Up3", "One", "Chan", "Err"}
	up := genS{meths: meths, noID: 0.05, block: 0.15, bad: 0.04, err: 0.1, panic: 0.02, stream: 0.2, reuse: 0.1, calls: 0.25,
		ops: []string{"item", "item", "item", "item", "item", "fin", "fin", "release", "feed", "close", "ping"},
		max: []int{0, 100, 1000}, caps: []int{1, 2, 10, 10, 100, 1000},
		minOps: 4, maxOps: 50, long: 600, conns: 3, burst: 0.06, maxItem: 200}
	push := genC{starts: []string{"push", "push", "push", "push", "invoke", "pull"}, ops: []string{"feed", "feed", "feed", "feed", "feed", "fin", "fin", "result", "err", "void", "callback", "item", "cancelup"},
		start: 0.25, minOps: 4, maxOps: 40, long: 400, burst: 0.06, maxItem: 300}
	both := genE{kinds: []string{"push", "push", "push", "push", "pull", "invoke", "call"}, maxN: 1500, size: 3000, minOps: 1, maxOps: 8, slow: 0.6, real: 0.2}
	eng.Register(&eng.Check{
		ID:   "C12",
		Rule: "a case is non-trivial when at least one upload stream with at least two items was running together with another stream or call",
		Families: []eng.Family{
			eng.Fam("receiver", 6000, 80000, up.gen, runSess(nil, func(x *sess) {
				for _, c := range x.calls {
					if c.m.ups > 0 && !c.refused {
						for j := 0; j < c.m.ups; j++ {
							x.c.LabelN("streams", 1)
							x.c.LabelN("items", len(c.sent[j]))
							if len(c.sent[j]) > 1 && (len(x.calls) > 1 || c.m.ups > 1) {
								x.c.NonTrivial()
							}
						}
					}
				}
			})),
			eng.Fam("sender", 6000, 80000, push.gen, runC(func(x *csess, n, a map[string]int) {
				for _, c := range x.calls {
					for _, u := range c.ups {
						x.c.LabelN("pushed items", len(u.fed))
						if len(u.fed) > 1 && (len(x.calls) > 1 || len(c.ups) > 1) {
							x.c.NonTrivial()
						}
						if u.cancel {
							x.c.Label("canceled by the receiver")
						}
					}
				}
			})),
			eng.Fam("end-to-end", 3000, 40000, both.gen, runEPipe(func(c *eng.C, s scE) {
				for _, o := range s.Ops {
					if o.K == "push" {
						c.LabelN("end-to-end items", o.N)
						if o.N > 1 && (len(s.Ops) > 1 || o.Mix) {
							c.NonTrivial()
						}
						if len(o.CD) > 0 {
							c.Label("slow consumer")
						}
						if len(o.PD) > 0 {
							c.Label("slow producer")
						}
					}
				}
			})),
		},
	})
}
