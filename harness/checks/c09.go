package checks

import "verif/harness/eng"

func init() {
	g := genC{starts: []string{"invoke", "send", "pull", "push"}, ops: []string{"result", "err", "void", "item", "item", "feed", "feed", "fin", "callback", "ping", "sleep"},
		start: 0.6, minOps: 1, maxOps: 15, long: 150, burst: 0.05, maxItem: 20, causes: causesC, connector: 0.3, lazy: 0.1, caps: []int{1, 2, 10, 100}}
	eng.Register(&eng.Check{
		ID:   "C09",
		Rule: "a case is non-trivial when at least one call was pending when the connection ended",
		Families: []eng.Family{
			eng.Fam("endings", 10000, 120000, g.gen, runC(func(x *csess, n, a map[string]int) {
				for _, c := range x.calls {
					if !c.surFin {
						x.c.NonTrivial()
						x.c.Label("pending %s", c.op.K)
					}
				}
			})),
			eng.Fam("races", 2000, 20000, gen09r, run09r),
			eng.Fam("connecting", 1500, 20000, gen09c, run09c),
			eng.Fam("unread", 10000, 200000, gen09u, run09u),
		},
	})
}
