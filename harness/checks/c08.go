package checks

import "verif/harness/eng"

func init() {
	g := genC{starts: []string{"invoke", "invoke", "invoke", "send", "pull", "push"}, ops: []string{"result", "result", "result", "err", "void", "item", "feed", "fin", "callback", "ping"},
		start: 0.5, minOps: 4, maxOps: 40, long: 400, burst: 0.06, maxItem: 20}
	eng.Register(&eng.Check{
		ID:   "C08",
		Rule: "a case is non-trivial when at least two calls were pending at the same time and at least one was answered",
		Families: []eng.Family{
			eng.Fam("concurrent-calls", 8000, 100000, g.gen, runC(func(x *csess, n, a map[string]int) {
				if n["invoke"]+n["send"]+n["pull"]+n["push"] > 1 && a["result"]+a["err"]+a["void"] > 0 {
					x.c.NonTrivial()
				}
			})),
			eng.Fam("many", 60, 800, gen08m, run08m),
		},
	})
}
