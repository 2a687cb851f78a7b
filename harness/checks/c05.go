package checks

import "verif/harness/eng"

var allMeths = []string{"Void", "One", "Any", "PtrErr", "Two", "Three", "Err", "OneErr", "TwoErr", "Chan", "ChanErr", "BiChan", "Args", "Up", "UpErr", "Up2", "Up3"}

func init() {
	g := genS{meths: allMeths, noID: 0.15, block: 0.3, bad: 0.2, err: 0.25, panic: 0.12, stream: 0.35, reuse: 0.1, calls: 0.5,
		ops: []string{"release", "release", "feed", "feed", "close", "close", "item", "fin", "fin", "ping"}, minOps: 3, maxOps: 25, long: 250, conns: 2, burst: 0.03, maxItem: 40}
	eng.Register(&eng.Check{
		ID:   "C05",
		Rule: "a case is non-trivial when at least three calls were made, of which at least one blocked, failed, panicked, was refused or returned a channel",
		Families: []eng.Family{
			eng.Fam("histories", 12000, 150000, g.gen, runSess(nil, func(x *sess) {
				special := 0
				for _, c := range x.calls {
					if c.op.Block || c.refused || c.op.Panic > 0 || c.m.ch || c.m.err && (c.op.Err != "" || c.op.ErrK > 0) {
						special++
					}
					x.c.Label("%s type %d", c.op.M, c.op.T)
					if c.op.NoID {
						x.c.Label("without id")
					}
				}
				if len(x.calls) > 3 && special > 0 {
					x.c.NonTrivial()
				}
			})),
		},
	})
}
