package checks

import (
	"regexp"

	"verif/harness/eng"
)

// What only a stack trace contains
var reInternals = regexp.MustCompile(`\.go:\d+|goroutine \d+|debug\.Stack|verif/harness|philippseith/|\+0x[0-9a-f]+|reflect\.Value`)

func init() {
	g := genS{meths: allMeths, noID: 0.1, block: 0.35, bad: 0.05, err: 0.1, panic: 0.5, stream: 0.3, reuse: 0.05, calls: 0.55,
		ops: []string{"release", "release", "feed", "close", "item", "fin"}, minOps: 3, maxOps: 25, long: 200, conns: 4, burst: 0.04, maxItem: 10}
	eng.Register(&eng.Check{
		ID:   "C07",
		Rule: "a case is non-trivial when a method panicked while other calls were pending or before other calls were made",
		Families: []eng.Family{
			eng.Fam("panics", 8000, 100000, g.gen, runSess(func(x *sess, op opS) error {
				if x.s.Det {
					return nil
				}
				for i, l := range x.all {
					for _, m := range l {
						if f := reInternals.FindString(m.Error); f != "" {
							return eng.Errf("connection %d: error contains internals (%q) although detailed errors are not enabled: %q", i, f, clip(m.Error))
						}
					}
				}
				return nil
			}, func(x *sess) {
				x.c.LabelN("panics", x.stats.panics)
				for _, c := range x.calls {
					if c.op.Panic > 0 && !c.refused {
						x.c.Label("panic value %d", c.op.Panic)
					}
				}
				x.c.Label("detailed errors %v", x.s.Det)
				if x.stats.panics > 0 && x.stats.calls > x.stats.panics {
					x.c.NonTrivial()
				}
			})),
		},
	})
}
