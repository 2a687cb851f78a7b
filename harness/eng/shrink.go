package eng

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sync"
	"time"
)

// shrink minimises the failing scenario by simplifying its JSON tree as long as it fails in any way.
func shrink(chk *Check, f failure, tier string) (json.RawMessage, string) {
	best, bestErr := f.Sc, f.Out.Err
	limit := hangLimit / 3
	budget := 90 * time.Second
	deadline := time.Now().Add(budget)
	const par = 8
	procs := make([]*proc, par)
	defer func() {
		for _, p := range procs {
			p.stop()
		}
	}()
	runs := 0
	for time.Now().Before(deadline) && runs < 1500 {
		var tree any
		d := json.NewDecoder(bytes.NewReader(best))
		d.UseNumber()
		if d.Decode(&tree) != nil {
			break
		}
		cands := candidates(tree)
		improved := false
		for i := 0; i < len(cands) && time.Now().Before(deadline) && runs < 1500; i += par {
			n := min(par, len(cands)-i)
			outs := make([]*outcome, n)
			var wg sync.WaitGroup
			for k := 0; k < n; k++ {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					for try := 0; try < 2; try++ {
						if procs[k] == nil {
							p, err := startProc()
							if err != nil {
								return
							}
							procs[k] = p
						}
						o := procs[k].run(&request{Check: chk.ID, Family: f.Family, Tier: tier, Sc: cands[i+k], Procs: []int{2, 4, 1}[try%3]}, limit)
						if !o.Alive {
							procs[k] = nil
						}
						outs[k] = &o
						if o.bad() || o.Discard {
							return
						}
					}
				}(k)
			}
			wg.Wait()
			runs += n
			for k := 0; k < n; k++ {
				if outs[k] != nil && outs[k].bad() {
					best, bestErr = cands[i+k], outs[k].Err
					improved = true
					break
				}
			}
			if improved {
				break
			}
		}
		if !improved {
			break
		}
	}
	fmt.Printf("shrunk from %d to %d bytes in %d runs\n", len(f.Sc), len(best), runs)
	return best, bestErr
}

// candidates returns simpler variants of the tree, most radical first.
func candidates(tree any) []json.RawMessage {
	size := len(mustJSON(tree))
	var out []json.RawMessage
	seen := map[string]bool{}
	add := func() {
		b := mustJSON(tree)
		if s := string(b); !seen[s] {
			seen[s] = true
			out = append(out, b)
		}
	}
	// deletions of array parts, large chunks first
	for _, div := range []int{1, 2, 4, 8, 0} {
		walk(tree, func(get func() any, set func(any)) {
			a, ok := get().([]any)
			if !ok || len(a) == 0 {
				return
			}
			chunk := 1
			if div > 0 {
				chunk = len(a) / div
				if chunk < 2 && div != 1 {
					return
				}
			}
			if chunk < 1 {
				chunk = 1
			}
			for i := 0; i < len(a); i += chunk {
				j := min(len(a), i+chunk)
				n := append(append([]any{}, a[:i]...), a[j:]...)
				set(n)
				add()
				set(a)
				if len(out) > 400 {
					return
				}
			}
		})
	}
	walk(tree, func(get func() any, set func(any)) {
		if len(out) > 1200 {
			return
		}
		old := get()
		switch v := old.(type) {
		case bool:
			if v {
				set(false)
				add()
			}
		case json.Number:
			if n, err := v.Int64(); err == nil && n != 0 {
				for _, m := range []int64{0, 1, n / 2, n - 1} {
					if m != n && !(n == 1 && m != 0) {
						set(json.Number(fmt.Sprint(m)))
						add()
					}
				}
			}
		case string:
			if len(v) > 0 {
				r := []rune(v)
				set("")
				add()
				if len(r) > 1 {
					set(string(r[:len(r)/2]))
					add()
					set(string(r[len(r)/2:]))
					add()
				}
			}
		case map[string]any:
			for k, x := range v {
				switch x.(type) {
				case map[string]any, []any:
					delete(v, k)
					add()
					v[k] = x
				}
			}
		}
		set(old)
	})
	_ = size
	return out
}

func mustJSON(v any) json.RawMessage {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func walk(tree any, visit func(get func() any, set func(any))) {
	var rec func(get func() any, set func(any))
	rec = func(get func() any, set func(any)) {
		visit(get, set)
		switch v := get().(type) {
		case []any:
			for i := range v {
				rec(func() any { return v[i] }, func(x any) { v[i] = x })
			}
		case map[string]any:
			for _, k := range sortedKeys(v) {
				rec(func() any { return v[k] }, func(x any) { v[k] = x })
			}
		}
	}
	root := tree
	rec(func() any { return root }, func(x any) { root = x })
}

func sortedKeys(m map[string]any) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j] < l[i] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	return l
}
