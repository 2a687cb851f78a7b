#!/usr/bin/env python3
"""Generates harness/lib/types_gen.go: echo, stream and upload methods for every type of the universe."""
import re, os
root = os.path.join(os.path.dirname(__file__), "..", "harness", "lib")
src = open(os.path.join(root, "values.go")).read()
pairs = re.findall(r'"(\w+)": reflect\.TypeFor\[(.+?)\]\(\)[,}]?', src)
out = ["// Code generated by tools/gentypes.py. DO NOT EDIT.", "package lib", "", 'import "time"', "", "var _ time.Time", ""]
for n, t in pairs:
    for recv in ("TypeHub", "TypeReceiver"):
        out.append(f"func (h *{recv}) Echo{n}(v {t}) {t} {{ h.Rec.Add(\"Echo{n}\", h.conn(), v); return v }}")
        out.append(f"func (h *{recv}) Upload{n}(c <-chan {t}) int {{ i := 0; for v := range c {{ h.Rec.Add(\"Upload{n}\", h.conn(), v); i++ }}; return i }}")
    out.append(f"func (h *TypeHub) Stream{n}(vs []{t}) <-chan {t} {{ h.Rec.Add(\"Stream{n}\", h.conn(), vs); c := make(chan {t}); go func() {{ defer close(c); for _, v := range vs {{ select {{ case c <- v: case <-h.Context().Done(): return }} }} }}(); return c }}")
open(os.path.join(root, "types_gen.go"), "w").write("\n".join(out) + "\n")
