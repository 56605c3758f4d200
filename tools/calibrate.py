#!/usr/bin/env python3
"""Rewrites mc/src/bounds.rs from the metrics of the runs named on the command line
(output of MC_CAL=1 MC_METRICS=1 bash run.sh <id> <tier>). Not used by any check."""
import re, sys
t = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"\s+metric cal (.*) = (\S+)", l)
        if m:
            t[m[1]] = max(t.get(m[1], 0.0), float(m[2]))
p = "/verif/mc/src/bounds.rs"
s = """//! Largest values measured over the families of C10 and C25 (tools/calibrate.py).
pub fn bound(k: &str) -> Option<f64> {
    TABLE.binary_search_by(|x| x.0.cmp(k)).ok().map(|i| TABLE[i].1)
}
const TABLE: &[(&str, f64)] = &[
"""
for k in sorted(t):
    v = t[k]
    s += '    ("%s", %s),\n' % (k, ("%.0f.0" % v) if v == int(v) and v > 1 else "%.4e" % v)
open(p, "w").write(s + "];\n")
