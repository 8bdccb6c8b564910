#!/usr/bin/env python3
"""Regenerate the harness table in harness/src/lib.rs from the `pub fn h_*` of every module."""
import glob, os, re
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness/src")
p = d + "/lib.rs"
s = open(p).read()
mods, names = [], []
for f in sorted(glob.glob(d + "/*.rs")):
    m = os.path.basename(f)[:-3]
    if m in ("lib", "nk", "replay", "util", "node", "world"):
        continue
    ns = re.findall(r"^pub fn (h_\w+)\(\)", open(f).read(), re.M)
    mods.append(m)
    names += ["    %s::%s,\n" % (m, n) for n in ns]
i = s.index("// -- generated")
s = s[:i] + "// -- generated by gen_lib.py\n" + "".join("pub mod %s;\n" % m for m in mods) + "harnesses! {\n" + "".join(names) + "}\n"
open(p, "w").write(s)
