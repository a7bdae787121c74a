#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new[, count])], demo=...)].
Writes seeded/<id>/ from edits applied to a scratch clone of /repo (/tmp/wt)."""
import json, os, subprocess, sys
WT = __import__("os").environ.get("WT", "/tmp/wt")
HEAD = '''#!/bin/bash
# cwd: the repository root, after the build
set -u
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
cargo build -q --offline -p postgresql-cst-parser --bin parse 2>/dev/null || exit 3
P="${CARGO_TARGET_DIR:-target}/debug/parse"
out() { printf '%b' "$1" | "$P" 2>&1; }
bad() { echo "FAILED: $*"; exit 1; }
has() { out "$1" | grep -qF -- "$2" || bad "expected '$2' for: $1"; }
hasnt() { out "$1" | grep -qF -- "$2" && bad "unexpected '$2' for: $1"; return 0; }
'''


def sh(*a):
    return subprocess.run(a, check=True, capture_output=True, text=True).stdout


g = {}
exec(open(sys.argv[1]).read(), g)
only = set(sys.argv[2:])
sh("git", "-C", WT, "checkout", "-q", "--", ".")
sh("git", "-C", WT, "pull", "-q", "/repo", "HEAD")
for s in g["SEEDS"]:
    if only and s["id"] not in only:
        continue
    sh("git", "-C", WT, "checkout", "-q", "--", ".")
    for ed in s["edits"]:
        f, old, new = ed[:3]
        p = os.path.join(WT, f)
        t = open(p).read()
        n = t.count(old)
        k = ed[3] if len(ed) > 3 else 1
        if k == "all":
            assert n, (s["id"], "not found", old)
            t = t.replace(old, new)
        elif isinstance(k, tuple):      # ("nth", i)
            parts = t.split(old)
            assert len(parts) > k[1] + 1, (s["id"], len(parts))
            t = old.join(parts[:k[1] + 1]) + new + old.join(parts[k[1] + 1:])
        else:
            assert n == k, (s["id"], n, old)
            t = t.replace(old, new)
        open(p, "w").write(t)
    d = os.path.join("/verif/seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    diff = sh("git", "-C", WT, "diff")
    assert diff
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write((HEAD if not s.get("raw") else "#!/bin/bash\n") + s["demo"].strip() + "\n" + ("exit 0\n" if not s.get("raw") else ""))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for name, text in s.get("files", {}).items():
        os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
        open(os.path.join(d, name), "w").write(text)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(s["id"], len(diff))
sh("git", "-C", WT, "checkout", "-q", "--", ".")
