"""Builds a scratch copy of the parser generator on a small grammar and runs the emitted tables."""
import os, re, shutil, subprocess, sys, tempfile

HEADER = "%type <node> S E T F L\n%token <ival> ICONST IDENT\n"


def tables(gram):
    d = tempfile.mkdtemp(prefix="lrdemo")
    try:
        w = os.path.join(d, "w")
        os.mkdir(w)
        for f in ("Cargo.toml", "Cargo.lock"):
            if os.path.exists(f):
                shutil.copy(f, w)
        shutil.copytree("crates", os.path.join(w, "crates"))
        for r in os.listdir("."):
            if r.endswith(".md"):
                shutil.copy(r, w)
        open(os.path.join(w, "crates/parser-generator/resources/gram.y"), "w").write(gram)
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(d, "t"), CARGO_PROFILE_DEV_DEBUG="0")
        b = subprocess.run(["cargo", "build", "-q", "--offline", "-p", "parser-generator"], cwd=w, env=env, capture_output=True, text=True)
        if b.returncode:
            print(b.stderr[-2000:])
            sys.exit(3)
        os.remove(os.path.join(w, "crates/postgresql-cst-parser/src/parser.rs"))
        r = subprocess.run([os.path.join(d, "t/debug/parser-generator")], cwd=w, env=env, capture_output=True, text=True, timeout=100)
        p = os.path.join(w, "crates/postgresql-cst-parser/src/parser.rs")
        if r.returncode or not os.path.exists(p):
            print("FAILED: the generator stops:", r.stderr[-500:])
            sys.exit(1)
        return Tables(open(p).read())
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Tables:
    def __init__(self, src):
        def arr(n):
            m = re.search(r"static %s:\s*\[[^\]]*\]\s*=\s*\[([^\]]*)\]" % n, src)
            return [int(x) for x in m.group(1).replace("\n", " ").split(",") if x.strip()]
        self.ac, self.a, self.ai, self.ad = arr("ACTION_CHECK_TABLE"), arr("ACTION_TABLE"), arr("ACTION_TABLE_INDEX"), arr("ACTION_DEF_RULE_TABLE")
        self.gc, self.g, self.gi = arr("GOTO_CHECK_TABLE"), arr("GOTO_TABLE"), arr("GOTO_TABLE_INDEX")
        self.rules = [(n, int(l)) for n, l in re.findall(r'name:\s*"([^"]*)",\s*len:\s*(\d+)', src)]
        self.tok, self.nt = {}, {}
        for s, i in re.findall(r'RAW\(s\) if s == "([^"]*)" => (\d+)', src):
            self.tok.setdefault(s, int(i))
        for s, i in re.findall(r'TokenKind::(\w+) => (\d+)', src):
            self.tok.setdefault(s, int(i))
        m = src[src.index("rule_name_to_component_id"):]
        for s, i in re.findall(r'"(\w+)" => (\d+)', m):
            self.nt.setdefault(s, int(i))

    def action(self, s, c):
        i = self.ai[s] + c
        if self.ac[i] != c:
            return 0x7FFF
        return self.ad[s] if self.a[i] == 0x7FFE else self.a[i]

    def parse(self, toks):
        """The bracketed tree, or None for a syntax error."""
        toks = [self.tok[t] for t in toks] + [self.tok["$end"]]
        names = {v: k for k, v in self.tok.items()}
        st, out, k = [0], [], 0
        for _ in range(1000):
            a = self.action(st[-1], toks[k])
            if a == 0x7FFF:
                return None
            if a == 0:
                return out[-1]
            if a > 0:
                out.append(names[toks[k]])
                st.append(a - 1)
                k += 1
            else:
                n, l = self.rules[-a - 1]
                body = out[len(out) - l:] if l else []
                del out[len(out) - l:], st[len(st) - l:]
                i = self.gi[st[-1]] + self.nt[n]
                if self.gc[i] != self.nt[n]:
                    return None
                out.append("(" + " ".join(body) + ")" if l > 1 else "".join(body))
                st.append(self.g[i])
        return "loop"


def expect(t, toks, want):
    try:
        got = t.parse(toks.split())
    except (IndexError, KeyError, ValueError) as e:
        got = "%s: %s" % (type(e).__name__, e)
    if got != want:
        print("FAILED: %s gives %s instead of %s" % (toks, got, want))
        sys.exit(1)
