"""Builds a scratch copy of a generator and runs it several times: the text it writes must be the same every time."""
import os, shutil, subprocess, sys, tempfile


def texts(package, outs, gram=None, runs=6):
    d = tempfile.mkdtemp(prefix="detdemo")
    try:
        w = os.path.join(d, "w")
        os.mkdir(w)
        for f in ("Cargo.toml", "Cargo.lock"):
            if os.path.exists(f):
                shutil.copy(f, w)
        shutil.copytree("crates", os.path.join(w, "crates"))
        for r in os.listdir("."):
            if r.endswith(".md"):
                shutil.copy(r, w)
        if gram:
            open(os.path.join(w, "crates/parser-generator/resources/gram.y"), "w").write(gram)
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(d, "t"), CARGO_PROFILE_DEV_DEBUG="0", CARGO_PROFILE_DEV_OPT_LEVEL="1")
        b = subprocess.run(["cargo", "build", "-q", "--offline", "-p", package], cwd=w, env=env, capture_output=True, text=True)
        if b.returncode:
            print(b.stderr[-2000:])
            sys.exit(3)
        res = []
        for _ in range(runs):
            for o in outs:
                p = os.path.join(w, o)
                if os.path.exists(p):
                    os.remove(p)
            r = subprocess.run([os.path.join(d, "t/debug", package)], cwd=w, env=env, capture_output=True, text=True, timeout=100)
            if r.returncode:
                print("FAILED: the generator stops:", r.stderr[-500:])
                sys.exit(1)
            res.append([open(os.path.join(w, o)).read() for o in outs])
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(*a, **k):
    r = texts(*a, **k)
    for i, x in enumerate(r):
        if x != r[0]:
            print("FAILED: run %d writes something else than run 1" % (i + 1))
            sys.exit(1)
    print("the same text in %d runs" % len(r))
