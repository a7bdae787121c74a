"""Obtains the resolved program (monomorphic MIR, ADTs, evaluated statics) of /repo's current tree.

The dumper (driver/dump.rs) is compiled with the nightly toolchain and injected as RUSTC_WORKSPACE_WRAPPER
under `cargo +nightly check`.  Dumps are cached under .work keyed by a hash of every source file, so a check
that runs after another on the same tree reuses them; on a fresh copy everything is rebuilt."""
import fcntl, hashlib, json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")

CONFIGS = {
    # name: (cargo args, expected dump files)
    "default": (["-p", "postgresql-cst-parser"], ["postgresql_cst_parser-lib"]),
    "regex": (["-p", "postgresql-cst-parser", "--features", "regex-match"], ["postgresql_cst_parser-lib"]),
    "keep": (["-p", "postgresql-cst-parser", "--no-default-features"], ["postgresql_cst_parser-lib"]),
    "gen": (["-p", "automata", "-p", "lexer-generator", "-p", "parser-generator", "-p", "postgresql-cst-parser-wasm"],
            ["automata-lib", "lexer_generator-bin", "parser_generator-bin", "postgresql_cst_parser_wasm-cdylib"]),
}
MEMBERS = ["automata", "lexer-generator", "parser-generator", "postgresql-cst-parser", "postgresql-cst-parser-wasm"]


class AnalysisError(Exception):
    """The analysis could not obtain or understand its subject."""
    build = False


class BuildError(AnalysisError):
    """The tree does not build."""
    build = True


def sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "crates")):
        dirs[:] = sorted(d for d in dirs if d not in ("target", "pkg", "node_modules", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".l", ".y", ".h", ".c")):
                out.append(os.path.join(root, f))
    out.append(os.path.join(REPO, "Cargo.toml"))
    return out


def tree_hash():
    h = hashlib.sha256()
    for p in sources() + [os.path.join(VERIF, "driver", "dump.rs")]:
        h.update(os.path.relpath(p, "/").encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\1")
    return h.hexdigest()[:24]


def _sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def _driver():
    src = os.path.join(VERIF, "driver", "dump.rs")
    with open(src, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    exe = os.path.join(WORK, "vpdump-" + h)
    if not os.path.exists(exe):
        r = _sh(["rustc", "+nightly", "-O", "--edition", "2021", "-o", exe + ".tmp", src])
        if r.returncode != 0:
            raise BuildError("dumper does not build:\n" + r.stdout[-4000:])
        os.rename(exe + ".tmp", exe)
    return exe


def _lib_path():
    return os.path.join(_sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip(), "lib")


def ensure(config):
    """Directory with the dumps of `config` for the current tree."""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_hash()
        d = os.path.join(WORK, "dumps", key, config)
        args, files = CONFIGS[config]
        if all(os.path.exists(os.path.join(d, f + ".json")) for f in files):
            return d
        base = os.path.join(WORK, "dumps")
        if os.path.isdir(base):  # keep only a few trees
            olds = sorted((os.path.getmtime(os.path.join(base, x)), x) for x in os.listdir(base) if x != key)
            for _, x in olds[:-3]:
                shutil.rmtree(os.path.join(base, x), ignore_errors=True)
        exe = _driver()
        if not os.path.exists(os.path.join(REPO, "Cargo.lock")) and os.path.exists("/opt/vp/Cargo.lock"):
            shutil.copy("/opt/vp/Cargo.lock", os.path.join(REPO, "Cargo.lock"))
        tgt = os.path.join(WORK, "target")
        # cargo must not skip the wrapper on a warm target directory (old and new layout of its build directory)
        for fp in (os.path.join(tgt, "debug", ".fingerprint"), os.path.join(tgt, "debug", "build")):
            if os.path.isdir(fp):
                for x in os.listdir(fp):
                    if x in MEMBERS or any(x.startswith(m + "-") for m in MEMBERS):
                        shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
        env = dict(os.environ)
        for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
            env.pop(k, None)
        env.update(RUSTC_WORKSPACE_WRAPPER=exe, CARGO_TARGET_DIR=tgt, VP_DUMP_DIR=d, CARGO_INCREMENTAL="0",
                   LD_LIBRARY_PATH=_lib_path() + ":" + env.get("LD_LIBRARY_PATH", ""), RUSTUP_TOOLCHAIN="nightly")
        r = _sh(["cargo", "+nightly", "check", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml")] + args,
                env=env, cwd=REPO)
        if r.returncode != 0 or not all(os.path.exists(os.path.join(d, f + ".json")) for f in files):
            raise BuildError("cargo check with the dumper failed for config %s:\n%s" % (config, r.stdout[-4000:]))
        return d


_loaded = {}


def load(config, unit):
    k = (config, unit)
    if k not in _loaded:
        p = os.path.join(ensure(config), unit + ".json")
        with open(p) as f:
            _loaded[k] = Program(json.load(f), config, unit)
    return _loaded[k]


def shipped(config="default"):
    return load(config, "postgresql_cst_parser-lib")


class Program:
    def __init__(self, j, config, unit):
        self.config, self.unit = config, unit
        self.crate = j["crate"]
        self.fns, self.statics, self.adts = j["fns"], j["statics"], j["adts"]
        self.generic, self.items, self.unsafe_fns, self.impls = j["generic"], j["items"], j["unsafe_fns"], j["impls"]
        self.safety = j["safety"]
        self.by_def = {}
        for k, f in self.fns.items():
            f["id"] = k
            self.by_def.setdefault(f["def"], []).append(f)

    def find(self, suffix):
        """Function definitions whose path is `suffix` or ends in `::suffix`."""
        return [f for d, fs in self.by_def.items() for f in fs if d == suffix or d.endswith("::" + suffix)]

    def one(self, suffix):
        r = self.find(suffix)
        if len(r) != 1:
            raise AnalysisError("expected exactly one function %s in %s, found %d" % (suffix, self.unit, len(r)))
        return r[0]

    def adt(self, suffix):
        r = [a for n, a in self.adts.items() if n == suffix or n.endswith("::" + suffix)]
        if len(r) != 1:
            raise AnalysisError("expected exactly one type %s, found %d" % (suffix, len(r)))
        return r[0]


def where(f, line=None):
    p = f["file"]
    return "%s:%s (%s)" % (os.path.relpath(p, REPO) if p.startswith("/") else p, line or f["line"], f["def"])
