"""Builds the compiler driver, runs it over /repo's current tree, loads the facts."""
import json, os, subprocess, sys, time, hashlib, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SPF_REPO", "/repo")
CACHE = os.environ.get("SPF_CACHE", os.path.join(VERIF, ".cache"))
CRATES = ["parasol_concurrency", "sunscreen_math", "sunscreen_tfhe", "mux_circuits",
          "parasol_runtime", "parasol_cpu", "sunscreen_math_macros", "parasol_cpu_macros"]


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_PROFILE") or k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN",
                                                  "CARGO_TARGET_DIR", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_RUSTC_WRAPPER"):
            e.pop(k)
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTC_WRAPPER"] = ""
    return e


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def tree_hash():
    """Hash of every source file the build can see in REPO (tracked or not, minus target)."""
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "node_modules"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode())
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    for f in ("driver/src/main.rs", "driver/Cargo.toml"):
        with open(os.path.join(VERIF, f), "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def build_driver():
    d = os.path.join(VERIF, "driver")
    e = _env()
    e["CARGO_TARGET_DIR"] = os.path.join(CACHE, "driver-target")
    r = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=d, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("driver build failed:\n" + r.stdout[-4000:])
    return os.path.join(CACHE, "driver-target", "release", "spf-facts")


def build_facts():
    """Analyse the current tree; returns the directory holding one JSON per crate."""
    os.makedirs(CACHE, exist_ok=True)
    import fcntl
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        th = tree_hash()
        out = os.path.join(CACHE, "facts-" + th)
        if os.path.exists(os.path.join(out, "DONE")):
            return out
        drv = build_driver()
        for d in os.listdir(CACHE):
            if d.startswith("facts-"):
                shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
        os.makedirs(out)
        e = _env()
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["SPF_FACTS_DIR"] = out
        tgt = os.path.join(CACHE, "check-target")
        e["CARGO_TARGET_DIR"] = tgt
        # cargo's freshness cache would skip the driver for workspace crates: drop their fingerprints
        for sub in ("release/.fingerprint", "release/build"):
            p = os.path.join(tgt, sub)
            if os.path.isdir(p):
                for n in os.listdir(p):
                    if any(n == c or n.startswith(c + "-") for c in CRATES + ["benchmark_system_info", "hello_world", "basic_add"]):
                        shutil.rmtree(os.path.join(p, n), ignore_errors=True)
        r = subprocess.run(["cargo", "check", "--offline", "--release", "--workspace"], cwd=REPO, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("analysis build of %s failed:\n%s" % (REPO, r.stdout[-6000:]))
        missing = [c for c in CRATES if not os.path.exists(os.path.join(out, c + ".json"))]
        if missing:
            # warm target dir: rebuild from scratch once
            shutil.rmtree(tgt, ignore_errors=True)
            r = subprocess.run(["cargo", "check", "--offline", "--release", "--workspace"], cwd=REPO, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            missing = [c for c in CRATES if not os.path.exists(os.path.join(out, c + ".json"))]
            if r.returncode or missing:
                raise BuildError("no facts for crates %s" % missing)
        open(os.path.join(out, "DONE"), "w").write(th)
        return out


class Ty:
    __slots__ = ("k", "s", "p", "a", "m", "key", "n", "c", "_h")

    def __init__(self, k, s, p=None, a=(), m=None, key=None, n=None, c=()):
        self.k, self.s, self.p, self.a, self.m, self.key, self.n, self.c = k, s, p, a, m, key, n, c

    def __repr__(self):
        return "Ty(%s)" % self.s

    def peel(self):
        t = self
        while t.k in ("ref", "ptr"):
            t = t.a[0]
        return t

    def is_mut_ref(self):
        return self.k in ("ref", "ptr") and bool(self.m)


class Program:
    def __init__(self, facts_dir):
        self.fns = {}      # key -> fn dict
        self.by_name = {}  # pretty name -> [fn]
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.crate_of = {}
        for c in CRATES:
            d = json.load(open(os.path.join(facts_dir, c + ".json")))
            tys = self._types(d["types"])
            for f in d["fns"]:
                f["crate"] = c
                f["tys"] = tys
                f["lt"] = [tys[i] for i in f["locals"]]
                if f.get("self") is not None:
                    f["selfty"] = tys[f["self"]]
                self.fns[f["key"]] = f
                self.by_name.setdefault(f["n"], []).append(f)
                for i, p in enumerate(f.get("promoted", ())):
                    p["tys"] = tys
                    p["lt"] = [tys[j] for j in p["locals"]]
                    p["crate"] = c
                    p["key"] = "%s#promoted%d" % (f["key"], i)
                    p["n"] = "%s#promoted%d" % (f["n"], i)
            for a in d["adts"]:
                a["crate"] = c
                for v in a["v"]:
                    v["f"] = [(n, tys[t], vis) for n, t, vis in v["f"]]
                self.adts[a["n"]] = a
            for i in d["impls"]:
                i["crate"] = c
                i["selfty"] = tys[i["self"]]
                self.impls.append(i)
            for t in d["traits"]:
                self.traits[t["n"]] = t
        self.impl_index = {}
        for i in self.impls:
            if i.get("trait") and not i.get("neg"):
                self.impl_index.setdefault(i["trait"], []).append(i)

    def _types(self, raw):
        out = [None] * len(raw)
        busy = set()

        def get(i):
            if out[i] is not None:
                return out[i]
            if i in busy:
                return Ty("other", raw[i]["s"])
            busy.add(i)
            r = raw[i]
            out[i] = Ty(r["k"], r["s"], r.get("p"), tuple(get(j) for j in r.get("a", ())), r.get("m"), r.get("key"),
                        r.get("n"), tuple(r.get("c", ())))
            busy.discard(i)
            return out[i]
        sys.setrecursionlimit(1000000)
        for i in range(len(raw)):
            get(i)
        return out

    def fn(self, name):
        """Unique function by pretty name (None when absent)."""
        l = self.by_name.get(name, [])
        return l[0] if len(l) == 1 else (l[0] if l else None)

    def find(self, suffix, crate=None):
        """All fns whose pretty name ends with suffix (path-segment aligned)."""
        r = []
        for n, l in self.by_name.items():
            if n == suffix or n.endswith("::" + suffix):
                r += [f for f in l if crate is None or f["crate"] == crate]
        return r


def load():
    return Program(build_facts())
