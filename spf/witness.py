"""Type-level witnesses: small programs that must (not) type-check against the crate metadata of the current tree."""
import glob, os, subprocess, tempfile, re, shutil
from . import facts as F


def _dirs():
    r = os.path.join(F.CACHE, "check-target", "release")
    return [os.path.join(r, "deps")] + glob.glob(os.path.join(r, "build", "*", "*", "out"))


def rmeta(crate):
    l = [p for d in _dirs() for p in glob.glob(os.path.join(d, "lib%s-*.rmeta" % crate))]
    return max(l, key=os.path.getmtime) if l else None


def compile_one(crate, src, extra=()):
    """-> (ok, set of error codes, stderr)"""
    ds = [x for d in _dirs() for x in ("-L", "dependency=" + d)]
    m = rmeta(crate)
    if m is None:
        raise F.BuildError("no metadata for crate " + crate)
    tmp = tempfile.mkdtemp(prefix="w", dir=F.CACHE)
    try:
        p = os.path.join(tmp, "w.rs")
        open(p, "w").write(src)
        r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--emit=metadata", "-Awarnings", "--out-dir", tmp,
                            "--extern", "%s=%s" % (crate, m), p] + ds + list(extra),
                           env=F._env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        codes = set(re.findall(r"error\[(E\d+)\]", r.stdout))
        return r.returncode == 0, codes, r.stdout
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def witness(ctx, rid, name, crate, bad, good, codes):
    """`bad` must be rejected with one of the codes, its twin `good` must compile."""
    ok, _, out = compile_one(crate, good)
    if not ok:
        ctx.bad(rid, name + "#twin", "the legal twin program no longer type-checks:\n" + out[:1500], "witness " + name)
        return
    ok, got, out = compile_one(crate, bad)
    if ok:
        ctx.bad(rid, name, "a program that must be rejected type-checks:\n" + bad.strip(), "witness " + name)
    elif not (got & set(codes)):
        ctx.bad(rid, name + "#code", "rejected for another reason (%s):\n%s" % (sorted(got), out[:1500]), "witness " + name)
    else:
        ctx.ok(rid, "%s rejected with %s" % (name, sorted(got & set(codes))))
