"""Compiles /repo's current sources to LLVM bitcode and runs the exporter."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
IRX = os.path.join(VERIF, "build", "irx")
CACHE = os.path.join(VERIF, "build", "cache")
CLANG = "clang++"
FLAGS = ["-std=gnu++17", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-exceptions", "-g", "-fstandalone-debug",
         "-fno-discard-value-names", "-pthread", "-w"]


class BuildError(Exception):
    pass


def build_irx():
    src = os.path.join(VERIF, "tool", "irx.cc")
    os.makedirs(os.path.dirname(IRX), exist_ok=True)
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    stamp = IRX + ".sha"
    if os.path.exists(IRX) and os.path.exists(stamp) and open(stamp).read() == h:
        return IRX
    with open(os.path.join(VERIF, "build", "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(IRX) and os.path.exists(stamp) and open(stamp).read() == h:
            return IRX
        p = subprocess.run(["g++", "-O1", "-std=c++17", "-fno-rtti", "-I/usr/lib/llvm-18/include", src, "-o", IRX,
                            "-L/usr/lib/llvm-18/lib", "-lLLVM-18"], capture_output=True, text=True)
        if p.returncode:
            raise BuildError("irx does not build:\n" + p.stderr)
        open(stamp, "w").write(h)
    return IRX


def tree_hash(extra=""):
    h = hashlib.sha256()
    h.update(extra.encode())
    for f in sorted(os.listdir(REPO)):
        if f.endswith((".hh", ".cc", ".c", ".h")):
            h.update(f.encode())
            h.update(open(os.path.join(REPO, f), "rb").read())
    h.update(" ".join(FLAGS).encode())
    return h.hexdigest()[:24]


def config_dir():
    """directory holding config.h: /repo's own, else the committed fallback"""
    if os.path.exists(os.path.join(REPO, "config.h")):
        return REPO
    return os.path.join(VERIF, "sa", "fallback")


def bitcode(tus, variant=""):
    """compile the named translation units; returns their .bc paths.
    variant: extra text compiled before the unit (file under sa/variants)"""
    th = tree_hash(variant and open(os.path.join(VERIF, "sa", "variants", variant)).read())
    out = os.path.join(CACHE, th + ("-" + variant if variant else ""))
    os.makedirs(out, exist_ok=True)

    def one(tu):
        own = hashlib.sha256(open(tu, "rb").read()).hexdigest()[:8] if tu.startswith("/") else ""
        dst = os.path.join(out, tu.replace("/", "_") + own + ".bc")
        if os.path.exists(dst):
            return dst
        tmp = dst + ".%d.tmp" % os.getpid()
        cfg = config_dir()
        cmd = [CLANG] + FLAGS + ["-I", REPO, "-I", cfg, "-include", os.path.join(cfg, "config.h")]
        if variant:
            cmd += ["-include", os.path.join(VERIF, "sa", "variants", variant)]
        src = tu if tu.startswith("/") else os.path.join(REPO, tu)
        cmd += ["-emit-llvm", "-c", src, "-o", tmp]
        p = subprocess.run(cmd, capture_output=True, text=True, cwd=REPO)
        if p.returncode:
            raise BuildError("%s does not compile:\n%s" % (tu, p.stderr[-3000:]))
        os.rename(tmp, dst)
        return dst
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, tus))


def export(name, tus, spec, variant=""):
    """flatten and export the functions a spec selects; returns the JSON path"""
    build_irx()
    bcs = bitcode(tus, variant)
    h = hashlib.sha256()
    h.update(spec.encode())
    h.update(open(IRX + ".sha").read().encode())
    h.update(" ".join(bcs).encode())
    out = os.path.join(CACHE, "%s-%s.json" % (name, h.hexdigest()[:20]))
    if os.path.exists(out):
        return out
    sp = out + ".spec.%d" % os.getpid()
    open(sp, "w").write(spec)
    tmp = out + ".tmp.%d" % os.getpid()
    p = subprocess.run([IRX, "--spec", sp, "--out", tmp] + bcs, capture_output=True, text=True)
    os.unlink(sp)
    if p.returncode:
        raise BuildError("irx failed on %s:\n%s" % (name, p.stderr[-3000:]))
    os.rename(tmp, out)
    return out


def prune_cache(limit=40):
    """keep the cache of old trees small"""
    try:
        es = sorted((os.path.getmtime(os.path.join(CACHE, e)), e) for e in os.listdir(CACHE))
    except FileNotFoundError:
        return
    for _, e in es[:-limit]:
        p = os.path.join(CACHE, e)
        if os.path.isdir(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            try:
                os.unlink(p)
            except OSError:
                pass
