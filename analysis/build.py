"""Lowering of the witnesses: clang -> LLVM bitcode -> irdump -> JSON.  Nothing is executed."""
import fcntl
import json
import os
import re
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
INC = os.path.join(REPO, "include")
CLANG = "clang++"
LLVM_CONFIG = "llvm-config-18"


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def irdump():
    """build/irdump, compiled from tool/irdump.cpp when it is missing or older"""
    out = os.path.join(HERE, "build", "irdump")
    src = os.path.join(HERE, "tool", "irdump.cpp")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    with open(os.path.join(HERE, "build", "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
            return out
        flags = sh([LLVM_CONFIG, "--cxxflags"]).stdout.split()
        ld = sh([LLVM_CONFIG, "--ldflags"]).stdout.split()
        r = sh([CLANG, "-O1"] + flags + [src, "-o", out + ".tmp"] + ld + ["-lLLVM-18"])
        if r.returncode:
            raise BuildError("tool/irdump.cpp does not build:\n" + r.stderr[-2000:])
        os.rename(out + ".tmp", out)
    return out


def cflags(extra=()):
    return ["-std=gnu++17", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-w", "-I" + INC] + list(extra)


def witness_lines(err, src):
    """lines of the witness from which the ill-formed instantiations were requested"""
    lines = set()
    base = os.path.basename(src)
    last = None
    for l in err.split("\n"):
        m = re.match(r"(.*?):(\d+):\d+: (fatal error|error|note|warning): ", l)
        if not m:
            continue
        if m.group(3) in ("error", "fatal error"):
            last = None
        if os.path.basename(m.group(1)) == base and m.group(3) in ("error", "note") and last is None:
            last = int(m.group(2))
            lines.add(last)
    return lines


def lower(witness, tmp, tag, flags, keep=None):
    """(dump, [(entry line, first error)])"""
    src = os.path.join(HERE, "witness", witness)
    text = open(src).read().split("\n")
    dropped = []
    cur = src
    for attempt in range(12):
        bc = os.path.join(tmp, tag + ".bc")
        r = sh([CLANG] + cflags(flags) + ["-I" + os.path.join(HERE, "witness"), "-ferror-limit=0", "-emit-llvm", "-c", cur, "-o", bc])
        if r.returncode == 0:
            break
        bad = {n for n in witness_lines(r.stderr, cur) if "vpe_" in text[n - 1]}
        if not bad:
            raise BuildError("%s does not compile (%s):\n%s" % (witness, " ".join(flags), first_error(r.stderr)))
        for n in sorted(bad):
            dropped.append((text[n - 1].strip(), first_error(r.stderr)))
            text[n - 1] = ""
        cur = os.path.join(tmp, tag + "_" + witness)
        open(cur, "w").write("\n".join(text))
    else:
        raise BuildError("%s does not compile" % witness)
    js = os.path.join(tmp, tag + ".json")
    with open(js, "w") as f:
        r = subprocess.run([irdump(), bc, "vpe_"] + ([keep] if keep else []), stdout=f, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise BuildError("irdump failed on %s: %s" % (tag, r.stderr[-500:]))
    d = json.load(open(js))
    os.unlink(js)
    os.unlink(bc)
    return d, dropped


def first_error(err):
    for l in err.split("\n"):
        if " error: " in l:
            return l
    return err[:300]
