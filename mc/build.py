"""Builds the execution server from the current /repo working tree.

Nothing is taken from /repo's build products: flex and bison are run here on
/repo/src/lex.l and parse.y, and every other src/*.c is compiled from a private
copy.  Builds are cached under /verif/.build by a hash of everything they read.
"""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys

REPO = os.environ.get("MC_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BUILD = os.path.join(ROOT, ".build")

# relative: the installed configuration of a run is a file of its scratch directory
SYSCONFDIR = "mc-sysconf"
VARIANTS = {
    "plain": ["-O1", "-g"],
    "san": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
            "-fno-omit-frame-pointer", "-DMC_SAN=1"],
}


class BuildError(Exception):
    pass


def _sources():
    src = os.path.join(REPO, "src")
    out = []
    for n in sorted(os.listdir(src)):
        if n in ("lex.c", "parse.c", "parse.h"):
            continue
        if n.endswith((".c", ".h", ".l", ".y")):
            out.append(n)
    return src, out


def _run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def build(variant):
    """Returns the path of the server executable for this variant."""
    src, names = _sources()
    version = "0"
    try:
        m = re.search(r"AC_INIT\(\[[^\]]*\],\s*\[([^\]]*)\]", open(os.path.join(REPO, "configure.ac")).read())
        if m:
            version = m.group(1)
    except OSError:
        pass
    h = hashlib.sha256()
    flags = VARIANTS[variant]
    h.update(repr((variant, flags, version, SYSCONFDIR)).encode())
    for n in names:
        h.update(n.encode() + b"\0" + open(os.path.join(src, n), "rb").read() + b"\0")
    server_src = os.path.join(HERE, "server.c")
    h.update(open(server_src, "rb").read())
    key = h.hexdigest()[:24]
    os.makedirs(BUILD, exist_ok=True)
    final = os.path.join(BUILD, "%s-%s" % (variant, key))
    exe = os.path.join(final, "server")
    if os.path.exists(exe):
        return exe
    with open(os.path.join(BUILD, "lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        # drop older builds of this variant (keep the three newest)
        old = sorted((d for d in os.listdir(BUILD) if d.startswith(variant + "-")),
                     key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in old[:-8]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        tmp = final + ".tmp%d" % os.getpid()
        os.makedirs(tmp)
        for n in names:
            shutil.copy(os.path.join(src, n), os.path.join(tmp, n))
        shutil.copy(server_src, os.path.join(tmp, "mc_server.c"))
        with open(os.path.join(tmp, "config.h"), "w") as f:
            f.write('#define VERSION "%s"\n#define PACKAGE_VERSION "%s"\n#define PACKAGE "selint"\n'
                    '#define PACKAGE_NAME "selint"\n#define PACKAGE_STRING "selint %s"\n' % (version, version, version))
        _run(["bison", "-y", "-d", "-Wno-yacc", "-o", "parse.c", "parse.y"], tmp)
        _run(["flex", "-o", "lex.c", "lex.l"], tmp)
        cs = sorted(n for n in os.listdir(tmp) if n.endswith(".c"))
        base = ["gcc", "-w", "-std=gnu11", "-I.", '-DSYSCONFDIR="%s"' % SYSCONFDIR] + flags
        procs = []
        for c in cs:
            cmd = base + ["-c", c, "-o", c[:-2] + ".o"]
            if c != "mc_server.c":
                cmd.append("-Dmain=selint_main")
            procs.append((cmd, subprocess.Popen(cmd, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                                text=True)))
        bad = None
        for cmd, p in procs:
            o, _ = p.communicate()
            if p.returncode != 0:
                bad = "%s failed:\n%s" % (" ".join(cmd), o[-4000:])
        if bad:
            shutil.rmtree(tmp, ignore_errors=True)
            raise BuildError(bad)
        _run(base + ["-o", "server"] + [c[:-2] + ".o" for c in cs] + ["-Wl," + ",".join("--wrap=" + f for f in ("fopen", "access", "opendir", "stat", "lstat", "fts_open")), "-lconfuse"], tmp)
        for n in os.listdir(tmp):
            if n != "server":
                os.unlink(os.path.join(tmp, n))
        try:
            os.rename(tmp, final)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return exe


if __name__ == "__main__":
    for v in sys.argv[1:] or list(VARIANTS):
        print(build(v))
