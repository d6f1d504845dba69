"""Input that cannot be read never passes for clean: every failing open and read."""
from core import Case, Space
from fixture import FILES, FINDINGS
from stmts import only

RULE = ("Every open and every read of every file of a policy fails once or from then on, with reads of 1 to 4096 bytes, for scanned and "
        "context files; every pair of failing files; every size of reads without a failure; every unreadable kind of file in every place.")
ASSUMPTIONS = ["files are read through stdio (as in the code under test); output does not fail"]

POL = sorted(p for p in FILES if "/" in p)
SUP = sorted(p for p in FILES if "/" not in p)
CLEAN = {
    "a.te": "policy_module(a,1.0)\n" + "".join("type a%d_t;\n" % i for i in range(12)),
    "b.if": "".join("## <summary>x</summary>\ninterface(`b%d_i',`\n\tallow $1 self:file getattr;\n')\n" % i for i in range(4)),
    "c.fc": "".join("/usr/c%d\t--\tgen_context(system_u:object_r:a%d_t,s0)\n" % (i, i) for i in range(6)),
}


def points(text, chunk):
    """at most this many I/O points: the open, the reads and the read finding the end (twice)"""
    return 3 + (len(text) + chunk - 1) // chunk


def failed(r, what):
    """the run must not look like one that succeeded"""
    if r.code == 0 or r.code == 65:
        return "%s: exit status %d" % (what, r.code)
    if r.code < 0 or r.code == 99:
        return "%s: crash" % what
    bad = [x for x in r.locs() if not x[2].startswith("F-")]
    if bad:
        return "%s: findings %s" % (what, bad[:3])
    if r.summary is not None:
        return "%s: summary printed" % what
    if "rror" not in r.out + r.err:
        return "%s: no message" % what
    return None


def delivered(r, k):
    return r.points > k


def faults(files, argv, need, chunks, kinds):
    """every I/O point of every file that is needed"""
    def body(c):
        p = c.pick(need)
        chunk = c.pick(chunks)
        kind = c.pick(kinds)
        k = c.choose(points(files[p], chunk))

        def judge(rs):
            r = rs[0]
            if not delivered(r, k):
                return None
            return failed(r, "%s, I/O point %d" % (p, k))
        return Case(dict(files), [{"argv": argv, "fault_kind": kind, "fault_k": k, "fault_path": p, "chunk": chunk}], judge)
    return body


def any_point(files, argv, chunk, n):
    """failing points counted over the whole run, support files included"""
    def body(c):
        k = c.choose(n)
        kind = 2 + c.choose(2)

        def judge(rs):
            r, ref = rs
            if r.code < 0 or r.code == 99:
                return "point %d: crash" % k
            if not delivered(r, k):
                return None if r.locs() == ref.locs() and r.code == ref.code else "no fault, other result"
            if r.code == 0 and "Warning" in r.out:
                # a support file
                return None if kind == 2 else "point %d and later: exit status 0" % k
            return failed(r, "point %d" % k)
        return Case(dict(files), [{"argv": argv, "fault_kind": kind, "fault_k": k, "chunk": chunk}, argv], judge)
    return body


def support(c):
    """a support file that cannot be read: the run fails, or says so and knows no more than what was read"""
    p = c.pick(SUP)
    chunk = c.pick([1, 7, 64, 4096])
    kind = 2 + c.choose(2)
    k = c.choose(points(FILES[p], chunk))
    argv = ["-s", "-r", "."]
    runs = [{"argv": argv, "fault_kind": kind, "fault_k": k, "fault_path": p, "chunk": chunk}]

    def judge(rs):
        r = rs[0]
        if not delivered(r, k):
            return None if r.locs() == FINDINGS and r.code == 0 else "no fault, other result"
        if r.code != 0:
            return failed(r, "%s, point %d" % (p, k))
        if "Warning" not in r.out:
            return "%s, point %d: not mentioned" % (p, k)
        # nothing but findings that need the file may change
        other = [x for x in FINDINGS if x[2] not in DEPENDS[p]]
        got = [x for x in r.locs() if x[2] not in DEPENDS[p] and not x[2].startswith("F-")]
        if got != other:
            return "%s, point %d: other findings changed" % (p, k)
        return None
    return Case(dict(FILES), runs, judge)


DEPENDS = {"modules.conf": {"W-005", "W-010"}, "obj_perm_sets.spt": {"S-009", "S-010", "E-007", "C-005"},
           "access_vectors": {"E-007", "E-008", "S-009", "S-010"}}


def pairs(c):
    """two files fail"""
    a = c.pick(POL + SUP)
    b = c.pick(POL)
    if a == b:
        return None
    f = dict(FILES)
    f[b] = (2, "nowhere")
    k = c.choose(points(FILES[a], 64))

    def judge(rs):
        return failed(rs[0], "%s and %s" % (a, b))
    return Case(f, [{"argv": ["-s", "-r", "-S", "."], "fault_kind": 2, "fault_k": k, "fault_path": a, "chunk": 64}], judge)


def short_reads(c):
    """reads returning few bytes change nothing"""
    chunk = c.pick(list(range(1, 130)) + [255, 256, 4095, 8191, 8192, 100000])
    argv = c.pick([["-s", "-r", "-S", "."], ["--context=kernel", "-r", "apps"], ["-r", "-v", "."]])

    def judge(rs):
        a, b = rs
        return None if a.out == b.out and a.code == b.code and len(a.locs()) > 20 else "output depends on the size of reads"
    return Case(dict(FILES), [{"argv": argv, "fault_kind": 1, "chunk": chunk}, argv], judge)


KINDS = {"dangling": (2, "nowhere"), "loop": None, "directory-link": (2, "../dir"), "unreadable": (2, "/proc/self/mem")}


def unreadable(c):
    """files that cannot be opened or read at all, in every position"""
    suffix = c.pick(["te", "if", "fc"])
    kind = c.pick(sorted(KINDS))
    n = c.choose(4)
    pos = c.choose(n + 1)
    mode = c.pick(["scan", "given", "context"])
    opt = c.pick([[], ["-S"], ["-F"], ["--summary-only"], ["-v"], ["-E", "-e", "S-003"]])
    name = "root/bad.%s" % suffix
    f = {"dir/x.txt": "", "root/x.txt": "", "other/o.te": "policy_module(o,1.0)\n;\n"}
    given = []
    for i in range(n + 1):
        if i == pos:
            f[name] = KINDS[kind] or (2, "bad." + suffix)
            given.append(name)
        else:
            s = ("te", "if", "fc")[i % 3]
            q = "root/f%d.%s" % (i, s)
            f[q] = {"te": "policy_module(f%d,1.0)\n;\n" % i, "if": CLEAN["b.if"], "fc": "/x\t<<none>>\nbad\n"}[s]
            given.append(q)
    argv = ["-s"] + opt
    if mode == "scan":
        argv += ["-r", "root"]
    elif mode == "given":
        argv += given
    else:
        argv += ["--context=root", "other/o.te"]

    def judge(rs):
        r = rs[0]
        if mode == "context" and suffix == "fc":
            want = 65 if "-F" in opt else 0
            return None if r.code == want else "fc file of a context: exit status %d" % r.code
        return failed(r, "%s %s" % (kind, suffix))
    return Case(f, [argv], judge)


def spaces(tier):
    deep = tier == "thorough"
    chunks = [1, 2, 3, 7, 16, 64, 4096] if deep else [7, 64, 4096]
    clean = ["-s", "-S", "-r", "."]
    ctx = ["-S", "-r", "--context=kernel", "--context=apps/othermod.te", "--context=apps/othermod.if", "apps/mymod.te", "apps/mymod.if", "apps/mymod.fc"]
    total = sum(points(FILES[p], 64) for p in FILES)
    return [
        Space("policy", faults(FILES, clean, POL, chunks, [2, 3]), "every I/O point of 7 files x 3 (7 thorough) sizes of reads x once or lasting"),
        Space("clean", faults(CLEAN, clean, sorted(CLEAN), [1, 5, 64], [2, 3]), "every I/O point of 3 files without a finding, reads of 1, 5, 64 bytes"),
        Space("clean-F", faults(CLEAN, ["-F", "-S", "a.te", "b.if", "c.fc"], sorted(CLEAN), [1, 64], [2]), "the same with -F and files given"),
        Space("context", faults(FILES, ctx, POL, [64], [2, 3]), "every I/O point of scanned and context files"),
        Space("one-byte", faults(FILES, clean, POL if deep else ["kernel/kernel.if", "apps/othermod.te", "apps/mymod.fc"], [1], [2]),
              "every byte of 3 (7 thorough) files"),
        Space("any-point", any_point(FILES, clean, 64, total), "every I/O point of a run"),
        Space("support", support, "every I/O point of 3 support files x 4 sizes of reads"),
        Space("pairs", pairs, "every I/O point of a file x another missing file"),
        Space("short-reads", short_reads, "135 sizes of reads x 3 commands"),
        Space("unreadable", unreadable, "4 kinds of unreadable file x suffixes x positions x 3 commands x 6 options"),
        Space("sanitized", any_point(FILES, clean, 64, total),
              "every I/O point of a run under sanitizers", "san"),
    ]
