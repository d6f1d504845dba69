"""Summary and individual reports agree."""
import re
from core import Case, Space
import fixture as F

RULE = ("Every pair and every leave-one-out set of the 35 checks, every selection by level, and replicated files with the "
        "listed numbers of findings, each in the four reporting modes (none, -S, --summary-only, both).")
ASSUMPTIONS = ["fixture findings (mc/fixture.py) were established by hand"]

REP = [[], ["-S"], ["--summary-only"], ["-S", "--summary-only"], ["--summary", "-v"]]


def judge_report(exp, rep, runs=1):
    """exp: sorted list of (file, line, id)"""
    counts = {}
    for f in exp:
        counts[f[2]] = counts.get(f[2], 0) + 1
    order = sorted(counts, key=lambda i: ("CSWE".index(i[0]), int(i[2:])))

    def judge(rs):
        r = rs[0]
        if r.code != 0:
            return "exit status %d" % r.code
        quiet = "--summary-only" in rep
        if quiet and r.findings:
            return "--summary-only shows individual findings"
        if not quiet and r.locs() != exp:
            return "individual findings %s, expected %s" % (
                [x for x in r.locs() if x not in exp][:5], [x for x in exp if x not in r.locs()][:5])
        head = "Found the following issue counts:\n"
        if not rep:
            return "summary shown although not requested" if head in r.out else None
        if r.out.count(head) != 1:
            return "summary shown %d times" % r.out.count(head)
        before, after = r.out.split(head, 1)
        lines = [x for x in after.split("\n") if x]
        if not order:
            return None if lines == ["(none)"] else "summary without findings is %s" % lines
        want = ["%s: %d" % (i, counts[i]) for i in order]
        if lines != want:
            return "summary is %s, expected %s" % (lines, want)
        return None
    return judge


def sel(ids, extra=()):
    a = ["-s", "-r", "-E"]
    for i in ids:
        a += ["-e", i]
    return a + list(extra) + ["."]


def pairs(c):
    x = c.pick(F.IDS)
    y = c.pick(F.IDS)
    rep = c.pick(REP)
    exp = [f for f in F.FINDINGS if f[2] in (x, y)]
    return Case(F.FILES, [sel([x, y], rep)], judge_report(exp, rep))


def leave_out(c):
    out = [c.pick([None] + F.IDS), c.pick([None, "C-001", "S-010", "W-011", "E-002", "E-010"])]
    rep = c.pick(REP)
    lvl = c.pick(["C", "S", "W", "E", "F"])
    exp = [f for f in F.FINDINGS if f[2] not in out and "CSWEF".index(f[2][0]) >= "CSWEF".index(lvl)]
    a = ["-s", "-r", "-l", lvl] + rep
    for o in out:
        if o:
            a += ["-d", o]
    return Case(F.FILES, [a + ["."]], judge_report(exp, rep))


# checks whose violation can be repeated n times in a te / if / fc file
REPEAT = {
    "C-005": ("te", "allow x_t y_t:file { b a };\n"),
    "S-003": ("te", ";\n"),
    "W-008": ("te", "allow x_t y_t:file *;\n"),
    "W-006": ("te", "callee()\n"),
    "E-009": ("te", "optional_policy(`\n')\n"),
    "E-010": ("te", "stray\n"),
    "C-004": ("if", "interface(`i_%d',`\n')\n"),
    "S-005": ("if", "## c\ninterface(`i_%d',`\ntype x_t;\n')\n"),
    "E-002": ("fc", "/x\n"),
    "W-004": ("fc", "/a.b\tsystem_u:object_r:x_t\n"),
    "S-007": ("fc", "/ab\tgen_context(system_u:object_r:x_t)\n"),
    "E-005": ("fc", "/ab\tgen_context(system_u:object_r:x_t,s0)\n"),
    "E-003": ("fc", "/ab\tgen_context(nosuch_u:object_r:x_t,s0)\n"),
}
RID = sorted(REPEAT)


def build(spec, nfiles):
    """spec: {id: count}; the violations of each id are dealt round robin over nfiles files per kind"""
    parts = {}
    exp = []
    lines = {}
    for i, n in spec.items():
        kind, text = REPEAT[i]
        for j in range(n):
            name = "f%02d.%s" % (j % nfiles, kind)
            if name not in parts:
                parts[name] = ["policy_module(%s,1.0)\n" % name[:-3]] if kind == "te" else []
                lines[name] = len(parts[name])
            t = text % j if "%d" in text else text
            off = 1 if i == "S-005" else 0
            if i == "S-005":
                off = 2
            exp.append((name, lines[name] + 1 + off, i))
            parts[name].append(t)
            lines[name] += t.count("\n")
    return {k: "".join(v) for k, v in parts.items()}, sorted(exp)


def counts(c):
    i = c.pick(RID)
    n = c.pick([0, 1, 2, 3, 9, 10, 11, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000,
                1025, 4097])
    nf = c.pick([1, 3])
    rep = c.pick([["-S"], ["--summary-only"]])
    j = c.pick([None, "S-003", "E-002"])
    spec = {i: n}
    if j and j != i:
        spec[j] = 2
    if j == i:
        return None
    files, exp = build(spec, nf)
    files.setdefault("zz.fc", "")
    return Case(files, [sel(list(spec), rep)], judge_report(exp, rep))


def files_many(c):
    """findings of many files add up"""
    nf = c.pick([1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33])
    ids = c.pick([["C-005", "C-004", "E-002"], ["S-003", "S-005", "S-007"], ["W-008", "W-004", "E-010"],
                  ["E-009", "E-005", "W-006"]])
    n = [c.pick([0, 1, 3, 40]) for _ in ids]
    rep = c.pick([["-S"], ["--summary-only"]])
    files, exp = build(dict(zip(ids, n)), nf)
    files.setdefault("zz.fc", "")
    return Case(files, [sel(ids, rep)], judge_report(exp, rep))


COLOR = re.compile("\x1b\\[[0-9;]*m")


def colors(c):
    """with colours switched on the report is the same once the escape sequences are removed"""
    x = c.pick([None] + F.IDS)
    rep = c.pick(REP)
    base = sel([x], rep) if x else ["-s", "-r"] + rep + ["."]

    def judge(rs):
        a, b = rs
        if a.code != b.code:
            return "colour changes the exit status"
        ka = [l for l in a.out.split("\n") if "olor output" not in l]
        kb = [l for l in COLOR.sub("", b.out).split("\n") if "olor output" not in l]
        if "\x1b" in a.out:
            return "escape sequences without colour"
        if ka != kb:
            return "colour changes the report: %s" % [p for p in zip(ka, kb) if p[0] != p[1]][:2]
        return None
    return Case(F.FILES, [base[:-1] + ["--color=off", "."], base[:-1] + ["--color=on", "."]], judge)


FORMAT = re.compile(r"^([^:\n]+):(\s*)(\d+): \(([CSWEF])\): (\S.*) \(([CSWEF])-(\d{3})\)$")


def format_(c):
    """every finding is one line file: line: (SEV): text (SEV-nnn), whatever the file name's length"""
    ln = c.pick([1, 2, 5, 10, 17, 18, 19, 20, 21, 22, 23, 24, 30, 64, 120, 200, 250])
    dirs = c.pick(["", "d/", "dd/ee/", "d" * 60 + "/"])
    n = c.pick([1, 9, 10, 99, 100, 999, 1000, 9999])
    kind = c.pick(["te", "fc", "if"])
    name = ("n" * ln) + "." + kind
    if kind == "te":
        text, i = "policy_module(%s,1.0)\n" % ("n" * ln) + "\n" * n + "allow x_t y_t:file { b a };\n", "C-005"
        line = n + 2
    elif kind == "fc":
        text, i, line = "\n" * n + "/x\n", "E-002", n + 1
    else:
        text, i, line = "\n" * n + "interface(`x',`\n')\n", "C-004", n + 1

    def judge(rs):
        r = rs[0]
        out = [l for l in r.out.split("\n") if "(%s)" % i in l]
        if r.code != 0 or len(out) != 1:
            return "expected one finding, got %s (exit %d)" % (out, r.code)
        m = FORMAT.match(out[0])
        if not m:
            return "malformed report line %r" % out[0]
        if (m.group(1), int(m.group(3)), m.group(4), m.group(6) + "-" + m.group(7)) != (name, line, i[0], i):
            return "report line %r, expected %s line %d %s" % (out[0], name, line, i)
        return None
    return Case({dirs + name: text}, [["-s", "-E", "-e", i, dirs + name]], judge)


def spaces(tier):
    return [
        Space("pairs", pairs, "all 35x35 pairs of checks x 5 reporting modes"),
        Space("leave-out", leave_out, "each check left out x 6 second checks x 5 levels x 5 reporting modes"),
        Space("counts", counts, "13 repeatable checks x 26 counts up to 4097 x 1 or 3 files x a second check"),
        Space("many-files", files_many, "11 numbers of files up to 33 x 4 groups of 3 checks x 4^3 counts"),
        Space("colours", colors, "36 selections x 5 reporting modes, colour on against off"),
        Space("line-format", format_, "17 name lengths x 4 directories x 8 line numbers x 3 file kinds"),
    ]
