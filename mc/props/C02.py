"""Exit status."""
from core import Case, Space

RULE = ("Every option sequence up to the stated length over an alphabet of valid and invalid options, and every "
        "combination of reporting flags, levels, suppressions and file contents (clean, one finding of each severity "
        "and file kind, syntax error, missing file) up to the stated number of files.")
ASSUMPTIONS = ["checks run as a user who can read every file, so unreadable files are represented by missing ones "
               "(read failures are decided in C19)"]

TE = "policy_module(%s,1.0)\n"
CONTENT = {
    # kind: (suffix, text, check id or None, result)
    "clean-te": (".te", "policy_module(%s,1.0)\ntype %s_t;\n", None),
    "clean-if": (".if", "## <summary>%s</summary>\n## <summary>%s</summary>\ninterface(`x_%s',`\n\tbar($1)\n')\n", None),
    "clean-fc": (".fc", "# %s\n/x\t<<none>>\n", None),
    "empty-te": (".te", "", None),
    "c-te": (".te", "policy_module(%s,1.0)\nallow x_t y_t:file { b a };\n", "C-005"),
    "s-te": (".te", "policy_module(%s,1.0)\n;\n", "S-003"),
    "w-te": (".te", "policy_module(%s,1.0)\nallow x_t y_t:file *;\n", "W-008"),
    "e-te": (".te", "policy_module(%s,1.0)\noptional_policy(`\n')\n", "E-009"),
    "s-hdr": (".te", "module %s 1.0;\ntype q_t;\n", "S-006"),
    "c-if": (".if", "interface(`x_%s',`\n\tbar($1)\n')\n", "C-004"),
    "s-if": (".if", "## <summary>x</summary>\ninterface(`x_%s',`\n\ttype y_t;\n')\n", "S-005"),
    "w-if": (".if", "## <summary>x</summary>\ninterface(`x_%s',`\n\tbar()\n')\n", "W-006"),
    "w-fc": (".fc", "/%s.x\t<<none>>\n/a.b\tsystem_u:object_r:%s_t\n", "W-004"),
    "e-fc": (".fc", "/%s\n", "E-002"),
    "err-te": (".te", "policy_module(%s,1.0)\nallow x_t;\n", "parse"),
    "err-if": (".if", "interface(`%s',`\n\tallow x_t\n", "parse"),
    "err-hdr": (".te", "type %s_t;\n", "parse"),
    "no-te": (".te", None, "missing"),
    "no-if": (".if", None, "missing"),
    "no-fc": (".fc", None, "missing"),
}
FINDING = [k for k in CONTENT if CONTENT[k][2] and "-" in CONTENT[k][2]]
KINDS = list(CONTENT)
SEV = "CSWEF"


def make(kinds, names=None):
    files, paths = {}, []
    for i, k in enumerate(kinds):
        suf, text, what = CONTENT[k]
        n = (names[i] if names else "m%02d" % i)
        paths.append(n + suf)
        if text is not None:
            files[n + suf] = text.replace("%s", n)
    return files, paths


def result_code(kinds, level, disabled, fail, disabled_all=()):
    """-> exit status, set of ids that must be reported"""
    if any(CONTENT[k][2] in ("parse", "missing") for k in kinds):
        return 70, None
    ids = set()
    for k in kinds:
        i = CONTENT[k][2]
        if i and SEV.index(i[0]) >= SEV.index(level) and i not in disabled:
            ids.add(i)
    return (65 if (fail and ids) else 0), ids


def expect(code, ids, quiet=False, summary=False):
    def judge(rs):
        r = rs[0]
        if r.code != code:
            return "exit status %d, expected %d" % (r.code, code)
        if ids is None:
            return None
        if quiet:
            if r.findings:
                return "findings shown although only a summary was requested"
        elif set(r.ids()) != ids:
            return "reported %s, expected %s" % (sorted(set(r.ids())), sorted(ids))
        if summary and set(r.summary or {}) != ids:
            return "summary lists %s, expected %s" % (r.summary, sorted(ids))
        return None
    return judge


CARE = "C-004 C-005 S-003 S-005 S-006 W-004 W-006 W-008 E-002 E-009".split()


def only(ids):
    a = ["-E"]
    for i in ids:
        a += ["-e", i]
    return a


def reporting(c):
    """one file of every kind under every combination of reporting options"""
    k = c.pick(KINDS)
    lvl = c.pick([None] + list(SEV))
    fail = c.flag()
    rep = c.pick([[], ["-S"], ["--summary"], ["--summary-only"], ["-S", "--summary-only"]])
    verb = c.flag()
    col = c.pick([None, "auto", "off"])
    supp = c.choose(3)
    files, paths = make([k])
    ids = [i for i in CARE]
    w = CONTENT[k][2]
    argv = ["-s"] + (["-F"] if fail else []) + rep + (["-v"] if verb else [])
    if col:
        argv.append("--color=" + col)
    if lvl:
        argv += ["-l", lvl]
    disabled = set()
    if supp == 1 and w in ids:
        ids.remove(w)
        disabled.add(w)
    if supp == 2:
        # disabled check for something else
        ids.remove("S-003")
        disabled.add("S-003")
    argv += only(ids) + paths
    code, want = result_code([k], lvl or "C", disabled, fail)
    quiet = "--summary-only" in rep
    return Case(files, [argv], expect(code, want, quiet, bool(rep) and code != 70))


def two(c):
    """two files: any order, any pair of contents"""
    a = c.pick(KINDS)
    b = c.pick(KINDS)
    fail = c.flag()
    rep = c.pick([[], ["-S"], ["--summary-only"]])
    lvl = c.pick(["C", "W"])
    files, paths = make([a, b])
    code, want = result_code([a, b], lvl, (), fail)
    return Case(files, [["-s", "-l", lvl] + (["-F"] if fail else []) + rep + only(CARE) + paths],
                expect(code, want, "--summary-only" in rep, bool(rep) and code != 70))


def many(c):
    """the only offending file is the k-th of n"""
    n = c.pick([1, 2, 3, 5, 8, 9, 16, 17, 33, 65])
    pos = c.pick(["first", "second", "middle", "last"])
    bad = c.pick(["c-te", "e-te", "c-if", "w-if", "w-fc", "e-fc", "err-te", "err-if", "no-te", "no-fc"])
    fill = c.pick(["clean-te", "clean-if", "clean-fc", "mixed", "c-te"])
    rec = c.flag()
    i = {"first": 0, "second": 1, "middle": n // 2, "last": n - 1}[pos]
    if i >= n or (rec and bad.startswith("no-")):
        return None
    mix = ["clean-te", "clean-if", "clean-fc"]
    kinds = [mix[j % 3] if fill == "mixed" else fill for j in range(n)]
    kinds[i] = bad
    files, paths = make(kinds)
    code, want = result_code(kinds, "C", (), True)
    return Case(files, [["-s", "-F"] + (["-r", "."] if rec else paths) + only(CARE)], expect(code, want))


def count(c):
    """the number of findings is not the exit status"""
    n = c.pick([1, 2, 64, 65, 127, 128, 191, 192, 255, 256, 257, 511, 512, 1024])
    kind = c.choose(3)
    fail = c.flag()
    rep = c.pick([[], ["-S"], ["--summary-only"]])
    if kind == 0:
        files = {"m.te": "policy_module(m,1.0)\n" + "allow x_t y_t:file { b a };\n" * n}
        i, p = "C-005", "m.te"
    elif kind == 1:
        files = {"m.fc": "/x\n" * n}
        i, p = "E-002", "m.fc"
    else:
        files = {"m.if": "".join("interface(`x_%d',`\n\tbar($1)\n')\n" % j for j in range(n))}
        i, p = "C-004", "m.if"
    want = {i}

    def judge(rs):
        r = rs[0]
        if r.code != (65 if fail else 0):
            return "exit status %d with %d findings" % (r.code, n)
        if "--summary-only" not in rep and len(r.findings) != n:
            return "%d findings reported instead of %d" % (len(r.findings), n)
        if rep and r.summary != {i: n}:
            return "summary %s instead of %d" % (r.summary, n)
        return None
    del want
    return Case(files, [["-s"] + (["-F"] if fail else []) + rep + only(CARE) + [p]], judge)


# option sequences -----------------------------------------------------------
OPTS = [
    ("clean.te",), ("c.te",), ("err.te",), ("missing.te",), ("note.txt",),
    ("-F",), ("-E",), ("-e", "C-005"), ("-d", "C-005"), ("-l", "C"), ("-l", "E"), ("-l", "X"), ("--level=",),
    ("--color=off",), ("--color=blue",), ("-Z",), ("--nope",), ("-h",), ("-V",), ("-c", "good.conf"),
    ("-c", "syntax.conf"), ("-c", "sev.conf"), ("-c", "missing.conf"), ("-S",), ("-r",),
]
OFILES = {
    "clean.te": "policy_module(clean,1.0)\ntype clean_t;\n",
    "c.te": "policy_module(c,1.0)\nallow x_t y_t:file { b a };\n",
    "err.te": "policy_module(err,1.0)\nallow x_t;\n",
    "note.txt": "hello\n",
    "good.conf": 'severity = "convention"\n',
    "syntax.conf": "severity = {\n",
    "sev.conf": 'severity = "loud"\n',
}


def option_model(seq):
    level, cfg, only_e, fail, en, dis = None, None, False, False, set(), set()
    paths = []
    for o in seq:
        k = o[0]
        if k in ("-Z", "--nope"):
            return 64
        if k in ("-h", "-V"):
            return 0
        if k == "--color=blue":
            return 64
        if k == "-l":
            if o[1] == "X":
                return 64
            level = o[1]
        elif k == "--level=":
            return 64
        elif k == "-c":
            cfg = o[1]
        elif k == "-E":
            only_e = True
        elif k == "-F":
            fail = True
        elif k == "-e":
            en.add(o[1])
        elif k == "-d":
            dis.add(o[1])
        elif not k.startswith("-"):
            paths.append(k)
    if cfg == "missing.conf":
        return 64
    if cfg in ("syntax.conf", "sev.conf"):
        return 78
    if only_e and not en:
        return 64
    if not paths:
        return 64
    if "err.te" in paths or "missing.te" in paths:
        return 70
    found = "c.te" in paths and (level or "C") == "C" and ("C-005" in en or (not only_e and "C-005" not in dis))
    return 65 if (fail and found) else 0


def options(maxlen):
    def body(c):
        seq = c.seq(OPTS, maxlen)
        code = option_model(seq)
        argv = ["-s"] + [x for o in seq for x in o]

        def judge(rs):
            return None if rs[0].code == code else "exit status %d, expected %d" % (rs[0].code, code)
        return Case(OFILES, [argv], judge)
    return body


def options_long(c):
    """a failing option is noticed at every position of a longer command line"""
    base = [("-F",), ("-S",), ("-l", "C"), ("-e", "C-005"), ("--color=off",), ("-v",), ("c.te",), ("clean.te",)]
    bad = c.pick([None] + [o for o in OPTS if o not in base])
    pos = c.choose(len(base) + 1)
    drop = c.pick([None] + list(range(len(base))))
    bad2 = c.pick([None, ("-c", "sev.conf"), ("-c", "missing.conf"), ("err.te",), ("-E",)])
    seq = [o for i, o in enumerate(base) if i != drop]
    if bad:
        seq.insert(min(pos, len(seq)), bad)
    if bad2:
        seq.append(bad2)
    code = option_model(seq)
    argv = ["-s"] + [x for o in seq for x in o]
    return Case(OFILES, [argv], lambda rs: None if rs[0].code == code else
                "exit status %d, expected %d" % (rs[0].code, code))


def spaces(tier):
    n = 3 if tier == "quick" else 4
    return [
        Space("reporting", reporting, "20 contents x 6 levels x -F x 5 summary modes x -v x 3 colours x 3 suppressions"),
        Space("two-files", two, "all ordered pairs of 20 contents x -F x 3 summary modes x 2 levels"),
        Space("many-files", many, "10 offenders at 4 positions among up to 65 files of 5 kinds, listed or recursive"),
        Space("finding-count", count, "14 counts up to 1024 x 3 file kinds x -F x 3 summary modes"),
        Space("options", options(n), "all sequences of at most %d of %d option words" % (n, len(OPTS))),
        Space("options-long", options_long, "every option word at every position of an 8-word command line"),
    ]
