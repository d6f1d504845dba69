"""Disable comments."""
from core import Case, Space
import fixture as F

RULE = ("Every te/if finding of the fixture x every check id, list length, position and spelling of the comment; every "
        "sequence of up to 3 statements from 14 kinds (one line, several lines, nested blocks, statements without and "
        "with several nodes) with every assignment of comments; every file subset carrying comments.")
ASSUMPTIONS = ["fixture findings (mc/fixture.py) were established by hand",
               "one statement per line; C-001 is only disabled on the statement it is reported for"]

FMT = [("#selint-disable:", ","), ("#selint-disable: ", ", "), ("#selint-disable:", ", "), ("#selint-disable: ", ",")]
FIX = [f for f in F.FINDINGS if not f[0].endswith(".fc")]
PATH = {p.rsplit("/", 1)[-1]: p for p in F.FILES}
# lines whose statement ends on the same line (a comment may also stand on the following line)
OPENERS = {("mymod.te", 2), ("mymod.te", 22), ("mymod.if", 1), ("mymod.if", 11), ("mymod.if", 21)}


def comment(ids, fmt=0):
    return FMT[fmt][0] + FMT[fmt][1].join(ids)


def expect(exp, note=None, code=0):
    exp = sorted(exp)

    def judge(rs):
        r = rs[0]
        if r.code != code:
            return "exit status %d, expected %d" % (r.code, code)
        got = r.locs()
        if got != exp:
            return "unexpected %s, missing %s" % ([x for x in got if x not in exp][:5], [x for x in exp if x not in got][:5])
        return None
    return judge


def put(f, text, own_line=False):
    """the fixture with text appended to the line of finding f, or on a line of its own after it"""
    files = dict(F.FILES)
    p = PATH[f[0]]
    lines = files[p].split("\n")
    if own_line:
        lines.insert(f[1], text)
    else:
        lines[f[1] - 1] += text
    files[p] = "\n".join(lines)
    return files


def moved(exp, f):
    return [(a, l + (1 if a == f[0] and l > f[1] else 0), i) for a, l, i in exp]


def without(f, ids):
    return [x for x in F.FINDINGS if not (x[0] == f[0] and x[1] == f[1] and x[2] in ids)]


def each(c):
    f = c.pick(FIX)
    n = c.pick([1, 2, 3, 8, 34])
    pos = c.pick(["first", "middle", "last"])
    if n == 1 and pos != "first":
        return None
    if n == 2 and pos == "middle":
        return None
    fmt = c.choose(4)
    sep = c.pick([" ", "", "\t", "    "])
    own = c.flag()
    if own and (f[0], f[1]) in OPENERS:
        return None
    others = [i for i in F.IDS if i not in ("C-001", f[2])][:n - 1]
    at = {"first": 0, "middle": len(others) // 2, "last": len(others)}[pos]
    ids = others[:at] + [f[2]] + others[at:]
    exp = without(f, ids)
    if own:
        exp = moved(exp, f)
    return Case(put(f, sep + comment(ids, fmt), own), [["-s", "-r", "."]], expect(exp))


def other_id(c):
    """naming check Y next to a finding of X only removes Y"""
    f = c.pick(FIX)
    y = c.pick([i for i in F.IDS if i != "C-001"])
    z = c.pick([None, "S-003", "W-011", "E-010"])
    ids = [y] + ([z] if z and z != y else [])
    return Case(put(f, " " + comment(ids)), [["-s", "-r", "."]], expect(without(f, ids)))


INERT = ["#", "# %s", "#selint-disable", "#selint-disable:", "#selint-enable:%s", "# see %s for details", "#disable:%s",
         "#lint-disable:%s", "#%s", "##%s", "# (%s)"]


def inert(c):
    """other comments, even ones that mention check ids, disable nothing"""
    f = c.pick(FIX)
    t = c.pick(INERT)
    own = c.flag()
    if own and (f[0], f[1]) in OPENERS:
        return None
    if (f[0], f[1]) in OPENERS and f[0].endswith(".if"):
        # plain comments are part of the statements, not of the opening of a block
        if f[1] in (11, 21):
            return None
    if "%s" in t:
        t = t % f[2]
    exp = list(F.FINDINGS)
    if own:
        exp = moved(exp, f)
    return Case(put(f, " " + t, own), [["-s", "-r", "."]], expect(exp))


def two(c):
    """comments on two statements act independently"""
    f = c.pick(FIX)
    g = c.pick(FIX)
    if g <= f or (f[0], f[1]) == (g[0], g[1]):
        return None
    kind = c.choose(3)
    if "C-001" in (f[2], g[2]) and kind:
        return None
    fi, gi = [([f[2]], [g[2]]), ([g[2]], [f[2]]), ([f[2], g[2]], [g[2]])][kind]
    files = put(f, " " + comment(fi))
    p = PATH[g[0]]
    lines = files[p].split("\n")
    lines[g[1] - 1] += " " + comment(gi)
    files[p] = "\n".join(lines)
    exp = [x for x in without(f, fi) if x in without(g, gi)]
    return Case(files, [["-s", "-r", "."]], expect(exp))


# kind: lines, own findings of the statement (line offset, id), findings of nested statements, line of a comment slot
# at the opening (None: only after the statement)
ST = {
    "av": (["allow x_t y_t:file { b a };"], [(0, "C-005")], [], None),
    "star": (["allow x_t y_t:file *;"], [(0, "W-008")], [], None),
    "both": (["allow x_t y_t:file ~{ b a };"], [(0, "C-005"), (0, "W-008")], [], None),
    "long": (["allow x_t {", "y_t", "}:file", "{", "b", "a", "};"], [(0, "C-005")], [], None),
    "semi": ([";"], [(0, "S-003")], [], None),
    "call": (["callee()"], [(0, "W-006")], [], None),
    "stray": (["strayword"], [(0, "E-010")], [], None),
    "plain": (["allow x_t y_t:file a;"], [], [], None),
    "names": (["typeattribute x_t a, b, c;"], [], [], None),
    "none": (["typebounds x_t y_t;"], [], [], None),
    "fsuse": (["fs_use_task eventpollfs gen_context(system_u:object_r:eventpollfs_t);"], [], [], None),
    "comment": (["# comment"], [], [], None),
    "emptyopt": (["optional_policy(`", "# nothing", "')"], [(0, "E-009")], [], 0),
    "opt": (["optional_policy(`", "allow x_t y_t:file { b a };", "callee()", "')"], [],
            [(1, "C-005"), (2, "W-006")], 0),
    "ifdef": (["ifdef(`x',`", "allow x_t y_t:file ~{ b a };", "')"], [], [(1, "C-005"), (1, "W-008")], None),
    "tunable": (["tunable_policy(`x',`", "allow x_t y_t:file { b a };", "',`", "allow x_t y_t:file *;", "')"], [],
                [(1, "C-005"), (3, "W-008")], None),
    "bool": (["if (b) {", "allow x_t y_t:file { b a };", "} else {", "callee()", "}"], [],
             [(1, "C-005"), (3, "W-006")], None),
    "require": (["require {", "type z_t;", "}"], [(0, "S-001")], [], 0),
}
SEQ_IDS = ["C-005", "W-006", "W-008", "S-003", "E-009", "E-010", "S-001"]
SEL = sum((["-e", i] for i in SEQ_IDS), ["-E"])


def emit(kinds, comments, opening=None, start=2):
    """-> (lines, findings) of the statements; comments[i]: ids after statement i; opening[i]: ids at its opening"""
    lines, exp = [], []
    for k, kind in enumerate(kinds):
        body, own, nested, slot = ST[kind]
        body = list(body)
        dis = set(comments[k])
        if opening and opening[k]:
            body[slot] += " " + comment(opening[k])
            dis |= set(opening[k])
        if comments[k]:
            body[-1] += " " + comment(comments[k])
        exp += [(start + len(lines) + o, i) for o, i in own if i not in dis]
        exp += [(start + len(lines) + o, i) for o, i in nested]
        lines += body
    return lines, exp


WRAPS = [([], []), (["optional_policy(`", "allow x_t y_t:file a;"], ["')"]), (["if (bb) {"], ["}"]), (["ifdef(`w',`"], ["')"]),
         (["tunable_policy(`w',`", "allow x_t y_t:file a;", "',`"], ["')"])]


def sequences(n, kinds, choices):
    def body(c):
        w = c.pick(WRAPS) if n < 3 else WRAPS[0]
        ks = [c.pick(kinds) for _ in range(n)]
        cm = []
        for k in ks:
            if k == "comment":
                cm.append([])
            else:
                cm.append(c.pick(choices))
        op = []
        for k in ks:
            op.append(c.pick([[], ["E-009"], ["S-001", "C-005"]]) if n < 3 and ST[k][3] is not None else [])
        lines, exp = emit(ks, cm, op, 2 + len(w[0]))
        text = "\n".join(["policy_module(m,1.0)"] + w[0] + lines + w[1]) + "\n"
        return Case({"m.te": text}, [["-s"] + SEL + ["m.te"]], expect([("m.te", l, i) for l, i in exp]))
    return body


def interface(c):
    """comments on requirements and statements of an interface"""
    names = c.pick([["a_t"], ["a_t", "b_t"], ["a_t", "b_t", "c_t"]])
    joined = c.flag()
    opts = [[], ["W-003"], ["W-011"], ["W-003", "W-011"], ["W-002"]]
    rq = [names] if joined else [[n] for n in names]
    rcm = [c.pick(opts) for _ in rq]
    ucm = [c.pick([[], ["W-002"], ["W-003"]]) for _ in range(2)]
    used = c.pick([[], ["a_t"], names])
    quote = c.flag()
    head = c.pick([[], ["C-004"], ["W-003"], ["S-008"]])
    slot = c.pick(["interface", "require", "close"])
    lines = ["interface(`i',`" + (" " + comment(head) if head and slot == "interface" else "")]
    rqline = len(lines) + 1
    lines.append(("\tgen_require(`" if quote else "\tgen_require(") + (" " + comment(head) if head and slot == "require" else ""))
    exp = []
    if not (head == ["C-004"] and slot == "interface"):
        exp.append((1, "C-004"))
    if not quote and not (head == ["S-008"] and slot != "interface"):
        exp.append((rqline, "S-008"))
    for ns, cm in zip(rq, rcm):
        lines.append("\t\ttype %s;" % ", ".join(ns) + (" " + comment(cm) if cm else ""))
        for n in ns:
            if n not in used and "W-003" not in cm:
                exp.append((len(lines), "W-003"))
            if "W-011" not in cm:
                exp.append((len(lines), "W-011"))
    lines.append(("\t')" if quote else "\t)") + (" " + comment(head) if head and slot == "close" else ""))
    lines.append("\tallow $1 { o_t %s }:file a;" % " ".join(used) + (" " + comment(ucm[0]) if ucm[0] else ""))
    if "W-002" not in ucm[0]:
        exp.append((len(lines), "W-002"))
    lines.append("\tallow $1 q_t:file a;" + (" " + comment(ucm[1]) if ucm[1] else ""))
    if "W-002" not in ucm[1]:
        exp.append((len(lines), "W-002"))
    lines.append("')")
    files = {"m.if": "\n".join(lines) + "\n",
             "o.te": "policy_module(o,1.0)\ntype a_t;\ntype b_t;\ntype c_t;\ntype o_t;\ntype q_t;\n"}
    a = ["-s", "-E"] + sum((["-e", i] for i in ("C-004", "S-008", "W-002", "W-003", "W-011")), []) + ["m.if", "o.te"]
    return Case(files, [a], expect([("m.if", l, i) for l, i in exp]))


def across(c):
    """comments only act in their own file, and disabled findings neither count nor fail"""
    n = c.pick([1, 2, 3, 4])
    marks = [c.pick([0, 1, 2]) for _ in range(n)]
    files, exp, cnt = {}, [], 0
    for k, m in enumerate(marks):
        t = "policy_module(f%d,1.0)\n" % k
        t += "allow x_t y_t:file { b a };" + (" #selint-disable:C-005" if m == 1 else "") + "\n"
        t += "allow x_t y_t:file { b a };" + (" #selint-disable:C-005" if m else "") + "\n"
        files["f%d.te" % k] = t
        if m != 1:
            exp.append(("f%d.te" % k, 2, "C-005"))
        if not m:
            exp.append(("f%d.te" % k, 3, "C-005"))
    order = c.perm(sorted(files)) if n < 4 else sorted(files)
    base = expect(exp, code=65 if exp else 0)

    def judge(rs):
        v = base(rs)
        if v:
            return v
        if rs[0].summary != ({"C-005": len(exp)} if exp else {}):
            return "summary %s for %d findings" % (rs[0].summary, len(exp))
        return None
    return Case(files, [["-s", "-F", "-S", "-E", "-e", "C-005"] + order], judge)


def spaces(tier):
    kinds = sorted(ST)
    few = ["both", "long", "semi", "names", "none", "comment", "emptyopt", "opt", "tunable", "require", "stray"]
    ch3 = [[], ["C-005"], ["W-008", "E-009", "S-003"]]
    sp = [
        Space("each-finding", each, "33 findings x list lengths to 34 x positions x 4 spellings x 4 separators x own line"),
        Space("other-id", other_id, "33 findings x 34 ids x 4 companions"),
        Space("plain-comments", inert, "33 findings x 11 plain comments x same line / next line"),
        Space("two-statements", two, "all pairs of findings on different lines x 3 assignments"),
        Space("sequences-2", sequences(2, kinds, [[], ["C-005"], ["W-008"], ["W-006", "C-005"], ["E-009", "S-003", "S-001", "E-010"]]),
              "all pairs of 18 statement kinds x 5^2 comments x opening comments x 5 surrounding blocks"),
        Space("sequences-3", sequences(3, kinds if tier == "thorough" else few, ch3),
              "all triples of 11 (18 thorough) statement kinds x 3^3 comments"),
        Space("interface", interface, "requirement layouts x comments on every line of an interface"),
        Space("across-files", across, "1-4 files x comment placements x file orders"),
    ]
    return sp
