"""Layout: blanks, line breaks, comments and blank lines change nothing but line numbers; every line number is right."""
import re

from core import Case, Space
import fixture as F
from stmts import BLOCKS, USES

RULE = ("A policy with a violation of every check, re-laid out: every gap between two tokens x 9 fillers, every pair of gaps, every "
        "file with the same filler in all gaps, everything on one line; every sequence of up to 3 lines of blanks, comments and m4 "
        "comments between any two lines, pairs of such places, comments behind every line; every field separator of fc files; support "
        "files alike; up to 70000 lines and 100000 characters.")
ASSUMPTIONS = ["a finding is at the right line when it lies between the first and last token of the statement's opening line",
               "C-001 is compared only where whole lines move: the order of its sections is by average line number",
               "no blank is put between a macro name and its opening parenthesis, which m4 would not take for a call"]

TOKEN = re.compile(r'#[^\n]*|"[^"\n]*"|[0-9a-f]*:[0-9a-f:]*:[0-9a-f]*|[A-Za-z0-9_$*/.-]*[A-Za-z0-9_$*/]|&&|\|\||[=!]=|\S')
SUPPORT = ["access_vectors", "obj_perm_sets.spt", "modules.conf"]
TE, IF, FC = "apps/mymod.te", "apps/mymod.if", "apps/mymod.fc"
CFG = "assume_users = { system_u }\nassume_roles = { object_r }\n"
ARGS = ["-c", "cfg", "-s", "-r", "."]


class Text:
    """a file as tokens and the gaps before, between and after them"""

    def __init__(self, text):
        self.tokens, self.gaps, self.lines = [], [], []
        pos = 0
        for m in TOKEN.finditer(text):
            self.gaps.append(text[pos:m.start()])
            self.tokens.append(m.group())
            self.lines.append(text.count("\n", 0, m.start()) + 1)
            pos = m.end()
        self.gaps.append(text[pos:])

    def word(self, i):
        return 0 <= i < len(self.tokens) and re.match(r"[A-Za-z0-9_$*/\".-]|.*::", self.tokens[i]) is not None

    def fixed(self, g):
        """gaps that must not be changed: between a macro name and its parenthesis, behind a kind of file"""
        return g < len(self.tokens) and (self.tokens[g] == "(" and self.word(g - 1) or g > 0 and self.tokens[g - 1] in ("-d", "--"))

    def fits(self, g, filler):
        """whether the filler keeps the tokens before and after gap g apart"""
        if g > 0 and self.tokens[g - 1].startswith("#") and not filler.startswith(("\n", "\r\n")):
            return g == len(self.tokens) and filler == ""
        if filler == "":
            # a dash needs a following non-blank, or it would be a file kind
            return not (self.word(g - 1) and self.word(g))
        return True

    def render(self, fill):
        """fill: gap number -> filler; returns the text and the new line of every token"""
        out, line, at = [], 1, []
        for g in range(len(self.gaps)):
            f = fill.get(g, self.gaps[g])
            out.append(f)
            line += f.count("\n")
            if g < len(self.tokens):
                at.append(line)
                out.append(self.tokens[g])
        return "".join(out), at

    def interval(self, line, at):
        new = [a for l, a in zip(self.lines, at) if l == line]
        return (min(new), max(new))


TEXTS = {n: Text(t) for n, t in F.FILES.items() if not n.endswith((".fc", ".conf"))}


def case(files, where, note=""):
    """where(base, line) -> (first, last) line allowed for the finding that was on `line`"""
    f = dict(F.FILES)
    f.update(files)
    f["cfg"] = CFG
    exp = {}
    for b, l, i in F.FINDINGS:
        exp.setdefault((b, i), []).append(where(b, l))

    def judge(rs):
        r = rs[0]
        if r.code != 0:
            return "exit status %d (%s)" % (r.code, (r.err.strip() or r.out.strip())[:120])
        got = {}
        for b, l, i in r.locs():
            got.setdefault((b, i), []).append(l)
        for k in sorted(set(exp) | set(got)):
            e, g = sorted(exp.get(k, [])), sorted(got.get(k, []))
            if len(e) != len(g):
                return "%s in %s: %d findings, expected %d" % (k[1], k[0], len(g), len(e))
            for (lo, hi), l in zip(e, g):
                if not lo <= l <= hi:
                    return "%s in %s: at line %d, expected %d" % (k[1], k[0], l, lo)
        return None
    return Case(f, [ARGS], judge, note)


def relaid(name, fill):
    t = TEXTS[name]
    text, at = t.render(fill)
    base = name.split("/")[-1]
    return case({name: text}, lambda b, l: t.interval(l, at) if b == base else (l, l))


FILLERS = ["\n", " ", "\t", "", "  \t ", "\n\n\n", "\r\n", "\ndnl x y'`(\n", " \n \t\n "]


def gaps(name, n, fillers):
    def body(c):
        t = TEXTS[name]
        fill, g = {}, -1
        for _ in range(n):
            g = g + 1 + c.choose(len(t.gaps) - g - 1) if g + 1 < len(t.gaps) else g
            f = c.pick(fillers)
            if t.fixed(g) or not t.fits(g, f):
                return None
            fill[g] = f
        return relaid(name, fill)
    return body


def uniform(c):
    """the same filler in all gaps of a file, or in all gaps at or inside the lines"""
    name = c.pick(sorted(TEXTS))
    f = c.pick(FILLERS)
    where = c.pick(["all", "inside", "ends"])
    t = TEXTS[name]
    fill = {}
    for g in range(len(t.gaps)):
        end = "\n" in t.gaps[g]
        if t.fixed(g) or (where == "inside" and end) or (where == "ends" and not end):
            continue
        # words stay apart
        fill[g] = f if t.fits(g, f) else t.gaps[g] if g < len(t.tokens) and t.tokens[g - 1].startswith("#") else " "
    return relaid(name, fill)


def one_each(c):
    """every token that may stand on its own line or all on one, switching at some gap"""
    name = c.pick([TE, IF])
    t = TEXTS[name]
    g0 = c.choose(len(t.gaps))
    a, b = c.pick([(" ", "\n"), ("\n", " "), ("\t", "\n\n")])
    fill = {}
    for g in range(len(t.gaps)):
        f = a if g < g0 else b
        if not t.fixed(g) and t.fits(g, f):
            fill[g] = f
    return relaid(name, fill)


LINES = ["", "# c", "#", "## <summary>x</summary>", "dnl x y'`(", " \t ", "\t# it's", "#selint-disable", "# selint-disable:E-010", "dnl",
         "#selint-disable:", "#################### # ####"]


def insert(name, blocks, trail=None):
    """blocks: {before line number: [lines]}, trail: {line number: text behind the line}"""
    text = F.FILES[name].split("\n")
    out, at = [], {}
    for i, l in enumerate(text, 1):
        out += blocks.get(i, [])
        at[i] = len(out) + 1
        out.append(l + (trail or {}).get(i, ""))
    base = name.split("/")[-1]
    return case({name: "\n".join(out)}, lambda b, l: (at[l],) * 2 if b == base else (l, l))


def documented(name, at, lines):
    """a comment above an interface is its documentation, so that C-004 no longer applies to the first one"""
    return name == IF and at == 1 and any(l.strip().startswith("#") for l in lines)


def inserted(n):
    def body(c):
        name = c.pick([TE, IF, "apps/othermod.if"])
        at = 1 + c.choose(F.FILES[name].count("\n") + 1)
        lines = list(c.seq(LINES, n, 1))
        if documented(name, at, lines):
            return None
        return insert(name, {at: lines})
    return body


def inserted_pairs(c):
    name = c.pick([TE, IF])
    n = F.FILES[name].count("\n") + 1
    a = 1 + c.choose(n)
    b = a + 1 + c.choose(n - a) if a < n else a
    l1, l2 = c.pick([0, 1, 2, 4]), c.pick([0, 1, 3, 5])
    if a == b or documented(name, a, [LINES[l1]]):
        return None
    return insert(name, {a: [LINES[l1]], b: [LINES[l2]]})


TRAIL = [" # c", "# it's", "\t## x", " ", "\t", "\r", " dnl x", "   # selint-disable:W-001", " #selint-disable"]


def trailing(c):
    """comments and blanks behind lines"""
    name = c.pick([TE, IF])
    n = F.FILES[name].count("\n")
    a = 1 + c.choose(n)
    b = a + c.choose(n - a + 1)
    x = c.pick(TRAIL)
    y = c.pick(TRAIL[:4])
    lines = F.FILES[name].split("\n")
    for i, t in ((a, x), (b, y)):
        if "#" in t and lines[i - 1].endswith((",", "gen_require(")):
            return None
    return insert(name, {}, {a: x, b: y} if a != b else {a: x})


def big(c):
    """line numbers beyond 16 bits and long lines"""
    name = c.pick([TE, IF])
    n = c.pick([1, 9, 99, 255, 256, 999, 4095, 32767, 65535, 65536, 70000])
    kind = c.pick(["", "# c", "dnl x", "mixed"])
    at = c.pick([1, 2, 8, F.FILES[name].count("\n")])
    if kind in ("# c", "mixed") and n > 5000 and at == 1:
        return None  # the parser's stack limits comments before the first statement
    lines = [kind if kind != "mixed" else ["", "# c", "dnl x"][i % 3] for i in range(n)]
    if documented(name, at, lines):
        return None
    return insert(name, {at: lines})


def long_lines(c):
    name = c.pick([TE, IF])
    n = c.pick([1, 100, 1000, 8191, 8192, 16384, 20000, 100000])
    kind = c.pick(["comment", "dnl", "blank-line", "blanks", "trail"])
    at = c.pick([2, 8, F.FILES[name].count("\n")])
    if kind == "comment":
        return insert(name, {at: ["#" + "x" * n]})
    if kind == "dnl":
        return insert(name, {at: ["dnl " + "x" * n]})
    if kind == "blank-line":
        return insert(name, {at: [" " * n]})
    if kind == "trail":
        return insert(name, {}, {at: " # " + "x" * n}) if not (name == IF and at == 2) else None
    t = TEXTS[name]
    g = {TE: 60, IF: 30}[name]
    while t.fixed(g):
        g += 1
    return relaid(name, {g: " " * n})


FCSEP = ["\t", " ", "\t\t", "  ", " \t ", "\t" * 40, " " * 300]


def fc_fields(c):
    """separators between the fields of one or all lines of a file context file, and blanks at line ends"""
    lines = F.FILES[FC].split("\n")[:-1]
    n = c.choose(len(lines) + 1)
    s1, s2 = c.pick(FCSEP), c.pick(FCSEP)
    end = c.pick(["", " ", "\t", " \t  "])
    for i, l in enumerate(lines):
        if n in (i, len(lines)) and "(x)" not in l:
            f = l.split()
            lines[i] = f[0] + s1 + f[1] + (s2 + f[2] if len(f) > 2 else "") + end
    final = c.pick(["\n", "", "\n\n"])
    return case({FC: "\n".join(lines) + final}, lambda b, l: (l, l))


FCLINES = ["", "# c", "#", "#\t/usr/bin/x gen_context(a", "########", "", "#selint-disable"]


def fc_lines(n):
    def body(c):
        at = 1 + c.choose(F.FILES[FC].count("\n") + 1)
        lines = list(c.seq(FCLINES, n, 1))
        return insert(FC, {at: lines})
    return body


def fc_pairs(c):
    n = F.FILES[FC].count("\n") + 1
    a = 1 + c.choose(n)
    b = 1 + c.choose(n)
    k = c.pick([1, 2, 10, 255, 256, 65536])
    if a == b:
        return None
    return insert(FC, {a: [c.pick(FCLINES)] * k, b: [c.pick(FCLINES)]})


def ends(c):
    """every file with or without a newline, blanks or blank lines at its end"""
    files = {}
    for n in (TE, IF, FC, "obj_perm_sets.spt", "access_vectors", "modules.conf", "kernel/kernel.te"):
        e = c.pick(["\n", "", "\n\n"] if n == FC else ["\n", "", "\n\n", "\ndnl", "\ndnl x y'`("] if n in (TE, IF) else ["\n", ""])
        files[n] = F.FILES[n].rstrip("\n") + e
    return case(files, lambda b, l: (l, l))


def support(c):
    """blanks and comments in the support files"""
    name = c.pick(SUPPORT)
    text = F.FILES[name].split("\n")
    kind = c.pick(["insert", "insert2", "trail", "double", "tabs"])
    at = c.choose(len(text))
    if kind.startswith("insert"):
        l = c.pick(["", "# c", "#", "  ", "\t", "#x = base", "# class file { nosuch }", "dnl x"])
        if l.startswith("dnl") and name == "modules.conf" or l.startswith("#") and at == 0 and name != "modules.conf":
            return None
        text[at:at] = [l] * (1 if kind == "insert" else 2)
    elif kind == "trail":
        l = c.pick([" ", "\t", "   "] + ([" # c"] if name != "modules.conf" else []))
        if not text[at]:
            return None
        text[at] += l
    elif kind == "double":
        text = [l.replace(" ", c.pick(["  ", "\t", " \t "]) if i == at else " ") for i, l in enumerate(text)]
    else:
        w = c.pick(["\t", "  ", "   "])
        text = [l.replace(" ", w) for l in text]
    return case({name: "\n".join(text)}, lambda b, l: (l, l))


EXTRA = [
    "type new_t;", "type new_t, own_a, other_a;", "type new_t alias { n1_t n2_t };", "type new_t alias n1_t, own_a, other_a;", "attribute new_a;",
    "role new_r;", "attribute_role new_ra;", "bool new_b;", "gen_bool(new_b, false)", "gen_tunable(`new_b', false)", "gen_tunable(new_b,true)",
    "class newc { a b };", "typealias other_t alias { n1_t n2_t };", "allow own_t other_t:{ file dir } { read write };", "allow own_t other_t:file *;",
    "allow own_t { own_a -own_t -other_t }:file ~{ read write };", "allow own_t self:file read;;", "genfscon nfs / gen_context(system_u:object_r:other_t,s0)",
    "genfscon nfs /x -d gen_context(nou:object_r:own_t,s0)", "sid kernel gen_context(system_u:object_r:other_t,s0)",
    "portcon tcp 80 gen_context(system_u:object_r:other_t,s0)", "portcon udp 80-90 gen_context(system_u:object_r:other_t,s0)",
    "netifcon lo gen_context(system_u:object_r:other_t,s0) gen_context(system_u:object_r:own_t,s0)",
    "nodecon 1.2.3.4 255.255.255.0 gen_context(system_u:object_r:other_t,s0)", "nodecon ::1 ffff:: gen_context(system_u:object_r:other_t,s0)",
    "fs_use_xattr ext3 gen_context(system_u:object_r:other_t,s0);", "fs_use_task pipefs gen_context(system_u:object_r:other_t,s0);",
    "fs_use_trans tmpfs gen_context(system_u:object_r:other_t,s0);", "define(`new_macro')", "gen_user(new_u,, new_r other_r, s0, s0 - s0:c0)",
    "gen_user(new_u, pre, new_r, s0, s0)", "gen_require(`\ntype other_t;\ntype own_t;\nclass file { read write };\nrole other_r;\nbool x;\n')",
    "require {\ntype other_t, second_t;\nattribute own_a;\n}", "unknown_macro", "other_call()", "other_call(own_t, `other_t', \"x\")", "other_call(own_t other_t)",
    "ifelse(`a',`b',`\nallow own_t other_t:file read;\n')", "ifdef(`x',`\nallow own_t other_t:file read;\n',`\nallow other_t own_t:file read;\n')",
    "tunable_policy(`x && !y || (z ^ w)',`\nallow own_t other_t:file read;\n',`\nallow other_t own_t:file read;\n')",
    "if (x && !(y == z)) {\nallow own_t other_t:file read;\n} else {\nallow other_t own_t:file read;\n}",
    "optional_policy(`\nother_call(other_t)\n', `\nallow own_t other_t:file read;\n')", "optional_policy(`\n')",
]
STATEMENTS = [f % "other_t" for _, f in USES] + EXTRA
HEAD = "policy_module(m,1.0)\ntype own_t, own2_t;\nattribute own_a;\nrole own_r;\n"
TAIL = "allow other_t own_t:file read;\nunknown_word\n"
OTHER = {"cfg": CFG, "o/other.te": "policy_module(other,1.0)\ntype other_t;\ntype second_t;\nattribute other_a;\nrole other_r;\n",
         "o/other.if": "## <summary>x</summary>\n## <summary>x</summary>\ninterface(`other_call',`\n\tallow $1 self:file read;\n')\n"}


def forms(c):
    """every statement form alone or in every kind of block, as it is and with any one gap filled"""
    s = c.pick(STATEMENTS)
    b = c.pick([None] + sorted(BLOCKS) + ["interface"])
    if b == "interface":
        text = "## <summary>x</summary>\n## <summary>x</summary>\ninterface(`m_x',`\n" + s + "\n')\n"
    elif b:
        text = HEAD + "%s\n%s\n%s\n" % (BLOCKS[b][0][0], s, BLOCKS[b][2][0]) + TAIL
    else:
        text = HEAD + s + "\n" + TAIL
    t = Text(text)
    g0 = 1 if b == "interface" else len(Text(HEAD).tokens)
    g = g0 + c.choose(len(t.tokens) - g0 - (1 if b == "interface" else len(Text(TAIL).tokens)) + 1)
    f = c.pick(FILLERS if b is None or b == "interface" else ["\n", ""])
    if t.fixed(g) or not t.fits(g, f) or f == "" and "\n" in t.gaps[g] and g > 0 and t.tokens[g - 1].startswith("#"):
        return None
    new, at = t.render({g: f})
    name = "m.if" if b == "interface" else "m.te"
    files = dict(OTHER)
    files["a/" + name], files["b/" + name] = text, new

    def judge(rs):
        def norm(r):
            return [(x[0], x[1], x[4], re.sub(r"line \d+", "line N", x[3])) for x in r.findings if x[0] == name and x[4] != "C-001"]
        a, z = norm(rs[0]), norm(rs[1])
        if rs[0].code or rs[1].code:
            return "exit status %d and %d" % (rs[0].code, rs[1].code)
        if [x[2:] for x in a] != [x[2:] for x in z] and sorted(x[2:] for x in a) != sorted(x[2:] for x in z):
            return "findings differ: %s and %s" % ([x for x in a if x[2:] not in [y[2:] for y in z]], [x for x in z if x[2:] not in [y[2:] for y in a]])
        ka, kz = sorted((x[2], x[3], x[1]) for x in a), sorted((x[2], x[3], x[1]) for x in z)
        for (i, _, l), (_, _, m) in zip(ka, kz):
            lo, hi = t.interval(l, at) if l in t.lines else (0, 1 << 30)
            if l in t.lines and not s.startswith("require"):
                # of a statement it is the first line, of an unnecessary semicolon that of the semicolon
                lo, hi = (hi, hi) if i == "S-003" else (lo, lo)
            if not lo <= m <= hi:
                return "%s at line %d, expected %d" % (i, m, lo)
        return None
    return Case(files, [["-c", "cfg", "-s", "-r", "o", d] for d in "ab"], judge)


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("gap-te", gaps(TE, 1, FILLERS), "every gap of the te file x 9 fillers"),
        Space("gap-if", gaps(IF, 1, FILLERS), "every gap of the if file x 9 fillers"),
        Space("gap-others", lambda c: gaps(c.pick(["kernel/kernel.if", "apps/othermod.if", "obj_perm_sets.spt", "access_vectors"]), 1, FILLERS)(c),
              "every gap of interface, permission macro and class files x 9 fillers"),
        Space("gap-pairs-te", gaps(TE, 2, FILLERS[:3] if deep else ["\n"]), "every pair of gaps of the te file broken (3 fillers thorough)"),
        Space("gap-pairs-if", gaps(IF, 2, FILLERS[:3] if deep else ["\n"]), "every pair of gaps of the if file broken (3 fillers thorough)"),
        Space("uniform", uniform, "6 files x 9 fillers x 3 kinds of gaps"),
        Space("switch", one_each, "one line before and one token per line after every gap, and the reverse"),
        Space("forms", forms, "%d statement forms x alone, in 7 kinds of blocks or an interface x every gap x 9 (2 in blocks) fillers" % len(STATEMENTS)),
        Space("inserted", inserted(3 if deep else 2), "every line boundary x all sequences of up to 2 (3 thorough) of 12 blank or comment lines"),
        Space("inserted-pairs", inserted_pairs, "all pairs of line boundaries x 4 x 4 lines"),
        Space("trailing", trailing, "all pairs of lines x 9 x 4 comments or blanks behind them"),
        Space("big", big, "up to 70000 lines of 4 kinds at 4 places"),
        Space("long-lines", long_lines, "5 kinds of lines of up to 100000 characters at 3 places"),
        Space("fc-fields", fc_fields, "each or all lines x 7 x 7 separators x 4 line ends x 3 file ends"),
        Space("fc-lines", fc_lines(4 if deep else 3), "every line boundary x all sequences of up to 3 (4 thorough) of 7 lines"),
        Space("fc-pairs", fc_pairs, "all pairs of boundaries x 7 x 7 lines x up to 65536 lines"),
        Space("ends", ends, "3 x 5^2 x 2^4 file ends"),
        Space("support", support, "blanks, comments and m4 comments at every place of 3 support files"),
    ]
