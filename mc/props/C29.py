"""Every statement, interface and line is judged on its own."""
import re

from core import Case, Space
from props.C21 import HEAD as HEADTEXT
from props.C26 import ENV, STATEMENTS
from stmts import FORM

RULE = ("Every sequence of two statement forms, every sequence of three and four of a selection, every order of five, every form repeated "
        "and every pair at a distance of up to 3000 lines; the same for the bodies of interfaces, for whole interfaces, and for the lines "
        "of file context files: each part has exactly the findings it has alone.")
ASSUMPTIONS = ["the order of statements (C-001) is property C06's, the order of names in require blocks (C-006) is kept out of repeated blocks",
               "parts which declare or require names that another part uses are left out: what these do is the subject of C05, C07 and C08"]

HEAD = HEADTEXT.strip().split("\n")
TAIL = ["allow third_t own_t:file { read };", "unknown_word2"]
INTRO = re.compile(r"(?m)^\s*(type|attribute|attribute_role|bool|gen_bool|gen_tunable|class|common|typealias|gen_require|require|\w+_tmpl|define|gen_user|role|sid|policy_module|module|new_\w+)\b")
KNOWN = set("own_t own2_t own_a own_r self file dir read write getattr open search".split())
BLANKLINE = "# between"


def names(s):
    return set(re.findall(r"[A-Za-z$][A-Za-z0-9_$]*", s))


def brings(s):
    """the names which a part may make known"""
    got = names(s) - KNOWN if INTRO.search(s) else set()
    m = re.search(r"other_tmpl\(([^,)]*)\)", s)
    if m:
        got.add(m.group(1) + "_x_t")
    return got - {"type", "attribute", "role", "class", "types", "require", "gen_require", "alias", "other_tmpl", "bool"}


def free(parts):
    """no part makes known what another one uses"""
    b = [brings(p) for p in parts]
    n = [names(p) for p in parts]
    return not any(b[i] & n[j] for i in range(len(parts)) for j in range(len(parts)) if i != j and parts[i] != parts[j])


def owner(blocks):
    """lines of a file made of blocks [(key, lines)]: ({line number: (key, offset)}, text)"""
    at, out = {}, []
    for k, ls in blocks:
        for j, l in enumerate(ls):
            out.append(l)
            at[len(out)] = (k, j)
    return at, "\n".join(out) + "\n"


def compare(name, around, parts, sep=(), skip=("C-001",), env=ENV, argv=("-c", "cfg", "-s", "-r", "o")):
    """parts: lists of lines; all of them between the lines `around` against each of them alone"""
    before, after = around
    single = sorted({tuple(p) for p in parts})
    files = dict(env)
    at, text = owner([("before", before)] + [x for i, p in enumerate(parts) for x in ((i, p), ("sep%d" % i, list(sep)))] + [("after", after)])
    files["all/" + name] = text
    maps = []
    for k, p in enumerate(single):
        m, t = owner([("before", before), ("part", list(p)), ("after", after)])
        files["d%02d/%s" % (k, name)] = t
        maps.append(m)
    base = name.rsplit("/", 1)[-1]

    def found(r, m):
        out = {}
        for f, l, _, msg, i in r.findings:
            if f != base or i in skip:
                continue
            k, j = m.get(l, ("beyond", l))
            out.setdefault(k, []).append((j, i, re.sub(r"line \d+", "line N", msg)))
        return {k: sorted(v) for k, v in out.items()}

    def judge(rs):
        if any(r.code for r in rs):
            return "exit status %s: %s" % ([r.code for r in rs], (rs[0].err + rs[0].out)[:160])
        got = found(rs[0], at)
        alone = [found(r, m) for r, m in zip(rs[1:], maps)]
        if "beyond" in got or any("beyond" in a for a in alone):
            return "finding outside of the file: %s" % got
        for i, p in enumerate(parts):
            w, g = alone[single.index(tuple(p))].get("part", []), got.get(i, [])
            if w != g:
                return ("part %d %r: alone %s, with others %s" % (i, p[0], [x for x in w if x not in g][:3] or w, [x for x in g if x not in w][:3] or g),
                        repr(sorted({x[1] for x in w if x not in g} | {x[1] for x in g if x not in w})))
        for k in ("before", "after"):
            for x in got.get(k, []):
                if not any(x in a.get(k, []) for a in alone):
                    return "finding %s in the lines %s only with all parts" % (x, k)
        return None
    return Case(files, [list(argv) + ["all"]] + [list(argv) + ["d%02d" % k] for k in range(len(single))], judge)


# ---------------------------------------------------------------- te files
def te(parts, n):
    def body(c):
        ps = [c.pick(parts) for _ in range(n)]
        if not free(ps):
            return None
        return compare("m.te", (HEAD, TAIL), [p.split("\n") for p in ps])
    return body


def spread(parts):
    """two statements with other lines between them"""
    def body(c):
        a, b = c.pick(parts), c.pick(parts)
        if not free([a, b]):
            return None
        sep = c.pick([[BLANKLINE], [""], ["allow own_t self:file ioctl;"] * 3, ["# c #selint"] * 300, ["allow own_t self:file ioctl;"] * 3000, ["ifdef(`b',`", "allow own_t self:file ioctl;", "')"]])
        return compare("m.te", (HEAD, TAIL), [a.split("\n"), b.split("\n")], sep)
    return body


def repeated(parts, counts):
    def body(c):
        s = c.pick(parts)
        n = c.pick(counts)
        return compare("m.te", (HEAD, TAIL), [s.split("\n")] * n, skip=("C-001", "C-006", "S-001"))
    return body


def orders(parts, n):
    """every order of every n of the statements"""
    def body(c):
        left = list(range(len(parts)))
        chosen = [left.pop(c.choose(len(left))) for _ in range(n)]
        return compare("m.te", (HEAD, TAIL), [parts[i].split("\n") for i in chosen])
    return body


def line(n):
    """statements sharing one line"""
    def body(c):
        ps = [c.pick(ONELINE) for _ in range(n)]
        if not free(ps):
            return None
        sep = c.pick([" ", "\t\t", ""])
        if sep == "" and any(not re.search(r"[;)'}]$", p) for p in ps[:-1]):
            return None
        where = c.pick(["te", "if"])
        before, after = (HEAD, TAIL) if where == "te" else (IFHEAD + ["interface(`m_x',`"], ["')"])
        files = dict(ENV)
        for d, t in [("all", sep.join(ps))] + [("d%02d" % i, p) for i, p in enumerate(ps)]:
            files["%s/m.%s" % (d, where)] = "\n".join(before + [t] + after) + "\n"
        at = len(before) + 1

        def found(r):
            return sorted((i, msg) for f, l, _, msg, i in r.findings if f == "m." + where and l == at and i != "C-001")

        def judge(rs):
            if any(r.code for r in rs):
                return "exit status %s: %s" % ([r.code for r in rs], (rs[0].err + rs[0].out)[:160])
            w, g = sorted(sum((found(r) for r in rs[1:]), [])), found(rs[0])
            if w != g:
                return "%s: alone %s, on one line %s" % (ps, [x for x in w if x not in g] or w, [x for x in g if x not in w] or g)
            return None
        return Case(files, [["-c", "cfg", "-s", "-r", "o", "all"]] + [["-c", "cfg", "-s", "-r", "o", "d%02d" % i] for i in range(n)], judge)
    return body


# ---------------------------------------------------------------- if files
IFHEAD = ["## <summary>x</summary>", "## <param name=\"domain\">", "## <summary>x</summary>", "## </param>"]
REQUIRE = ["gen_require(`", "type own_t, unused_t;", "attribute own_a;", "')"]
BODIES = STATEMENTS + [FORM[k] % "$1" for k in sorted(FORM)]


def bodies(n, parts):
    """statements inside of one interface"""
    def body(c):
        kind = c.pick(["interface", "template"])
        ps = [c.pick(parts) for _ in range(n)]
        if not free(ps):
            return None
        before = IFHEAD + [kind + "(`m_x',`"] + (REQUIRE if c.flag() else [])
        return compare("m.if", (before, ["')"]), [p.split("\n") for p in ps], skip=("C-001", "C-004", "W-003"))
    return body


DEFS = {
    "plain": ["interface(`m_N',`", "gen_require(`", "type own_t;", "')", "allow $1 own_t:file read;", "')"],
    "noreq": ["interface(`m_N',`", "allow $1 own_t:file read;", "')"],
    "unused": ["interface(`m_N',`", "gen_require(`", "type own_t, other_t;", "attribute own_a;", "')", "allow $1 own_t:file read;", "')"],
    "empty": ["interface(`m_N',`", "')"],
    "stub": ["interface(`m_N_stub',`", "gen_require(`", "type own_t;", "')", "')"],
    "template": ["template(`m_N',`", "gen_require(`", "type own_t;", "')", "type $1_N_t;", "allow $1_N_t own_t:file read;", "')"],
    "tmpl-noreq": ["template(`m_N',`", "allow $1 own_t:file read;", "')"],
    "calls": ["interface(`m_N',`", "other_call($1)", "other_call(own_t)", "other_none($1)", "')"],
    "foreign": ["interface(`m_N',`", "gen_require(`", "type other_t;", "')", "allow $1 other_t:file { write read };", "')"],
    "declares": ["interface(`m_N',`", "type decl_N_t;", "allow $1 decl_N_t:file read;", "')"],
    "wrongname": ["interface(`x_N',`", "allow $1 self:file read;", "')"],
    "odd": ["interface(`m_N',`", "gen_require(", "type own_t;", ")", "allow $1 own_t:file read;;", "unknown_word", "')"],
    "ifdef": ["interface(`m_N',`", "ifdef(`b',`", "gen_require(`", "type own_t;", "')", "allow $1 own_t:file read;", "')", "')"],
    "disabled": ["interface(`m_N',`", "gen_require(`", "type own_t, other_t; #selint-disable:W-003", "')", "allow $1 second_t:file read; #selint-disable:W-002", "')"],
    "comment": ["## <summary>x</summary>", "## <summary>x</summary>", "interface(`m_N',`", "allow $1 own_t:file read;", "')"],
    "role": ["interface(`m_N',`", "gen_require(`", "role own_r;", "attribute_role other_ra;", "')", "role $1 types own_t;", "')"],
    "class": ["interface(`m_N',`", "gen_require(`", "class dir { search read };", "')", "allow $1 self:dir search;", "')"],
    "nested": ["interface(`m_N',`", "optional_policy(`", "gen_require(`", "type other_t;", "')", "allow $1 other_t:file read;", "', `", "allow $1 second_t:file read;", "')", "')"],
}


def interfaces(n, kinds=None):
    """whole interfaces and templates in one file"""
    def body(c):
        ks = [c.pick(kinds or sorted(DEFS)) for _ in range(n)]
        lines = [c.pick([[], [""], IFHEAD])]
        parts = [lines[0] + [l.replace("N", "i%d" % i) for l in DEFS[k]] for i, k in enumerate(ks)]
        return compare("m.if", (["# c", "interface(`m_first',`", "allow $1 self:file read;", "')"], ["interface(`m_last',`", "allow $1 own_t:file read;", "')"]), parts)
    return body


FIRST = ["# c", "interface(`m_first',`", "allow $1 self:file read;", "')"]


def many(c):
    k = c.pick(sorted(DEFS))
    n = c.pick([3, 40, 300])
    parts = [[l.replace("N", "i%03d" % i) for l in DEFS[k]] for i in range(n)]
    # alone: the first and the last of them
    first, last = parts[0], parts[-1]
    files = dict(ENV)
    at, text = owner([("c", FIRST)] + list(enumerate(parts)))
    files["all/m.if"] = text
    m0, files["d00/m.if"] = owner([("c", FIRST), ("part", first)])
    m1, files["d01/m.if"] = owner([("c", FIRST), ("part", last)])

    def found(r, m, me):
        out = {}
        for f, l, _, msg, i in r.findings:
            if f == "m.if" and i != "C-001":
                k, j = m[l]
                out.setdefault(k, []).append((j, i, msg.replace("i%03d" % (me if me is not None else k), "N") if k != "c" else msg))
        return {k: sorted(v) for k, v in out.items()}

    def judge(rs):
        if any(r.code for r in rs):
            return "exit status %s" % [r.code for r in rs]
        got = found(rs[0], at, None)
        w = found(rs[1], m0, 0).get("part", [])
        if found(rs[2], m1, len(parts) - 1).get("part", []) != w:
            return "the same interface under two names: %s" % w
        for i in range(len(parts)):
            if got.get(i, []) != w:
                return "interface %d of %d: %s, alone %s" % (i, len(parts), got.get(i, [])[:3], w[:3])
        return None
    return Case(files, [["-c", "cfg", "-s", "-r", "o", d] for d in ("all", "d00", "d01")], judge)


# ---------------------------------------------------------------- fc files
FC = ["/a\t--\tgen_context(system_u:object_r:own_t,s0)", "/b\tgen_context(system_u:object_r:other_t,s0)", "/c\t-d\t<<none>>", "/d\tgen_context(no_u:object_r:own_t,s0)",
      "/e\tgen_context(system_u:no_r:own_t,s0)", "/f\tgen_context(system_u:object_r:no_t,s0)", "/g", "/h.x\t--\tgen_context(system_u:object_r:own_t,s0)",
      "/i(/.*)?\tgen_context(no_u:no_r:no_t,s0)", "/j\t-x\tgen_context(system_u:object_r:own_t,s0)", "# comment", "", "ifdef(`x',`", "')", "/k\tsystem_u:object_r:own_t:s0",
      "/l\tgen_context(system_u:object_r:own_t", "/m\t--\tsystem_u:object_r", "/usr/lib.x\t--\tgen_context(system_u:object_r:second_t,s0:c1)", "/a/[ab]\t--\tgen_context(system_u:object_r:own_t,s0)",
      "/a//b.c*\t-l\t<<none>>", "*n\t<<none>>", "/o[p]\t<<none>>", "/q\\\t<<none>>", "/r(s)\t<<none>>"]
FCENV = dict(ENV)
FCENV["o/m.te"] = "policy_module(m,1.0)\ntype own_t;\n"


def fc(n):
    def body(c):
        ps = [[c.pick(FC)] for _ in range(n)]
        return compare("m.fc", (["/first\tgen_context(system_u:object_r:own_t,s0)"], ["/last gen_context(system_u:object_r:own_t,s0)"]), ps, env=FCENV)
    return body


CHARS = "".join(chr(i) for i in range(32, 127)) + "\t\r"


def fc_characters(c):
    """a line of any few characters before a broken and a good line"""
    t = c.pick(CHARS) + c.pick([""] + list(CHARS)) + c.pick(["", " x u:r:t"])
    return compare("m.fc", ([], []), [[t], ["/g"], ["/f\tgen_context(system_u:object_r:no_t,s0)"]], env=FCENV)


def fc_repeated(c):
    a, b = c.pick(FC), c.pick(FC)
    n = c.pick([2, 50, 1000])
    return compare("m.fc", ([], ["/last x"]), [[a]] * n + [[b]] * n, env=FCENV)


PICK = ["allow own_t other_t:file read;", "allow own_t own_t:file { write read };", "allow own_t self:file { getattr nosuch };", "allow own_t self:nosuchclass getattr;",
        "other_call(other_t)", "other_none(own_t)", "allow own_t self:file read;;", "unknown_word", "role own_r types other_t;", "type_transition own_t other_t:file own2_t;",
        "allow own_t self:dir read_file_perms;", "allow own_t own2_t:dir { getattr search open };", "optional_policy(`\nother_call(own_t)\n')",
        "ifdef(`b',`\nallow own_t second_t:file read;\n',`\nother_call(own_t)\n')", "allow own_t -other_t:file read;", "dontaudit own_t { other_t third_t }:file read; #selint-disable:W-001",
        "typeattribute other_t own_a;", "neverallow own_t second_t:file ~read;", "# allow own_t x_t:file read;", "allow own_t self:file ioctl; # comment", "if (b) {\nallow own_t second_t:file read;\n}"]


ONELINE = [s for s in STATEMENTS + PICK if "\n" not in s and "#" not in s]


def spaces(tier):
    deep = tier == "thorough"
    few = PICK[:12] + PICK[13:14]
    return [
        Space("te-2", te(STATEMENTS + PICK, 2), "all pairs of %d statement forms" % len(STATEMENTS + PICK)),
        Space("te-3", te(PICK, 3), "all triples of %d statements" % len(PICK)),
        Space("te-4", te(PICK if deep else few, 4), "all sequences of 4 of %d (thorough: %d) statements" % (len(few), len(PICK))),
        Space("orders", orders(PICK[:8] if deep else PICK[:7], 7 if deep else 5), "all orders of every 5 of 7 (thorough: 7 of 8) statements"),
        Space("spread", spread(STATEMENTS if deep else PICK), "all pairs of %d statements (thorough: of all forms) x 6 separations of up to 3000 lines" % len(PICK)),
        Space("repeated", repeated(STATEMENTS + PICK, [2, 3, 17, 400] + ([5000] if deep else [])), "%d statement forms x 2 to 400 (5000 thorough) times" % len(STATEMENTS + PICK)),
        Space("line", line(2), "all pairs of %d statements on one line x 3 separations x te file or interface" % len(ONELINE)),
        Space("bodies", bodies(2, BODIES if deep else STATEMENTS[::2] + PICK), "pairs of statements in an interface or template with and without requirements"),
        Space("bodies-3", bodies(3, PICK), "all triples of %d statements in an interface or template" % len(PICK)),
        Space("interfaces-2", interfaces(2), "all pairs of %d kinds of interfaces x 3 separations" % len(DEFS)),
        Space("interfaces-3", interfaces(3), "all triples of %d kinds of interfaces x 3 separations" % len(DEFS)),
        Space("interfaces-many", many, "%d kinds of interfaces 3, 40 and 300 times" % len(DEFS)),
        Space("fc-2", fc(2), "all pairs of %d lines" % len(FC)), Space("fc-3", fc(3), "all triples of %d lines" % len(FC)),
        Space("fc-characters", fc_characters, "every line beginning with any two characters"),
        Space("fc-4", fc(4), "all sequences of 4 of %d lines" % len(FC)) if deep else Space("fc-repeated", fc_repeated, "all pairs of %d lines up to 1000 times" % len(FC)),
    ]
