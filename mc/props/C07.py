"""Foreign names in te files (W-001) and requirements there (S-001)."""
from core import Case, Space
from stmts import BLOCKS, FORM, USES, Node, emit, exact, only, tree, visible_before, walk

RULE = ("Every statement form (49) x kind of name x owner x requirement; every forest of up to 5 (6 thorough) statements, "
        "require blocks and nested blocks; every subset of required names for statements with several names; long "
        "requirement lists; all tuples of modules using each other's names in all file orders; every content of a "
        "require block up to 4 lines.")
ASSUMPTIONS = ["every name is declared once and the module name equals the file name",
               "requirements in the if branch of a boolean are not tested against uses in its else branch, and those in "
               "userdebug_or_eng not against later uses"]

OTHER = """policy_module(oth,1.0)
type f_t;
type f2_t alias f_alias_t, fattr;
attribute fattr;
attribute fattr2;
type f3_t, fattr;
typealias f_t alias { f_ta1_t f_ta2_t };
attribute_role f_ra;
role f_r;
"""
OTHER_IF = """## <summary>x</summary>
template(`oth_tmpl',`
	type $1_tmpl_t;
	attribute $1_tmpl_a;
	attribute_role $1_tmpl_ra;
')
"""
OWN = ["policy_module(own,1.0)", "attribute own_a;", "attribute_role own_ra;", "role own_r;", "type own_t;",
       "type own2_t, own_a;"]
# foreign name -> flavor it is found as
FOREIGN = {"f_t": "type", "f2_t": "type", "f_alias_t": "type", "f_ta1_t": "type", "f_ta2_t": "type", "fattr": "attribute",
           "fattr2": "attribute", "f_ra": "attribute_role", "zz_tmpl_t": "type", "zz_tmpl_a": "attribute",
           "zz_tmpl_ra": "attribute_role", "f3_t": "type"}
NAMES = sorted(FOREIGN) + ["f_r", "own2_t", "own_a", "own_ra", "own_r", "unknown_t", "self", "$1", "f_", "f_tt", "F_t"]


def env(own, extra=None):
    f = {"oth.te": OTHER + "oth_tmpl(zz)\n", "oth.if": OTHER_IF, "own.te": own}
    f.update(extra or {})
    return f


ARGV = only("W-001")


def forms(c):
    fid, form = c.pick(USES + [("declaration", "type new_t, %s;"), ("declarations", "type new_t, own_a, %s;"),
                               ("alias-decl", "type new_t alias new2_t, %s;")])
    name = c.pick(NAMES)
    req = c.pick(["none", "before", "after", "wrong-flavor", "other-name", "gen_require", "list-first", "list-last",
                  "second-block", "unquoted", "cond"])
    if name in ("$1", "self") and req not in ("none",):
        return None
    if name == "$1" and ("\"" in form or "-%s" in form):
        return None
    fl = FOREIGN.get(name, {"f_r": "role"}.get(name, "type"))
    lines = list(OWN)
    ok = False
    wrong = {"type": "attribute", "attribute": "type", "attribute_role": "role", "role": "type"}[fl]
    r = {"before": ["require { %s %s; }" % (fl, name)],
         "wrong-flavor": ["require { %s %s; }" % (wrong, name)],
         "other-name": ["require { %s %sx; %s x%s; }" % (fl, name, fl, name)],
         "gen_require": ["gen_require(`", "\t%s %s;" % (fl, name), "')"],
         "list-first": ["require {", "\t%s %s, aa, bb;" % (fl, name), "\ttype cc;", "}"],
         "list-last": ["require {", "\ttype cc;", "\t%s aa, bb, %s;" % (fl, name), "}"],
         "second-block": ["require { type cc; }", "require { %s %s; }" % (fl, name), "require { type dd; }"],
         "unquoted": ["gen_require(%s %s;)" % (fl, name)],
         "cond": ["require {", "\ttype cc;", "\tifdef(`b',`", "\t\t%s %s;" % (fl, name), "\t')", "}"]}.get(req)
    if r:
        lines += r
        ok = req not in ("wrong-flavor", "other-name")
    lines.append(form % name)
    exp = []
    if name in FOREIGN and not ok:
        exp.append(("own.te", len(lines), "W-001"))
    if req == "after":
        lines.append("require { %s %s; }" % (fl, name))
    return Case(env("\n".join(lines) + "\n"), [ARGV + ["own.te", "oth.te", "oth.if"]], exact(exp, fid))


def structure(size, depth, blocks, two):
    def body(c):
        f = tree(c, ["R", "U", "F"], blocks, size, depth, two)
        nodes = list(walk(f))
        us = [n for n in nodes if n.kind == "U"]
        rs = [n for n in nodes if n.kind == "R"]
        if not us or not rs or all(n.branches is None for n in nodes):
            return None
        gen = c.flag()
        exp = []
        lines = list(OWN)

        def leaf(n):
            return {"R": ["gen_require(`type f_t;')" if gen else "require { type f_t; }"], "U": ["allow own_t f_t:file a;"],
                    "F": ["allow own_t self:file a;"]}[n.kind]
        emit(f, leaf, lines)
        for u in us:
            # where the language itself gives an answer only
            for r in rs:
                if r.line < u.line and any(p.kind == "debug" for p in ancestors(r)):
                    return None
                p = common(r, u)
                if p is not None and p.kind == "bool" and branch_in(r, p) != branch_in(u, p):
                    return None
        for u in us:
            if not any(n.kind == "R" for n in visible_before(u, f)):
                exp.append(("own.te", u.line, "W-001"))
        return Case(env("\n".join(lines) + "\n"), [ARGV + ["own.te", "oth.te"]], exact(exp))
    return body


def ancestors(n):
    while n.parent is not None:
        n = n.parent
        yield n


def common(a, b):
    pa = list(ancestors(a))
    for p in ancestors(b):
        if p in pa:
            return p
    return None


def branch_in(n, p):
    while n.parent is not p:
        n = n.parent
    return n.branch


def several(c):
    """a statement with three foreign names: one finding unless all are required"""
    stmt, fl = c.pick([
        ("allow { %s %s } %s:file a;", ["f_t", "f2_t", "fattr"]),
        ("allow %s { %s %s }:file a;", ["f_t", "fattr2", "f2_t"]),
        ("type_transition %s %s:file %s;", ["fattr", "f2_t", "f_t"]),
        ("role_transition %s { %s %s } own_r;", ["f_ra", "f2_t", "f_t"]),
        ("some_call(%s, { %s }, %s)", ["f_t", "fattr", "f_ra"]),
        ("some_call(own_t, `%s %s', -%s)", ["f_t", "f2_t", "f3_t"]),
        ("typeattribute %s %s, %s;", ["f_t", "fattr", "fattr2"]),
        ("role %s types { %s %s };", ["f_ra", "f_t", "f2_t"]),
        ("allow { %s %s } %s;", ["f_ra", "zz_tmpl_ra", "f_ra"]),
        ("allow { own_a -%s -%s } { own_t -%s }:file a;", ["f_t", "f2_t", "f3_t"]),
        ("type new_t, %s, %s;\nallow own_t %s:file a;", ["fattr", "fattr2", "f_t"]),
        ("range_transition { %s %s } %s:process s0;", ["f_t", "f2_t", "f3_t"]),
    ])
    have = c.subset(sorted(set(fl)))
    how = c.pick(["one-block", "blocks", "nested"])
    lines = list(OWN)
    pre, post = [], []
    if how == "nested":
        pre, post = ["optional_policy(`"], ["')"]
    if how == "one-block" and have:
        lines.append("require {")
        lines += ["\t%s %s;" % (FOREIGN[x], x) for x in have] + ["}"]
    else:
        lines += ["require { %s %s; }" % (FOREIGN[x], x) for x in have]
    lines += pre
    exp = []
    parts = stmt.split("\n")
    i = 0
    for p in parts:
        k = p.count("%s")
        names = fl[i:i + k]
        i += k
        lines.append(p % tuple(names))
        if any(n not in have for n in names):
            exp.append(("own.te", len(lines), "W-001"))
    lines += post
    return Case(env("\n".join(lines) + "\n"), [ARGV + ["own.te", "oth.te", "oth.if"]], exact(exp))


def long_lists(c):
    n = c.pick([1, 2, 3, 8, 31, 33, 64, 65, 129, 300])
    pos = c.pick(["first", "second", "middle", "last"])
    missing = c.pick(["none", "first", "middle", "last"])
    shape = c.pick(["list", "lines", "blocks", "conds"])
    use = c.pick(["single", "set", "call", "own"])
    names = ["n%03d_t" % i for i in range(n)]
    miss = {"none": None, "first": names[0], "middle": names[n // 2], "last": names[-1]}[missing]
    have = [x for x in names if x != miss]
    pick = {"first": names[0], "second": names[min(1, n - 1)], "middle": names[n // 2], "last": names[-1]}[pos]
    lines = list(OWN)
    if use == "own":
        lines += ["type own%03d_t;" % i for i in range(n)]
    if have:
        if shape == "list":
            lines.append("require { type %s; }" % ", ".join(have))
        elif shape == "lines":
            lines += ["require {"] + ["\ttype %s;" % x for x in have] + ["}"]
        elif shape == "blocks":
            for x in have:
                lines.append("require { type %s; }" % x)
        else:
            for x in have:
                lines += ["gen_require(`", "\tifdef(`b',`", "\t\ttype %s;" % x, "\t')", "')"]
    used = [pick] if use in ("single", "own") else names
    if use == "own":
        lines.append("allow { %s } %s:file a;" % (" ".join("own%03d_t" % i for i in range(n)), pick))
    elif use == "single":
        lines.append("allow own_t %s:file a;" % pick)
    elif use == "set":
        if pos != "first":
            return None
        lines.append("allow own_t { %s }:file a;" % " ".join(names))
    else:
        if pos != "first":
            return None
        lines.append("some_call(own_t, %s)" % ", ".join(names))
    exp = [("own.te", len(lines), "W-001")] if miss in used else []
    files = {"oth.te": "policy_module(oth,1.0)\n" + "".join("type %s;\n" % x for x in names),
             "own.te": "\n".join(lines) + "\n"}
    return Case(files, [ARGV + ["oth.te", "own.te"]], exact(exp))


MIX = ["class file { a b };", "class dir a;", "type g_t, h_t;", "attribute ga;", "role g_r;", "attribute_role gra;",
       "bool gb;", "# note", "ifdef(`x',`\n\t\ttype cond_t;\n\t')", "type %s;"]
MIXED = {"f_t": "type", "fattr": "attribute", "f_ra": "attribute_role"}


def mixed_requirements(c):
    """the requirement may stand anywhere among others of any flavor"""
    name = c.pick(sorted(MIXED))
    ls = c.seq(MIX, 3 if name == "f_t" else 2, 1)
    gen = c.flag()
    text = []
    for l in ls:
        text += ("\t" + (l % name if "%s" in l else l)).replace("type %s" % name, "%s %s" % (MIXED[name], name)).split("\n")
    lines = OWN + ["gen_require(`" if gen else "require {"] + text + ["')" if gen else "}"]
    if c.flag():
        lines += ["require { class file c; }"]
    lines.append("allow own_t %s:file a;" % name)
    exp = [] if any("%s" in l for l in ls) else [("own.te", len(lines), "W-001")]
    return Case(env("\n".join(lines) + "\n"), [ARGV + ["own.te", "oth.te", "oth.if"]], exact(exp))


MODNAMES = [("aa", "bb", "cc"), ("aa", "aaa", "a"), ("own", "own_x", "ow"), ("m-1", "m", "m_1")]


def modules(c):
    """modules using each other's names"""
    ms = c.pick(MODNAMES)
    k = 2 + c.choose(2)
    ms = ms[:k]
    uses = {m: c.pick(ms) for m in ms}
    req = {m: c.flag() for m in ms}
    order = c.perm(ms)
    sub = c.pick(["", "dirs", "ctx"])
    files, exp = {}, []
    path = {m: ("layer%d/%s.te" % (i, m) if sub else m + ".te") for i, m in enumerate(ms)}
    for i, m in enumerate(ms):
        own = "t%d_t" % i
        other = "t%d_t" % ms.index(uses[m])
        lines = ["policy_module(%s,1.0)" % m, "type %s;" % own]
        if req[m]:
            lines.append("require { type %s; }" % other)
        lines.append("allow %s %s:file a;" % (own, other))
        if uses[m] != m and not req[m]:
            exp.append((m + ".te", len(lines), "W-001"))
        files[path[m]] = "\n".join(lines) + "\n"
    if sub == "ctx":
        # the first one is only given as context
        files["ctx/" + path[order[0]]] = files.pop(path[order[0]])
        exp = [x for x in exp if x[0] != order[0] + ".te"]
        argv = ARGV[1:] + ["--context=ctx"] + [path[m] for m in order[1:]]
    else:
        argv = ARGV + [path[m] for m in order]
    return Case(files, [argv], exact(exp))


R_LINES = ["class file { a b };", "class dir a;", "type f_t;", "attribute fattr;", "role f_r;", "attribute_role f_ra;",
           "bool f_b;", "# note", "type f_t, f2_t;"]


def s001(c):
    """a require block in a te file is reported unless it only names classes and permissions"""
    n = 1 + c.choose(3)
    ls = [c.pick(R_LINES) for _ in range(n)]
    form = c.pick(["require", "gen_require", "unquoted"])
    wrap = c.pick([None, "optional", "ifdef", "bool", "tunable", "debug"])
    o, cl = {"require": ("require {", "}"), "gen_require": ("gen_require(`", "')"), "unquoted": ("gen_require(", ")")}[form]
    lines = list(OWN)
    pad = c.pick([0, 1])
    if wrap:
        lines += BLOCKS[wrap][0]
    lines += ["allow own_t self:file a;"] * pad
    at = len(lines) + 1
    lines += [o] + ["\t" + l for l in ls] + [cl]
    if wrap:
        lines += BLOCKS[wrap][2]
    lines.append("allow own_t self:file a;")
    bad = any(not l.startswith(("class", "#")) for l in ls)
    exp = [("own.te", at, "S-001")] if bad else []
    # the same block in an interface is fine
    iface = "## <summary>x</summary>\ninterface(`own_i',`\n%s\n\t%s\n%s\n\tallow $1 self:file a;\n')\n" % (
        o, "\n\t".join(ls), cl)
    return Case({"own.te": "\n".join(lines) + "\n", "own.if": iface}, [only("S-001") + ["own.te", "own.if"]], exact(exp))


def s001_blocks(c):
    """every require block is judged on its own"""
    n = 1 + c.choose(4)
    lines, exp = list(OWN), []
    for _ in range(n):
        k = c.pick(["classes", "types", "mixed", "bools"])
        at = len(lines) + 1
        lines += {"classes": ["require { class file { a b }; class dir a; }"], "types": ["gen_require(`", "type f_t;", "')"],
                  "mixed": ["require {", "class file a;", "attribute x;", "}"], "bools": ["require {", "bool b;", "}"]}[k]
        if k != "classes":
            exp.append(("own.te", at, "S-001"))
        if c.flag():
            lines.append("allow own_t self:file a;")
    return Case({"own.te": "\n".join(lines) + "\n"}, [only("S-001") + ["own.te"]], exact(exp))


def spaces(tier):
    deep = tier == "thorough"
    every = ["optional", "ifdef", "tunable", "bool", "ifelse", "debug"]
    return [
        Space("forms", forms, "52 statement forms x 23 names x 11 requirements"),
        Space("structure", structure(6 if deep else 5, 2, every, ("optional", "ifdef", "tunable", "ifelse", "bool")),
              "all forests of up to 5 (6 thorough) statements, requirements, fillers and 6 block kinds, depth 2"),
        Space("optional-structure", structure(8 if deep else 7, 3, ["optional"], ("optional",)),
              "all forests of up to 7 (8 thorough) nodes with optional blocks, depth 3"),
        Space("several-names", several, "12 forms with three names x subsets of required names x 3 layouts"),
        Space("long-lists", long_lists, "10 list lengths to 300 x positions x missing names x 4 shapes x 4 uses"),
        Space("mixed-requirements", mixed_requirements, "require blocks of up to 3 lines of 10 flavours x 3 names x 2 forms"),
        Space("modules", modules, "all uses among 2-3 modules x required x file orders x layouts x 4 sets of names"),
        Space("require-content", s001, "contents up to 3 lines of 9 x 3 forms x 6 places"),
        Space("require-blocks", s001_blocks, "up to 4 require blocks of 4 kinds"),
    ]
