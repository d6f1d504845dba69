"""Template calls declare what the macro processor would declare."""
import itertools
import re

from core import Case, Space

RULE = ("Every argument list of up to 4 names and sets passed on in 4 ways; every name pattern of up to 3 (4 thorough) fragments over $1 $2 $3 $10 and literals x 8 argument lists; every "
        "acyclic program of 3 templates with bodies up to 3 items and 2 calls; argument rewriting chains up to depth 4 "
        "exhaustively and up to 65 for selected rewritings; every declaration form x position in the template x position "
        "of the call x file layout; every call graph over 3 templates including recursive ones.")
ASSUMPTIONS = ["arguments are plain identifiers, sets and quoted lists of them; $0, $*, $@, $# and nested quotes are left out",
               "a name is declared by one module only"]

ARG = re.compile(r"\$(\d+)")
NAME = re.compile(r"^[a-zA-Z][a-zA-Z0-9_]*$")


def m4(pattern, args):
    """m4 argument substitution: $n is the n-th argument, empty when missing"""
    return ARG.sub(lambda m: args[int(m.group(1)) - 1] if 1 <= int(m.group(1)) <= len(args) else "", pattern)


def expand(templates, name, args, out, depth=0):
    """templates: {name: [(kind, text) | ('call', name, [args])]}; out: set of (kind, name)"""
    if depth > 200:
        raise RecursionError
    for it in templates.get(name, ()):
        if it[0] == "call":
            expand(templates, it[1], [m4(a, args) for a in it[2]], out, depth + 1)
        else:
            n = m4(it[1], args)
            if n:
                out.add((it[0], n))


DECL = {
    "type": "type %s;", "attribute": "attribute %s;", "role": "role %s;", "attribute_role": "attribute_role %s;",
}


def stmt(it):
    if it[0] == "call":
        return "%s(%s)" % (it[1], ", ".join(it[2]))
    return DECL[it[0]] % it[1]


def templ(name, items, keyword="template"):
    body = "".join("\t%s\n" % stmt(i) for i in items) or "\tallow $1 self:file a;\n"
    return "## <summary>x</summary>\n%s(`%s',`\n%s')\n" % (keyword, name, body)


def probe(ifs, tes, declared, cands, extra_argv=(), note="", te_after=None, order=None):
    """tes: {module: [statements]}; declared: {(kind, name): module}; every module also refers to every candidate,
    and a file contexts file labels with each.  -> Case with the complete expected result"""
    files = dict(ifs)
    cands = sorted(x for x in set(cands) if NAME.match(x))
    exp = []
    for m in sorted(tes):
        lines = ["policy_module(%s,1.0)" % m, "type %s_own_t;" % m] + tes[m]
        for x in cands:
            lines.append("allow %s_own_t %s:file a;" % (m, x))
            mods = [declared.get((k, x)) for k in ("type", "attribute", "attribute_role")]
            mods = [q for q in mods if q]
            if mods and mods[0] != m:
                exp.append((m + ".te", len(lines), "W-001"))
        files[m + ".te"] = "\n".join(lines) + "\n"
    fc = []
    for x in cands:
        fc.append("/%s\tgen_context(system_u:object_r:%s,s0)" % (x, x))
        if ("type", x) not in declared:
            exp.append(("probe.fc", len(fc), "E-005"))
        fc.append("/%s\tgen_context(system_u:%s:zz_own_t,s0)" % (x, x))
        if ("role", x) not in declared:
            exp.append(("probe.fc", len(fc), "E-004"))
    files["probe.fc"] = "\n".join(fc) + "\n"
    if "zz" not in tes:
        files["zz.te"] = "policy_module(zz,1.0)\ntype zz_own_t;\n"
    exp.sort()
    argv = ["-s", "-E", "-e", "W-001", "-e", "E-005", "-e", "E-004"] + list(extra_argv)
    argv += order or [p for p in files if not p.startswith("ctx/")]

    def judge(rs):
        r = rs[0]
        if r.code != 0:
            return "exit status %d" % r.code
        got = r.locs()
        if got != exp:
            return "unexpected %s, missing %s" % ([x for x in got if x not in exp][:5], [x for x in exp if x not in got][:5])
        return None
    return Case(files, [argv], judge, note)


ARGSETS = [[], ["foo"], ["foo", "bar"], ["bar", "foo"], ["foo", "foo", "foo"], ["f", "oo", "o1", "p4"],
           ["A%d" % i for i in range(1, 13)], ["x" * 70, "y"]]


def patterns(n):
    frags = ["$1", "$2", "$3", "$10", "a", "_t", "_"]

    def body(c):
        fs = c.seq(frags, n, 1)
        pat = "".join(fs)
        if pat[0] == "_":
            return None
        args = c.pick(ARGSETS)
        kind = c.pick(["type"] if len(fs) > 2 else ["type", "attribute", "role", "attribute_role"])
        out = set()
        expand({"t": [(kind, pat)]}, "t", args, out)
        cands = {x for _, x in out} | {"foo", "foo_t", "a"}
        # what a wrong reading of the pattern could produce
        cands.add(m4(pat, args[1:]))
        cands.add(m4(pat, args[::-1]))
        cands.add(m4(pat.replace("$10", "$1" + "0"), [a for a in args][:1]))
        cands.add(pat.replace("$", ""))
        cands.add(m4(pat.replace("$10", "${1}0").replace("${1}", args[0] if args else ""), args))
        call = "t(%s)" % ", ".join(args)
        return probe({"t.if": templ("t", [(kind, pat)])}, {"m": [call], "n": []}, {o: "m" for o in out}, cands)
    return body


def programs(c):
    """acyclic programs of three templates"""
    i1 = [("type", "$1_1_t"), ("call", "t2", ["$1"]), ("call", "t2", ["$1_p"]), ("call", "t3", ["q$1", "$2"])]
    i2 = [("type", "$1_2_t"), ("call", "t3", ["$1", "z"]), ("call", "t3", ["z", "$1"])]
    i3 = [[("type", "$1_3_t")], [("attribute", "$2_3_t"), ("type", "$1_4_t")]]
    t = {"t1": c.seq(i1, 3, 1), "t2": c.seq(i2, 2, 1), "t3": c.pick(i3)}
    calls = [("t1", ["x"]), ("t1", ["y", "w"]), ("t2", ["x"]), ("t3", ["w", "x"])]
    cs = c.seq(calls, 2, 0)
    split = c.flag() if len(cs) == 2 else False
    outs = [set(), set()]
    tes = {"m": [], "n": []}
    for k, (n, a) in enumerate(cs):
        w = 1 if split and k else 0
        expand(t, n, a, outs[w])
        tes["n" if w else "m"].append("%s(%s)" % (n, ", ".join(a)))
    if outs[0] & outs[1]:
        return None
    declared = {o: "m" for o in outs[0]}
    declared.update({o: "n" for o in outs[1]})
    cands = {x for _, x in outs[0] | outs[1]}
    for n, a in calls:
        o = set()
        expand(t, n, a, o)
        cands |= {x for _, x in o}
    return probe({"t.if": "".join(templ(k, v) for k, v in sorted(t.items()))}, tes, declared, cands)


REWRITES = [["$1", "$2"], ["$2", "$1"], ["$1_x", "$1"], ["k$2", "$1$2"], ["$2"], ["$1", "$2", "$1"]]


def chain(c):
    """arguments are rewritten at every level of nested calls"""
    long_ = c.flag()
    if long_:
        d = c.pick([5, 6, 8, 9, 16, 17, 32, 33, 64, 65])
        r = c.pick([0, 1, 4, 5])
        rw = [REWRITES[r]] * d
    else:
        d = 1 + c.choose(4)
        rw = [c.pick(REWRITES) for _ in range(d)]
    layout = c.pick(["one", "reverse", "files"])
    t = {}
    for k in range(d):
        t["t%d" % k] = [("call", "t%d" % (k + 1), rw[k])] + ([("type", "$1_%d_t" % k)] if k % 2 else [])
    t["t%d" % d] = [("type", "$1_l_t"), ("attribute", "a_$1_$2_l"), ("role", "$2_r")]
    out = set()
    expand(t, "t0", ["foo", "bar"], out)
    names = ["t%d" % k for k in range(d + 1)]
    if layout == "reverse":
        names.reverse()
    if layout == "files":
        ifs = {"%s_mod.if" % n: templ(n, t[n]) for n in names}
    else:
        ifs = {"t.if": "".join(templ(n, t[n]) for n in names)}
    cands = {x for _, x in out} | {"foo_l_t", "bar_l_t", "foo_r", "bar_r", "foo_1_t", "bar_1_t"}
    return probe(ifs, {"m": ["t0(foo, bar)"], "n": []}, {o: "m" for o in out}, cands)


FORMS = [
    ("type $1_t;", [("type", "$1_t")]),
    ("type $1_t, file_type;", [("type", "$1_t")]),
    ("type $1_t, aa, bb;", [("type", "$1_t")]),
    ("type $1_t alias $1_al;", [("type", "$1_t"), ("type", "$1_al")]),
    ("type $1_t alias { $1_al o_$1_t }, aa;", [("type", "$1_t"), ("type", "$1_al"), ("type", "o_$1_t")]),
    ("typealias base_t alias $1_t;", [("type", "$1_t")]),
    ("typealias base_t alias { $1_t $1_al };", [("type", "$1_t"), ("type", "$1_al")]),
    ("attribute $1_t;", [("attribute", "$1_t")]),
    ("role $1_t;", [("role", "$1_t")]),
    ("attribute_role $1_t;", [("attribute_role", "$1_t")]),
    ("allow $1_t self:file a;", []),
    ("typeattribute $1_t $1_al;", []),
    ("type_transition $1_t $1_al:file o_$1_t;", []),
]
INNER = ["%s", "optional_policy(`\n%s\n')", "ifdef(`x',`\n%s\n')", "ifdef(`x',`\nallow a_t b_t:file a;\n',`\n%s\n')",
         "optional_policy(`\nallow a_t b_t:file a;\n',`\n%s\n')", "gen_require(`\n\ttype $2_t;\n')\n%s",
         "allow $1 self:file a;\n%s\nallow $1 self:dir a;", "tunable_policy(`x',`\n%s\n')", "if (x) {\n%s\n}",
         "ifdef(`x',`\noptional_policy(`\n%s\n')\n')"]
OUTER = ["%s", "optional_policy(`\n%s\n')", "ifdef(`x',`\n%s\n')", "optional_policy(`\nallow a_t b_t:file a;\n',`\n%s\n')",
         "tunable_policy(`x',`\n%s\n')", "if (x) {\nallow a_t b_t:file a;\n} else {\n%s\n}",
         "ifdef(`x',`\nifdef(`y',`\noptional_policy(`\n%s\n')\n')\n')", "allow a_t b_t:file a;\n%s\n%s"]


def places(c):
    form, decl = c.pick(FORMS)
    inner = c.pick(INNER)
    outer = c.pick(OUTER)
    layout = c.pick(["before", "after", "context", "never"])
    body = inner % form
    text = "## <summary>x</summary>\ntemplate(`t',`\n%s\n')\n" % body
    out = set()
    if layout != "never":
        for k, p in decl:
            out.add((k, m4(p, ["foo", "bar"])))
    call = outer.replace("%s", "t(foo, bar)")
    if layout == "never":
        call = call.replace("t(foo, bar)", "other(foo, bar)")
    cands = ["foo_t", "foo_al", "o_foo_t", "bar_t", "base_t", "file_type", "aa", "bb", "_t", "t"]
    lines = call.split("\n")
    if layout == "context":
        return probe({"ctx/t.if": text}, {"m": lines, "n": []}, {o: "m" for o in out}, cands,
                     extra_argv=["--context=ctx"])
    order = ["m.te", "n.te", "probe.fc", "zz.te", "t.if"] if layout == "after" else ["t.if", "m.te", "n.te", "probe.fc", "zz.te"]
    return probe({"t.if": text}, {"m": lines, "n": []}, {o: "m" for o in out}, cands, order=order)


def required(c):
    """names in require blocks of a template, and declarations of interfaces' callers, are not declared by a call"""
    kind = c.pick(["type", "attribute", "role", "attribute_role"])
    blk = c.pick(["gen_require(`\n\t%s $1_t;\n')", "gen_require(\n\t%s $1_t;\n)", "require {\n\t%s $1_t;\n}",
                  "gen_require(`\n\tifdef(`x',`\n\t%s $1_t;\n')\n')",
                  "optional_policy(`\ngen_require(`\n\t%s $1_t;\n')\nallow $1_t self:file a;\n')"])
    also = c.flag()
    text = "## <summary>x</summary>\ntemplate(`t',`\n%s\n%s\tallow $1_t self:file a;\n')\n" % (
        blk % kind, "\ttype $1_d_t;\n" if also else "")
    return probe({"t.if": text}, {"m": ["t(foo)"], "n": []}, {("type", "foo_d_t"): "m"} if also else {},
                 ["foo_t", "foo_d_t", "foo"])


def graphs(c):
    """every call graph over three templates: recursion ends, everything else is unaffected"""
    edges = [(a, b) for a in range(3) for b in range(3) if c.flag()]
    root = c.choose(3)
    first = c.flag()
    t = {}
    for k in range(3):
        calls = [("call", "t%d" % b, ["$1"]) for a, b in edges if a == k]
        t["t%d" % k] = ([("type", "$1_%d_t" % k)] + calls) if first else (calls + [("type", "$1_%d_t" % k)])
    # is a cycle reachable from the root?
    adj = {k: [b for a, b in edges if a == k] for k in range(3)}

    def cyclic(n, path):
        return n in path or any(cyclic(b, path + [n]) for b in adj[n])
    cyc = cyclic(root, [])
    tes = ["t%d(foo)" % root, "type after_t;"]
    declared = {("type", "after_t"): "m"}
    ifs = {"t.if": "".join(templ(n, t[n]) for n in sorted(t))}
    if cyc:
        return probe(ifs, {"m": tes, "n": []}, declared, ["after_t", "bar_0_t"])
    out = set()
    expand(t, "t%d" % root, ["foo"], out)
    declared.update({o: "m" for o in out})
    return probe(ifs, {"m": tes, "n": []}, declared, ["foo_%d_t" % k for k in range(3)] + ["after_t"])


def manyargs(c):
    n = c.pick([1, 2, 9, 10, 11, 12, 20, 33, 99, 100, 101])
    use = c.pick([1, 2, 9, 10, 11, 12, 20, 33, 99, 100, 101])
    ln = c.pick([1, 8, 31, 63, 64, 127, 255])
    rep = c.pick([1, 2, 3, 8])
    args = [("a%d" % i + "x" * ln)[:max(ln, 4)] for i in range(1, n + 1)]
    pat = "p" + ("_$%d" % use) * rep + "_t"
    out = set()
    expand({"t": [("type", pat)]}, "t", args, out)
    cands = {x for _, x in out} | {"p" + "_" * rep + "_t", "p_" + args[0] + "_t", "p_" + args[-1] + "_t"}
    sep = c.pick([", ", ",", ",\n\t"])
    return probe({"t.if": templ("t", [("type", pat)])}, {"m": ("t(%s)" % sep.join(args)).split("\n"), "n": []},
                 {o: "m" for o in out}, cands)


def manydecls(c):
    """templates with many declarations, modules with many calls"""
    nd = c.pick([1, 2, 3, 8, 9, 33, 65, 129])
    nc = c.pick([1, 2, 3, 9, 17, 33])
    t = {"t": [("type", "$1_%d_t" % i) for i in range(nd)]}
    out = set()
    for k in range(nc):
        expand(t, "t", ["c%d" % k], out)
    two = c.flag()
    tes = {"m": ["t(c%d)" % k for k in range(nc) if not (two and k % 2)],
           "n": ["t(c%d)" % k for k in range(nc) if two and k % 2]}
    declared = {}
    for k in range(nc):
        o = set()
        expand(t, "t", ["c%d" % k], o)
        for x in o:
            declared[x] = "n" if two and k % 2 else "m"
    cands = {"c%d_%d_t" % (k, i) for k in (0, nc // 2, nc - 1, nc) for i in (0, nd // 2, nd - 1, nd)}
    return probe({"t.if": templ("t", t["t"])}, tes, declared, cands)


SETARGS = ["foo", "bar", "{ s1 s2 }", "{ s1 s2 s3 }", "`s1 s2'", "~{ s1 s2 }", "{ s1 -s2 }", "s1 s2", "`foo'"]


def sets(c):
    """an argument consisting of several words is one argument"""
    args = c.seq(SETARGS, 4, 1)
    via = c.pick(["direct", "nested", "rotated", "built"])
    d = [("type", "$%d_%d_t" % (i, i)) for i in range(1, 6)]
    t = {"t": d}
    if via == "nested":
        t = {"t": [("call", "u", ["$1", "$2", "$3", "$4", "$5"])], "u": d}
    elif via == "rotated":
        t = {"t": [("call", "u", ["$2", "$3", "$4", "$1"])], "u": d}
    elif via == "built":
        t = {"t": [("call", "u", ["{ $1 $2 }", "$3", "`$2 $1'", "$2"])], "u": d}
    out = set()
    expand(t, "t", [a[1:-1] if a[0] == "`" else a for a in args], out)
    declared = {o: "m" for o in out if NAME.match(o[1])}
    cands = {x for _, x in declared} | {"%s_%d_t" % (x, i) for i in range(1, 6) for x in ("foo", "bar", "s1", "s2") if x[0] != "s" or i > 1}
    # a set of one name is not told from the name
    return probe({"t.if": "".join(templ(k, v) for k, v in sorted(t.items()))}, {"m": ["t(%s)" % ", ".join(args)], "n": []}, declared, cands)


def spaces(tier):
    return [
        Space("patterns", patterns(4 if tier == "thorough" else 3), "fragment sequences x 8 argument lists x 4 kinds"),
        Space("programs", programs, "84 x 12 x 2 template programs x up to 2 calls in one or two modules"),
        Space("chains", chain, "6^1..6^4 argument rewritings, 10 depths up to 65, 3 layouts"),
        Space("places", places, "13 declaration forms x 10 template positions x 8 call positions x 4 layouts"),
        Space("required", required, "4 kinds x 5 require forms"),
        Space("call-graphs", graphs, "all 512 call graphs over 3 templates x root x order"),
        Space("arguments", manyargs, "11 argument counts x 11 indices x 7 lengths x 4 repetitions x 3 separators"),
        Space("sets", sets, "argument lists of up to 4 of 9 names, sets and quoted strings x 4 ways to pass them on"),
        Space("many", manydecls, "8 numbers of declarations x 6 numbers of calls x 1-2 modules"),
    ]
