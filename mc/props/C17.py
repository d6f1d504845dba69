"""The findings are those of the files, whatever the order, number, neighbours and directories of the files."""
from core import Case, Space
from fixture import FILES, FINDINGS
from stmts import exact

RULE = ("Every order of every set of up to 3 (4 thorough) of 30 files which leave some state behind or would be affected by it; every "
        "order and every set of directories of the files of a policy with a violation of every check; every set of unrelated files next "
        "to it; repeated runs; up to 400 files.")
ASSUMPTIONS = ["every name is declared once over all files", "no two files have the same base name"]

DOC = "## <summary>x</summary>\n"
# base name, text, findings when alone: those of the file whatever stands next to it
UNITS = [
    ("order.te", "policy_module(order,1.0)\ntype order_t;\nallow order_t self:file getattr;\ntype order_late_t;\n", [(3, "C-001")]),
    ("plain.te", "policy_module(plain,1.0)\ngen_bool(plain_b, false)\ntype plain_t;\ntype aa_t;\nallow plain_t self:file getattr;\n", []),
    ("first.te", "policy_module(first,1.0)\nattribute first_a;\ntype first_t;\n", []),
    ("rules.te", "policy_module(rules,1.0)\nallow rules_t self:file getattr;\nallow rules_t self:dir search;\n", []),
    ("empty.te", "policy_module(empty,1.0)\n", []),
    ("wrong.te", "policy_module(order,1.0)\n", [(1, "W-009")]),
    ("bare.te", "# c\nmodule bare 1.0;\n", [(2, "S-006")]),
    ("off.te", "policy_module(off,1.0)\n;\n; #selint-disable: S-003\n", [(2, "S-003")]),
    ("fileoff.te", "policy_module(on,1.0) #selint-disable: W-009\n;\n", [(2, "S-003")]),
    ("semi.te", "policy_module(semi,1.0)\n;;\nword\n", [(2, "S-003"), (2, "S-003"), (3, "E-010")]),
    ("block.te", "policy_module(block,1.0)\noptional_policy(`\n\t# c\n')\n", [(2, "E-009")]),
    ("req.te", "policy_module(req,1.0)\nrequire { type req_other_t; }\nallow req_other_t self:file getattr;\n", [(2, "S-001")]),
    ("user.te", "policy_module(user,1.0)\nallow user_t first_t:file getattr;\n", ["first.te", (2, "W-001")]),
    ("noend.te", "policy_module(noend,1.0)\ntype noend_t;\n# c", []),
    ("tmpl.te", "policy_module(tmpl,1.0)\nlate_tmpl(tmpl)\nallow tmpl_t tmpl_new_t:file getattr;\n", []),
    ("doc.if", "# c\n" + DOC + "interface(`doc_i',`\n\tallow $1 self:file getattr;\n')\n", []),
    ("nodoc.if", "interface(`nodoc_i',`\n\tallow $1 self:file getattr;\n')\n", [(1, "C-004")]),
    ("trail.if", DOC + "interface(`trail_i',`\n\tallow $1 self:file getattr;\n')\n" + DOC, []),
    ("reqs.if", DOC + "interface(`reqs_i',`\n\tgen_require(`\n\t\ttype z_t;\n\t\ttype a_t;\n\t')\n\tallow $1 { a_t z_t }:file getattr;\n')\n",
     [(3, "C-006")]),
    ("low.if", DOC + "interface(`low_i',`\n\tgen_require(`\n\t\ttype aa_low_t;\n\t')\n\tallow $1 aa_low_t:file getattr;\n')\n", []),
    ("unused.if", DOC + "interface(`unused_i',`\n\tgen_require(`\n\t\ttype unused_t;\n\t')\n\tallow $1 self:file getattr;\n')\n",
     [(4, "W-003")]),
    ("foreign.if", DOC + "interface(`foreign_i',`\n\tallow $1 plain_t:file getattr;\n')\n", ["plain.te", (3, "W-002")]),
    ("late.if", DOC + "template(`late_tmpl',`\n\ttype $1_new_t;\n')\n", []),
    ("decl.if", DOC + "interface(`decl_i',`\n\ttype decl_x_t;\n')\n", [(3, "S-005")]),
    ("ifoff.if", DOC + "interface(`ifoff_i',` #selint-disable: S-005\n\ttype ifoff_x_t;\n')\n", [(3, "S-005")]),
    ("one.fc", "/usr/one\tgen_context(system_u:object_r:first_t,s0)\n", ["!first.te", (1, "E-005")]),
    ("two.fc", "/usr/two\tgen_context(system_u:object_r:plain_t)\n", ["!plain.te", (1, "E-005"), (1, "S-007")]),
    ("bad.fc", "garbage\n/usr/a.b\t<<none>>\n", [(1, "E-002"), (2, "W-004")]),
    ("ifdef.fc", "ifdef(`x',`\n/usr/three\t<<none>>\n", []),
    ("tail.fc", "')\n/usr/four\t--\t<<none>>", []),
]
ARGV = ["-s", "-E"] + [x for i in ("C-001", "C-004", "C-006", "S-001", "S-003", "S-005", "S-006", "S-007", "W-001", "W-002", "W-003", "W-004",
                                    "W-009", "E-002", "E-005", "E-009", "E-010") for x in ("-e", i)]


def wanted(names):
    exp = []
    for n, _, fs in UNITS:
        if n not in names:
            continue
        for f in fs:
            if isinstance(f, str):
                cond = f
                continue
            if fs and isinstance(fs[0], str):
                cond = fs[0]
                present = cond.lstrip("!") in names
                # conditions belong to the finding about that name only
                if f[1] in ("W-001", "W-002", "E-005") and present == cond.startswith("!"):
                    continue
            exp.append((n, f[0], f[1]))
    return exp


TEXT = {n: t for n, t, _ in UNITS}


def orders(k):
    def body(c):
        left = list(UNITS)
        names = []
        for _ in range(1 + c.choose(k)):
            u = c.pick(left)
            left.remove(u)
            names.append(u[0])
        return Case({n: TEXT[n] for n in names}, [ARGV + names], exact(wanted(names), str(names)))
    return body


def subsets(c):
    """every set of files of one kind next to all files of the other kinds, given as a directory"""
    kind = c.pick([".te", ".if", ".fc"])
    pool = [u[0] for u in UNITS if u[0].endswith(kind)]
    chosen = c.subset(pool)
    rest = c.pick([[], [u[0] for u in UNITS if not u[0].endswith(kind)]])
    names = chosen + rest
    if not names:
        return None
    how = c.pick(["files", "reversed", "dir", "dirs"] if kind != ".te" else ["reversed", "dirs"] if not rest else ["files"])
    f = {("d/" if how == "dir" else "d%d/" % (i % 3) if how == "dirs" else "") + n: TEXT[n] for i, n in enumerate(names)}
    if how in ("dir", "dirs"):
        argv = ARGV + ["-r", "."]
    else:
        argv = ARGV + (names if how == "files" else names[::-1])
    return Case(f, [argv], exact(wanted(names)))


POL = sorted(p for p in FILES if "/" in p)
SUP = sorted(p for p in FILES if "/" not in p)


def policy_orders(c):
    """all orders of the files of the policy, with the support files before or after"""
    order = list(c.perm(POL))
    at = c.pick(["first", "last"])
    argv = ["-s"] + (SUP + order if at == "first" else order + SUP[::-1])
    return Case(dict(FILES), [argv], exact(FINDINGS))


def policy_dirs(c):
    """the same files in other directories; the layers of the modules stay"""
    where = {p: c.pick(["", "x/", "y/z/"]) for p in POL}
    sup = c.pick(["", "x/", "support/deep/"])
    f = {where[p] + p: FILES[p] for p in POL}
    f.update({sup + p: FILES[p] for p in SUP})
    paths = c.pick([["."], ["./"], ["x", "y", "apps", "kernel"] + (SUP if sup == "" else ["support"] if sup.startswith("s") else [])])
    f.update({"x/q.txt": "", "y/q.txt": "", "apps/q.txt": "", "kernel/q.txt": ""})
    return Case(f, [["-s", "-r"] + paths], exact(FINDINGS))


def neighbours(c):
    """unrelated files next to the policy add their own findings only"""
    pool = [u for u in UNITS if not any(isinstance(x, str) for x in u[2]) and u[0] not in ("tmpl.te", "plain.te", "rules.te", "req.te")]
    n = 1 + c.choose(2)
    us = []
    for _ in range(n):
        u = c.pick(pool)
        if u in us:
            return None
        us.append(u)
    at = c.pick(["before", "after", "around"])
    names = [u[0] for u in us]
    own = [p for p in POL]
    order = names + own if at == "before" else own + names if at == "after" else names[:1] + own + names[1:]
    f = dict(FILES)
    f.update({x: TEXT[x] for x in names})
    exp = FINDINGS + wanted(names)

    def judge(rs):
        got = [x for x in rs[0].locs() if x[0] not in names or x[2] in ARGV]
        want = sorted(exp)
        if rs[0].code or got != want:
            return "%s: exit %d, unexpected %s missing %s" % (names, rs[0].code, [x for x in got if x not in want], [x for x in want if x not in got])
        return None
    return Case(f, [["-s"] + SUP + order], judge)


def repeated(c):
    """the same command on the same files gives the same report"""
    names = [c.pick([u[0] for u in UNITS]) for _ in range(2)]
    if names[0] == names[1]:
        return None
    opt = c.pick([["-S"], ["-F"], ["-v"], ["--color=always"], []])
    f = dict(FILES)
    f.update({x: TEXT[x] for x in names})
    a = ["-s"] + opt + SUP + POL + names

    def judge(rs):
        if len({(r.out, r.code) for r in rs}) != 1:
            return "two runs differ"
        return None if len(rs[0].findings) >= len(FINDINGS) or opt == ["--color=always"] else "findings lost"
    return Case(f, [a, a, a], judge)


def many(c):
    """one special file among many"""
    n = c.pick([1, 3, 33, 65, 100, 129, 257, 400])
    u = c.pick([x for x in UNITS if not any(isinstance(y, str) for y in x[2]) and x[0] != "tmpl.te"])
    at = c.pick(["first", "second", "middle", "last"])
    names, f = [], {}
    for i in range(n):
        x = "g%d.%s" % (i, ("te", "if", "fc")[i % 3])
        f[x] = {"te": "policy_module(g%d,1.0)\ntype g%d_t;\n;\n", "if": DOC + "interface(`g%d_i',`\n\ttype g%d_x_t;\n')\n",
                "fc": "/g%d\t<<none>>\nbad%d\n"}[x[-2:]] % (i, i)
        names.append(x)
    exp = [(x, {"te": 3, "if": 3, "fc": 2}[x[-2:]], {"te": "S-003", "if": "S-005", "fc": "E-002"}[x[-2:]]) for x in names]
    names.insert({"first": 0, "second": min(1, n), "middle": n // 2, "last": n}[at], u[0])
    f[u[0]] = u[1]
    return Case(f, [ARGV + names], exact(exp + wanted([u[0]])))


def chain(c):
    """declarations, templates and interfaces used across files, in every order of the files"""
    files = {
        "a.te": "policy_module(a,1.0)\ntype a_t;\nb_tmpl(a)\nallow a_t a_x_t:file getattr;\nallow a_t c_t:file getattr;\n",
        "b.if": DOC + "template(`b_tmpl',`\n\tc_tmpl($1)\n')\n", "c.if": DOC + "template(`c_tmpl',`\n\ttype $1_x_t;\n')\n",
        "c.te": "policy_module(c,1.0)\ntype c_t;\nallow c_t a_x_t:file getattr;\n",
        "d.fc": "/a\tgen_context(system_u:object_r:a_x_t,s0)\n/b\tgen_context(system_u:object_r:c_t,s0)\n/c\tgen_context(system_u:object_r:n_t,s0)\n",
        "d.if": DOC + "interface(`d_i',`\n\tallow $1 a_x_t:file getattr;\n\tb_tmpl($1)\n')\n",
    }
    drop = c.pick([None, "c.te", "c.if", "b.if", "a.te"])
    order = list(c.perm(sorted(x for x in files if x != drop)))
    deep = drop not in ("c.if", "b.if")
    exp = [("d.fc", 3, "E-005")]
    if drop != "c.te":
        exp += [("a.te", 5, "W-001")] if drop != "a.te" else []
    else:
        exp += [("d.fc", 2, "E-005")]
    if drop == "a.te" or not deep:
        exp.append(("d.fc", 1, "E-005"))
    else:
        exp.append(("d.if", 3, "W-002"))
        if drop != "c.te":
            exp.append(("c.te", 3, "W-001"))
    return Case({x: files[x] for x in order}, [["-s", "-E", "-e", "W-001", "-e", "W-002", "-e", "E-005"] + order], exact(exp, str(drop)))


# statements of two files that mention the same names
NAMES = {"aa.te": "type aa_t;\nrole aa_r;\nattribute aa_a;\n", "bb.te": "type bb_t;\nrole bb_r;\nattribute bb_a;\n",
         "cc.if": DOC + "interface(`cc_do',`\n\tallow $1 self:file getattr;\n')\n" + DOC + "template(`cc_tmpl',`\n\ttype $1_new_t;\n')\n" +
         "template(`cc_other',`\n\ttype $1_n_t;\n')\n"}
LINES = {
    "te": ["allow %s aa_t:file getattr;", "allow %s bb_t:file getattr;", "require { type aa_t; }\nallow %s aa_t:file read;", "cc_do(aa_t)", "cc_none(%s)",
           "optional_policy(`\ncc_do(bb_t)\n')", "allow %s %s:file { read getattr };", "role aa_r types bb_t;", "cc_do(cc_do)", ";"],
    "if": ["allow $1 aa_t:file getattr;", "allow $1 bb_t:file getattr;", "gen_require(`\ntype aa_t;\n')\nallow $1 aa_t:file read;", "gen_require(`\ntype bb_t, aa_t;\n')",
           "cc_tmpl($1)", "cc_other($1)", "cc_none($1)", "cc_do(aa_t)", "type $1_own_t;", "role $1 types aa_t;"],
    "fc": ["gen_context(system_u:object_r:aa_t,s0)", "gen_context(system_u:object_r:bb_t,s0)", "gen_context(system_u:aa_r:no_t,s0)", "gen_context(no_u:no_r:aa_t,s0)",
           "system_u:object_r:bb_t:s0", "gen_context(system_u:object_r:bb_t)", "<<none>>", "system_u:bb_r:no_t", "garbage", "gen_context(system_u:object_r:aa_t,s0"],
}


def shared(kinds, count):
    def body(c):
        """two files whose statements mention the same names: each has the findings it has without the other"""
        ka, kb = c.pick(kinds)
        texts = {}
        for k, m in ((ka, "pp"), (kb, "qq")):
            ls = c.seq(LINES[k], count, 1)
            if k == "te":
                t = "policy_module(%s,1.0)\ntype %s_t;\n" % (m, m) + "".join(l.replace("%s", m + "_t") + "\n" for l in ls)
            elif k == "if":
                t = "".join(DOC + "interface(`%s_i%d',`\n%s\n')\n" % (m, j, l) for j, l in enumerate(ls))
            else:
                # a module's contexts next to its declarations
                t = "".join("/%s%d\t%s\n" % (m, j, l) for j, l in enumerate(ls))
            texts[{"pp": "aa" if k == "fc" else "pp", "qq": "bb" if k == "fc" else "qq"}[m] + "." + k] = t
        a, b = sorted(texts)
        files = {n: "policy_module(%s,1.0)\n%s" % (n[:2], t) if n.endswith(".te") else t for n, t in NAMES.items()}
        files.update(texts)
        files["modules.conf"] = "cc = module\n"
        files["cfg"] = "assume_users = { system_u }\nassume_roles = { object_r }\n"
        base = ["-s", "-c", "cfg", "modules.conf"] + sorted(NAMES)

        def judge(rs):
            if any(r.code for r in rs):
                return "exit status %s" % [r.code for r in rs]
            fs = [[(f[0], f[1], f[4], f[3]) for f in r.findings] for r in rs]
            for i, n in ((0, a), (1, b)):
                want = [f for f in fs[i] if f[0] == n]
                for got, how in ((fs[2], "after" if n == b else "before"), (fs[3], "before" if n == b else "after")):
                    got = [f for f in got if f[0] == n]
                    if got != want:
                        return "%s %s the other file: unexpected %s, missing %s" % (n, how, [x for x in got if x not in want][:3], [x for x in want if x not in got][:3])
            return None
        return Case(files, [base + [a], base + [b], base + [a, b], [*base[:4], b, a, *base[4:]]], judge)
    return body


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("orders", orders(4 if deep else 3), "all ordered selections of up to 3 (4 thorough) of 30 files"),
        Space("subsets", subsets, "all sets of the files of one kind, next to none or all of the others, 4 layouts"),
        Space("policy-orders", policy_orders, "all orders of the 7 files of a policy with 41 findings"),
        Space("policy-directories", policy_dirs, "3^7 directories x 3 x 3"),
        Space("neighbours", neighbours, "ordered pairs of 22 unrelated files x 3 positions"),
        Space("repeated", repeated, "pairs of files x 5 options, three runs each"),
        Space("many", many, "8 numbers of files to 400 x 26 special files x 4 positions"),
        Space("shared", shared([(k, k) for k in LINES], 2), "two files of a kind, each with up to 2 of 10 statements mentioning the same names, in both orders"),
        Space("shared-kinds", shared([(k, l) for k in LINES for l in LINES if k < l], 2), "the same for files of two kinds"),
        Space("chain", chain, "all orders of 5-6 files using each other's declarations and templates"),
    ]
