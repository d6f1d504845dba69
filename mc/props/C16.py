"""Context files only add knowledge: they are never reported on and never change what is known."""
from core import Case, Space
from fixture import FILES, FINDINGS, IDS
from stmts import exact, only

RULE = ("Every way to put 5 definition files into the scanned tree, two context trees, a hidden directory of a context tree or "
        "nowhere; every partition of the 10 files of a policy with a violation of every check into scanned, context and absent, "
        "compared with scanning all of it; overlapping, repeated, missing and unparsable context paths; conflicting support files.")
ASSUMPTIONS = ["every name is declared once over all files", "directories are read in any order, so no expectation depends on it"]

OTH_TE = """policy_module(oth,1.0)
type f_t;
role f_r;
gen_user(f_u,,f_r,s0,s0)
attribute f_a;
"""
OTH_IF = """## <summary>x</summary>
## <summary>x</summary>
interface(`oth_i',`
	gen_require(`
		type f_t;
	')
	allow $1 f_t:file getattr;
')
## <summary>x</summary>
interface(`oth_i2',`
	allow $1 self:file getattr;
')
## <summary>x</summary>
template(`oth_tmpl',`
	type $1_t;
')
"""
DEFS = {"oth.te": OTH_TE, "oth.if": OTH_IF, "modules.conf": "oth = module\nown = module\n",
        "obj_perm_sets.spt": "define(`read_file_perms',`{ getattr open read lock ioctl }')\n",
        "access_vectors": "class file { getattr open read lock ioctl }\nclass dir { search }\n"}
OWN_TE = """policy_module(own,1.0)
type own_t;
type x_t;
allow own_t f_t:file getattr;
oth_i(own_t)
oth_tmpl(zz)
allow own_t zz_t:file getattr;
allow own_t x_t:nosuch getattr;
allow own_t x_t:file nosuchperm;
allow own_t x_t:file { getattr open read lock ioctl };
type oth_i2;
"""
OWN_IF = """# c
## <summary>x</summary>
interface(`own_i',`
	allow $1 f_t:file getattr;
	oth_tmpl($1)
')
"""
OWN_FC = """/a	gen_context(f_u:object_r:own_t,s0)
/b	gen_context(system_u:f_r:own_t,s0)
/c	gen_context(system_u:object_r:f_t,s0)
/d	gen_context(system_u:object_r:zz_t,s0)
"""
CHECKS = ["W-001", "W-002", "W-005", "W-010", "S-004", "S-010", "E-003", "E-004", "E-005", "E-006", "E-007", "E-008"]


def expected(have):
    te, iff, mods = "oth.te" in have, "oth.if" in have, "modules.conf" in have
    spt, av = "obj_perm_sets.spt" in have, "access_vectors" in have
    x = []
    if te:
        x += [("own.te", 4, "W-001"), ("own.if", 4, "W-002")]
    else:
        x += [("own.fc", 1, "E-003"), ("own.fc", 2, "E-004"), ("own.fc", 3, "E-005")]
    if mods:
        x += [("own.te", l, "W-005" if iff else "W-010") for l in (5, 6)]
        x.append(("own.if", 5, "W-005" if iff else "W-010"))
    if iff:
        x += [("own.if", 5, "S-004"), ("own.te", 11, "E-006")]
    else:
        x += [("own.fc", 4, "E-005")]
    if av:
        x.append(("own.te", 8, "E-008"))
    if av and spt:
        x.append(("own.te", 9, "E-007"))
    if spt:
        x.append(("own.te", 10, "S-010"))
    return x


PLACE = {"scan": "src/o/", "ctx": "ctx/o/", "ctx2": "ctx2/", "hidden": "ctx2/.git/x/y/", "none": None}


def context_args(dirs, style):
    a = []
    for d in dirs:
        a += ["--context=" + d] if style else ["--context", d]
    return a


def places(c):
    at = {d: c.pick(sorted(PLACE)) for d in sorted(DEFS)}
    order = c.pick([["ctx", "ctx2"], ["ctx2", "ctx"]])
    mode = c.pick(["recursive", "explicit"])
    f, have = {"ctx/a.txt": "x", "ctx2/b.txt": "x"}, set()
    for d, p in at.items():
        if PLACE[p] is not None:
            f[PLACE[p] + d] = DEFS[d]
            have.add(d)
    f.update({"src/own.te": OWN_TE, "src/own.if": OWN_IF, "src/own.fc": OWN_FC})
    if mode == "recursive":
        argv = only(*CHECKS)[1:] + ["-r"] + context_args(order, True) + ["src"]
    else:
        argv = only(*CHECKS)[1:] + context_args(order, False) + sorted(p for p in f if p.startswith("src/"))
    return Case(f, [argv], exact(expected(have)))


def partition(c):
    """scanned and context files: the same findings for the scanned ones as when all are scanned"""
    fs = sorted(FILES)
    where = {}
    for p in fs:
        if p in ("access_vectors", "obj_perm_sets.spt", "modules.conf"):
            where[p] = "scan" if not (p == "access_vectors" and c.flag()) else "ctx"
        else:
            where[p] = c.pick(["scan", "ctx", "none"])
    if not any(where[p] == "scan" and "/" in p for p in fs):
        return None
    if not any(where[p] == "ctx" and "/" in p for p in fs):
        return None
    f = {"ctx/x": (1, ""), "src/x": (1, "")}
    for p, w in where.items():
        if w != "none":
            f[("src/" if w == "scan" else "ctx/") + p] = FILES[p]
    scanned = {p.rsplit("/", 1)[1] for p in fs if where[p] == "scan" and "/" in p}
    everything = all(where[p] != "none" for p in fs)

    def judge(rs):
        a, b = rs
        if a.code != 0 or b.code != 0:
            return "exit status %s and %s" % (a.code, b.code)
        ref = [x for x in b.locs() if x[0] in scanned]
        if a.locs() != ref:
            return "with context %s, all scanned %s" % ([x for x in a.locs() if x not in ref][:5],
                                                        [x for x in ref if x not in a.locs()][:5])
        full = [x for x in FINDINGS if x[0] in scanned]
        if everything and a.locs() != full:
            return "not the expected findings"
        n = {}
        for _, _, i in a.locs():
            n[i] = n.get(i, 0) + 1
        if a.summary != n:
            return "summary %s" % a.summary
        return None
    return Case(f, [["-r", "-S", "--context=ctx", "src"], ["-s", "-r", "src", "ctx"]], judge)


def overlap(c):
    """context paths covering the scanned files or each other, given in several spellings and several times"""
    n = 1 + c.choose(2)
    ctx = [c.pick(["src", "src/", "./src", "src/own.te", "src/own.if", ".", "src/../src", "ctx", "ctx/oth.te", "ctx/oth.if", "nowhere",
                   "src/own.fc", "ctx/.h", "src/sub", ""]) for _ in range(n)]
    scan = c.pick([["src"], ["./src"], ["src/own.te", "src/own.if", "src/own.fc"], ["src/own.fc", "src/own.if"], ["src/own.te"],
                   ["src/own.if"]])
    f = {"src/own.te": OWN_TE, "src/own.if": OWN_IF, "src/own.fc": OWN_FC, "ctx/oth.te": OTH_TE, "ctx/oth.if": OTH_IF,
         "ctx/.h/modules.conf": DEFS["modules.conf"], "src/sub/x": (1, "")}
    have = set()
    known = set(scan) if len(scan) > 1 or "own" in scan[0] else {"src/own.te", "src/own.if", "src/own.fc"}
    for x in ctx:
        if x in (".", "ctx", "ctx/oth.te"):
            have.add("oth.te")
        if x in (".", "ctx", "ctx/oth.if"):
            have.add("oth.if")
        if x in (".", "ctx", "ctx/.h"):
            have.add("modules.conf")
    own_te = "src/own.te" in known or any(x in (".", "src", "src/", "./src", "src/own.te", "src/../src") for x in ctx)
    base = {p.rsplit("/", 1)[1] for p in known}
    exp = [x for x in expected(have) if x[0] in base]
    if not own_te:
        exp += [("own.fc", l, "E-005") for l in ((1, 2, 4) if "oth.if" in have else (1, 2))] if "own.fc" in base else []
    argv = only(*CHECKS)[1:] + ["-r"] + context_args(ctx, c.flag()) + scan
    # an empty path is refused
    return Case(f, [argv], exact([] if "" in ctx else exp, str(ctx), 64 if "" in ctx else 0))


BROKEN = {
    "te-syntax": ("b.te", "policy_module(b,1.0)\nallow x;\n", 70), "if-syntax": ("b.if", "interface(`b',`\nallow x;\n')\n", 70),
    "te-open": ("b.te", "policy_module(b,1.0)\noptional_policy(`\n", 70), "te-swapped": ("b.te", "interface(`b',`\nx_y(a)\n')\n", 70),
    "if-swapped": ("b.if", "policy_module(b,1.0)\n", 70), "te-dangling": ("b.te", (2, "nowhere"), 70),
    "if-dangling": ("b.if", (2, "nowhere"), 70),
    "fc-bad": ("b.fc", "garbage (((\n", 0), "fc-dangling": ("b.fc", (2, "nowhere"), 0), "other": ("b.txt", "allow x;\n", 0),
    "dir-te": ("b.te", (1, ""), 0), "dir-if": ("b.if", (1, ""), 0), "hidden-te": (".b.te", "policy_module(b,1.0)\nallow x;\n", 70),
    "suffixless": ("te", "allow x;\n", 0), "upper": ("b.TE", "allow x;\n", 0), "backup": ("b.te~", "allow x;\n", 0),
    "mods": ("modules.conf", "oth module\n", 0), "spt": ("obj_perm_sets.spt", "define(((\n", 0), "av": ("access_vectors", "class {\n", 0),
}


def broken(c):
    """unreadable context files: te and if files are needed, anything else is not even opened or only costs a warning"""
    k = c.pick(sorted(BROKEN))
    where = c.pick(["ctx/", "ctx/a/b/c/", "ctx/.hid/"])
    withdefs = c.pick([[], ["oth.te"], ["oth.te", "oth.if"]])
    direct = c.flag()
    name, text, code = BROKEN[k]
    f = {where + name: text, "src/own.te": OWN_TE, "src/own.if": OWN_IF, "src/own.fc": OWN_FC, "ctx/x.txt": ""}
    for d in withdefs:
        f["ctx/" + d] = DEFS[d]
    argv = only(*CHECKS)[1:] + ["-r", "--context=ctx"] + (["--context=" + where + name] if direct else []) + ["src"]
    exp = sorted(expected(set(withdefs)))

    def judge(rs):
        r = rs[0]
        if r.code != code:
            return "%s: exit status %d, expected %d" % (k, r.code, code)
        got = [x for x in r.locs() if not x[2].startswith("F-")]
        if got != (exp if code == 0 else []):
            return "%s: findings %s" % (k, got)
        if code == 0 and k not in ("spt", "av") and got != r.locs():
            return "%s: F finding" % k
        return None
    return Case(f, [argv], judge)


def conflict(c):
    """support files: those of the scanned tree win over those of a context, the first context over the second"""
    kind = c.pick(["modules.conf", "obj_perm_sets.spt", "access_vectors"])
    places_ = c.subset(["src/", "ctx/", "ctx2/"])
    marks = {p: c.flag() for p in places_}
    dirs = c.pick([["ctx", "ctx2"], ["ctx2", "ctx"]])
    scanned = c.pick(["recursive", "explicit"])
    texts = {"modules.conf": ("oth = base\n", "oth = module\n"),
             "obj_perm_sets.spt": ("define(`other_perms',`{ getattr open }')\n", "define(`rare_perms',`{ getattr open }')\n"),
             "access_vectors": ("class file { getattr open }\n", "class file { getattr open rare_perms }\n")}[kind]
    f = {"src/own.te": "policy_module(own,1.0)\ntype own_t;\ntype x_t;\noth_i(own_t)\nallow own_t x_t:file { rare_perms };\n",
         "src/oth.if": OTH_IF, "ctx/x.txt": "", "ctx2/x.txt": ""}
    if kind != "modules.conf":
        f["src/modules.conf"] = "own = module\n"
    if kind == "obj_perm_sets.spt":
        f["src/access_vectors"] = "class file { getattr open }\n"
    elif kind == "access_vectors":
        f["src/obj_perm_sets.spt"] = "define(`other_perms',`{ getattr open }')\n"
    for p in places_:
        f[p + kind] = texts[marks[p]]
    winner = None
    for p in ["src/"] + [d + "/" for d in dirs]:
        if p in places_:
            winner = marks[p]
            break
    exp = []
    if kind == "modules.conf":
        if winner:
            exp = [("own.te", 4, "W-005")]
    elif winner is False:
        exp = [("own.te", 5, "E-007")]
    argv = only("W-005", "E-007")[1:] + context_args(dirs, True)
    argv += ["-r", "src"] if scanned == "recursive" else sorted(p for p in f if p.startswith("src/"))
    return Case(f, [argv], exact(exp))


def close(name):
    """names that are close to this one, and are not it"""
    stem, dot, suf = name.rpartition(".")
    v = [name + "x", name + ".x", name + ".te.x", "x" + name, "x." + name, "." + name, name[:-1], name[1:], name.upper(), name.capitalize(), name[:-1] + name[-1].upper(),
         name + "~", name + ".bak", name + ".", name + " ", " " + name, name + "_", name.replace("_", "-"), name.replace("_", ""), name.replace("_", "."), name + name, "x" + name + "x", suf, stem]
    if dot:
        v += [stem + suf, stem + "." + suf[:1], stem + "." + suf + suf, stem + "." + suf.upper(), stem + "." + suf.capitalize(), stem + "." + suf[0] + suf[1:].upper(), stem + ".x" + suf, stem + "." + suf + "x", stem + "..x" + suf,
              stem + "." + suf + ".txt", stem + "." + suf + "1", stem + "_" + suf, stem + ". " + suf]
    ok = [x for i, x in enumerate(v) if x and x not in v[:i] and x not in DEFS]
    # a file with another stem but the suffix of a policy file is one more policy file
    return [x for x in ok if x[-3:] not in (".te", ".if", ".fc") and x[-1] != "/"]


def names(c):
    """a support or policy file under a name that is only close to the right one is not read, alone or beside the right one in any place"""
    d = c.pick(sorted(DEFS))
    name = c.pick(close(d))
    where = c.pick(["src/", "ctx/", "ctx2/", "src/o/"])
    right = c.pick(["none", "src/", "ctx/", "ctx2/"])
    mode = c.pick(["recursive", "explicit"])
    text = c.flag() if right != "none" else True
    f = {"ctx/a.txt": "x", "ctx2/b.txt": "x"}
    for x in DEFS:
        if x != d:
            f["ctx/" + x] = DEFS[x]
    have = set(DEFS) - {d}
    f[where + name] = DEFS[d] if text else "# nothing\n"
    if right != "none":
        f[right + d] = DEFS[d]
        have.add(d)
    f.update({"src/own.te": OWN_TE, "src/own.if": OWN_IF, "src/own.fc": OWN_FC})
    argv = only(*CHECKS)[1:] + context_args(["ctx", "ctx2"], True)
    argv += ["-r", "src"] if mode == "recursive" else sorted(p for p in f if p.startswith("src/"))
    return Case(f, [argv], exact(expected(have)))


TRANS = {"call": ("oth_i(own_t)", OTH_IF, False),
         "transform": ("oth_i(own_t)", OTH_IF.replace("allow $1 f_t:file getattr", "allow $1 f_t:filesystem associate"), True),
         "attribute": ("oth_i(own_t)", OTH_IF.replace("allow $1 f_t:file getattr", "role f_r types $1"), True)}


def transforms(c):
    """interfaces of context files take part in the ordering: through other interfaces as well, in whatever order they are read"""
    k = c.pick(sorted(TRANS))
    call, text, trans = TRANS[k]
    depth = c.choose(4)
    where = [c.pick(["src/", "ctx/", "ctx2/"]) for _ in range(depth + 1)]
    suffix = c.pick(["", "z"])
    f = {where[0] + "apps/oth.if": text, "src/x": (1, ""), "ctx/x": (1, ""), "ctx2/x": (1, "")}
    name = "oth_i"
    for i in range(depth):
        nxt = "w%s%d_i" % (suffix, i)
        f[where[i + 1] + "apps/w%s%d.if" % (suffix, i)] = (
            "## <summary>x</summary>\n## <summary>x</summary>\ninterface(`%s',`\n\t%s($1)\n')\n" % (nxt, name))
        name = nxt
    f["src/apps/own.te"] = "policy_module(own,1.0)\ntype own_t;\n%s(own_t)\nallow own_t self:file getattr;\n" % name
    argv = only("C-001")[1:] + ["-r", "--context=ctx", "--context=ctx2", "src"]
    argv2 = only("C-001") + ["-r", "src", "ctx", "ctx2"]

    def judge(rs):
        a, b = rs
        if a.code or b.code:
            return "exit status %s %s" % (a.code, b.code)
        if a.locs() != b.locs():
            return "context %s, scanned %s" % (a.locs(), b.locs())
        if depth == 0 and bool(a.locs()) == trans:
            return "%s: %s" % (k, a.locs())
        return None
    return Case(f, [argv, argv2], judge)


def many(c):
    """the one context file that matters among many"""
    n = c.pick([1, 2, 9, 33, 65, 129, 300])
    at = c.pick(["first", "second", "middle", "last", "none"])
    layout = c.pick(["flat", "nested", "paths"])
    kind = c.pick(["te", "if", "tmpl"])
    i = {"first": 0, "second": min(1, n - 1), "middle": n // 2, "last": n - 1, "none": -1}[at]
    if layout == "paths" and n > 65:
        return None
    f = {"src/own.te": OWN_TE, "src/own.if": OWN_IF, "src/own.fc": OWN_FC}
    dirs = []
    for j in range(n):
        d = "ctx" if layout == "flat" else "ctx/" + "d/" * (j % 7) if layout == "nested" else "ctx/p%d" % j
        d = d.rstrip("/")
        if layout == "paths":
            dirs.append(d)
        f["%s/m%d.te" % (d, j)] = "policy_module(m%d,1.0)\ntype m%d_t;\n" % (j, j)
        f["%s/m%d.if" % (d, j)] = "# c\ninterface(`m%d_i',`\n\tallow $1 self:file getattr;\n')\n" % j
        if j == i:
            f["%s/oth.%s" % (d, "te" if kind == "te" else "if")] = OTH_TE if kind == "te" else OTH_IF
    have = set() if i < 0 else {"oth.te" if kind == "te" else "oth.if"}
    argv = only(*CHECKS)[1:] + ["-r"] + context_args(dirs or ["ctx"], True) + ["src"]
    return Case(f, [argv], exact(expected(have)))


def spaces(tier):
    return [
        Space("places", places, "5 definition files in 5 places x context orders x recursive or explicit"),
        Space("partition", partition, "all partitions of 7 files into scanned, context and absent"),
        Space("overlap", overlap, "up to 2 of 15 context paths x 6 sets of scanned paths x 2 spellings"),
        Space("broken", broken, "19 broken or foreign files x 3 directories x 3 sets of definitions x given directly or not"),
        Space("conflict", conflict, "3 support files in 3 trees x 2 contents x context orders"),
        Space("many", many, "up to 300 context modules, one of them with the definitions, in 3 layouts"),
        Space("transforms", transforms, "3 kinds of interface behind up to 3 others, each scanned or in 2 contexts"),
        Space("names", names, "up to 40 names close to that of each of 5 definition files x 4 places x the right one in 4 places x content x 2 modes"),
    ]
