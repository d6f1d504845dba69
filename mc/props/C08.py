"""Requirements of interfaces: W-002, W-003, W-011."""
from core import Case, Space
from stmts import USES, emit, exact, near, only, tree, walk

RULE = ("Every statement form (49) x kind of name x requirement, for names used but not required and required but not used; "
        "every forest of up to 6 (7 thorough) requirements, uses, fillers and nested blocks; every sequence up to 5 over "
        "two names and several interfaces; every flavour x declaring module x requirement form; lists up to 300 names.")
ASSUMPTIONS = ["every name is declared once, the module name equals the file name and names are required with their flavour",
               "a requirement repeated later in the same interface without a use is not judged"]

OTHER = """policy_module(oth,1.0)
type f_t;
type f2_t alias f_alias_t, fattr;
attribute fattr;
typealias f_t alias f_ta_t;
attribute_role f_ra;
role f_r;
bool f_b;
"""
OWN_TE = """policy_module(own,1.0)
attribute own_a;
attribute_role own_ra;
role own_r;
type own_t alias own_alias_t;
type own2_t, own_a;
bool own_b;
oth_tmpl(own)
"""
KERNEL = "policy_module(kernel,1.0)\nrole system_r;\nrole kern_r;\ntype kern_t;\n"
OTHER_IF = "## <summary>x</summary>\ntemplate(`oth_tmpl',`\n\ttype $1_tmpl_t;\n\trole $1_tmpl_r;\n')\n"
ENV = {"oth.te": OTHER, "own.te": OWN_TE, "kernel.te": KERNEL, "oth.if": OTHER_IF}
FLAVOR = {"f_t": "type", "f2_t": "type", "f_alias_t": "type", "f_ta_t": "type", "fattr": "attribute", "f_ra": "attribute_role",
          "f_r": "role", "own_t": "type", "own2_t": "type", "own_alias_t": "type", "own_a": "attribute",
          "own_ra": "attribute_role", "own_r": "role", "system_r": "role", "kern_r": "role", "kern_t": "type",
          "own_tmpl_t": "type", "own_tmpl_r": "role"}
NAMES = sorted(FLAVOR) + ["unknown_t", "self", "$1", "$1_t", "f_", "f_tt"]
# forms for interfaces: what belongs to the own module there comes from the arguments
IFUSES = [(i, f.replace("own2_t", "$2").replace("own_t", "$1").replace("own_ra", "$5").replace("own_r", "$3")
           .replace("own_a", "$4")) for i, f in USES]


def case(text, exp, ids, files=None, what="", order=None):
    f = dict(ENV)
    f.update(files or {})
    f["own.if"] = text
    return Case(f, [only(*ids) + (order or sorted(f))], exact([("own.if",) + x for x in exp], what))


class Doc:
    def __init__(self):
        self.l = []

    def add(self, *ls):
        self.l.extend(ls)
        return len(self.l)

    def text(self):
        return "\n".join(self.l) + "\n"


def head(d, name="own_i", kw="interface"):
    d.add("## <summary>x</summary>", "%s(`%s',`" % (kw, name))


def used(c):
    """W-002: each form x name x requirement"""
    fid, form = c.pick(IFUSES)
    name = c.pick(NAMES)
    req = c.pick(["none", "before", "after", "other-interface", "later-interface", "in-ifdef", "in-optional", "list-last",
                  "lines-last", "require", "unquoted", "cond", "similar", "second"])
    kw = c.pick(["interface", "template"])
    if "$" in name:
        if req != "none" or '"' in form or "-%s" in form:
            return None
    if name in ("self", "unknown_t", "f_", "f_tt") and req != "none":
        return None
    if kw == "template" and req not in ("none", "before", "after"):
        return None
    fl = FLAVOR.get(name, "type")
    decl = "%s %s;" % (fl, name)
    pre = {"before": ["gen_require(`", decl, "')"], "in-ifdef": ["ifdef(`b',`", "gen_require(`", decl, "')", "')"],
           "in-optional": ["optional_policy(`", "gen_require(`", decl, "')", "')"],
           "list-last": ["gen_require(`", "%s aa, bb, %s;" % (fl, name), "')"],
           "lines-last": ["gen_require(`", "type aa, bb;", "attribute cc;", "class file { a b };", decl, "')"],
           "require": ["require {", decl, "}"], "unquoted": ["gen_require(", decl, ")"],
           "cond": ["gen_require(`", "type aa;", "ifdef(`b',`", decl, "')", "')"],
           "similar": ["gen_require(`", "%s x%s, %sx;" % (fl, name, name), "')"],
           "second": ["gen_require(`", "type aa;", "')", "allow $1 self:file a;", "gen_require(`", decl, "')"]}
    d = Doc()
    if req == "other-interface":
        head(d, "own_first")
        d.add("gen_require(`", decl, "')", "allow $1 self:file a;", "')")
    head(d, kw=kw)
    d.add(*pre.get(req, []))
    at = d.add(form % name)
    if req == "after":
        d.add("gen_require(`", decl, "')")
    d.add("')")
    if req == "later-interface":
        head(d, "own_last")
        d.add("gen_require(`", decl, "')", "')")
    ok = req in pre and req != "similar" or name not in FLAVOR or name == "system_r"
    return case(d.text(), [] if ok else [(at, "W-002")], ["W-002"], what="%s %s %s" % (fid, name, req))


def unused(c):
    """W-003: each form x requirement"""
    fid, form = c.pick(IFUSES + [("none", "allow $1 self:file a;")])
    name = c.pick(["f_t", "own_t", "own_a", "f_ra", "own_r", "unknown_t", "$1_t"])
    use = c.pick([name, "x" + name, name + "x", name[:-1], name.upper()])
    if fid == "none" and use != name:
        return None
    if "$" in name and ('"' in form or "-%s" in form or use != name):
        return None
    fl = FLAVOR.get(name, "type")
    req = c.pick(["before", "after", "list", "other-interface", "cond", "require", "in-optional", "use-nested", "stub",
                  "stub-template", "stubs"])
    nm = {"stub": "own_stub", "stub-template": "own_stub", "stubs": "own_stub_x"}.get(req, "own_i")
    kw = "template" if req == "stub-template" else "interface"
    d = Doc()
    if req == "other-interface":
        head(d, "own_use")
        d.add("allow $1 %s:file a;" % name, "')")
    head(d, nm, kw)
    use_line = form % use if "%s" in form else form
    is_used = use == name and fid != "none"
    exp = []
    r = None
    if req == "after":
        d.add(use_line)
        is_used = False
    if req == "list":
        d.add("gen_require(`")
        r = d.add("%s aa, %s, bb;" % (fl, name))
        d.add("')", "allow { aa bb } self:file a;")
    elif req == "cond":
        d.add("gen_require(`", "ifdef(`b',`")
        r = d.add("%s %s;" % (fl, name))
        d.add("')", "')")
    elif req == "require":
        r = d.add("require {", "%s %s;" % (fl, name))
        d.add("}")
    elif req == "in-optional":
        d.add("optional_policy(`", "gen_require(`")
        r = d.add("%s %s;" % (fl, name))
        d.add("')", "allow $1 self:file a;", "')")
    else:
        d.add("gen_require(`")
        r = d.add("%s %s;" % (fl, name))
        d.add("')")
    if req == "other-interface":
        d.add("allow $1 self:file a;")
        is_used = False
    elif req == "use-nested":
        d.add("optional_policy(`", "tunable_policy(`b',`", "allow $1 self:file a;", use_line, "')", "')")
    elif req != "after":
        d.add(use_line)
    d.add("')")
    if not is_used and req != "stub":
        exp.append((r, "W-003"))
    return case(d.text(), exp, ["W-003"], what="%s %s %s" % (fid, name, req))


def structure(size, depth, blocks, two):
    def body(c):
        f = tree(c, ["R", "U", "F"], blocks, size, depth, two)
        nodes = list(walk(f))
        us = [n for n in nodes if n.kind == "U"]
        rs = [n for n in nodes if n.kind == "R"]
        if not rs or all(n.branches is None for n in nodes):
            return None
        kw = c.pick(["interface", "template"])
        d = Doc()
        # the same name in the interfaces before and after must not matter
        head(d, "own_before")
        r0 = d.add("gen_require(`type own_t;')")
        d.add("')")
        head(d, kw=kw)
        emit(f, lambda n: {"R": ["gen_require(`type own_t;')"], "U": ["allow $1 own_t:file a;"],
                           "F": ["allow $1 self:file a;"]}[n.kind], d.l)
        d.add("')")
        head(d, "own_after")
        ux = d.add("allow $1 own_t:file a;")
        d.add("')")
        exp = [(r0, "W-003"), (ux, "W-002")]
        free = set()
        for u in us:
            if not any(r.line < u.line for r in rs):
                exp.append((u.line, "W-002"))
        for r in rs:
            if not any(u.line > r.line for u in us):
                if any(o.line > r.line for o in rs):
                    free.add(r.line)
                else:
                    exp.append((r.line, "W-003"))
        exp = [("own.if",) + x for x in exp]

        def judge(rs_):
            r = rs_[0]
            if r.code != 0:
                return "exit status %d" % r.code
            got = [x for x in r.locs() if not (x[1] in free and x[2] == "W-003")]
            if got != sorted(exp):
                return "unexpected %s, missing %s" % ([x for x in got if x not in exp], [x for x in exp if x not in got])
            return None
        fs = dict(ENV)
        fs["own.if"] = d.text()
        return Case(fs, [only("W-002", "W-003") + sorted(fs)], judge)
    return body


TOK = {"R1": ("gen_require(`type own_t;')", ["own_t"]), "R2": ("gen_require(`attribute own_a;')", ["own_a"]),
       "R12": ("require { type own_t; attribute own_a; }", ["own_t", "own_a"]),
       "U1": ("allow $1 own_t:file a;", ["own_t"]), "U2": ("typeattribute $1 own_a;", ["own_a"]),
       "U12": ("allow { own_a -own_t } self:file a;", ["own_t", "own_a"]), "N": (None, None)}


def sequences(n):
    def body(c):
        ks = c.seq(sorted(TOK), n, 1)
        if ks[0] == "N" or ks[-1] == "N" or any(a == b == "N" for a, b in zip(ks, ks[1:])):
            return None
        d = Doc()
        head(d, "own_0")
        exp, free = [], set()
        groups, cur = [], []
        for k in ks:
            if k == "N":
                groups.append(cur)
                cur = []
            else:
                cur.append(k)
        groups.append(cur)
        d = Doc()
        for gi, g in enumerate(groups):
            head(d, "own_%d" % gi, "template" if gi % 2 else "interface")
            at = [d.add(TOK[k][0]) for k in g]
            d.add("')")
            for i, k in enumerate(g):
                names = TOK[k][1]
                if k[0] == "U":
                    have = {x for q in g[:i] if q[0] == "R" for x in TOK[q][1]}
                    if any(x not in have for x in names):
                        exp.append((at[i], "W-002"))
                else:
                    later = {x for q in g[i + 1:] if q[0] == "U" for x in TOK[q][1]}
                    again = {x for q in g[i + 1:] if q[0] == "R" for x in TOK[q][1]}
                    for x in names:
                        if x not in later:
                            if x in again:
                                free.add(at[i])
                            else:
                                exp.append((at[i], "W-003"))
        exp = [("own.if",) + x for x in exp if not (x[0] in free and x[1] == "W-003")]

        def judge(rs_):
            r = rs_[0]
            if r.code != 0:
                return "exit status %d" % r.code
            got = [x for x in r.locs() if not (x[1] in free and x[2] == "W-003")]
            if got != sorted(exp):
                return "got %s, expected %s" % (got, sorted(exp))
            return None
        fs = dict(ENV)
        fs["own.if"] = d.text()
        return Case(fs, [only("W-002", "W-003") + sorted(fs)], judge)
    return body


DECLS = {"type": "type %s;", "attribute": "attribute %s;", "role": "role %s;", "attribute_role": "attribute_role %s;",
         "bool": "bool %s;", "alias": "type base_t alias %s;", "typealias": "type base_t; typealias base_t alias %s;",
         "gen_bool": "gen_bool(%s, false)", "gen_tunable": "gen_tunable(`%s', false)"}


def owned(c):
    """W-011: flavour x declaring module x requirement form"""
    fl = c.pick(sorted(DECLS))
    rfl = {"alias": "type", "typealias": "type", "gen_bool": "bool", "gen_tunable": "bool"}.get(fl, fl)
    where = c.pick(["own", "oth", "kernel", "nowhere", "template-own", "template-oth", "template-uncalled", "interface",
                    "own-nested", "oth-nested", "own-sub", "ctx", "required"])
    form = c.pick(["gen_require", "require", "unquoted", "list-first", "list-last", "cond", "nested", "template", "te"])
    mod = c.pick(["own", "ow", "own_", "kernelx", "m-d"])
    name = "name_x"
    d = Doc()
    if form != "te":
        head(d, kw="template" if form == "template" else "interface")
    if form in ("gen_require", "template", "te"):
        at = d.add("gen_require(`", "%s %s;" % (rfl, name))
        d.add("')")
    elif form == "require":
        at = d.add("require {", "%s %s;" % (rfl, name))
        d.add("}")
    elif form == "unquoted":
        at = d.add("gen_require(", "%s %s;" % (rfl, name))
        d.add(")")
    elif form in ("list-first", "list-last"):
        l = [name, "own1_x", "own2_x"]
        if form == "list-last":
            l.reverse()
        at = d.add("gen_require(`", "class file { a b };", "%s %s;" % (rfl, ", ".join(l)))
        d.add("')")
    elif form == "cond":
        at = d.add("gen_require(`", "ifdef(`b',`", "%s %s;" % (rfl, name))
        d.add("')", "')")
    else:
        at = d.add("optional_policy(`", "gen_require(`", "%s %s;" % (rfl, name))
        d.add("')", "allow $1 self:file a;", "')")
    if form != "te":
        d.add("allow $1 self:file a;", "')")
    decl = DECLS[fl] % name
    own = ["policy_module(%s,1.0)" % mod]
    if form.startswith("list"):
        base = DECLS[rfl]
        own += [base % "own1_x", base % "own2_x"]
    oth = ["policy_module(oth,1.0)", "type oth_t;"]
    kern = ["policy_module(kernel,1.0)", "type kernel_t;"]
    own.append("type zown_t;")
    tif = ""
    owner = None
    files = {}
    argv_ctx = None
    if where in ("own", "own-sub"):
        own.append(decl)
        owner = mod
    elif where == "own-nested":
        own += ["optional_policy(`", "tunable_policy(`b',`", decl, "')", "')"]
        owner = mod
    elif where == "oth-nested":
        oth += ["ifdef(`b',`", decl, "')"]
        owner = "oth"
    elif where == "oth":
        oth.append(decl)
        owner = "oth"
    elif where == "kernel":
        kern.append(decl)
        owner = "kernel"
    elif where.startswith("template"):
        tif = "## <summary>x</summary>\ntemplate(`oth_tm',`\n\t%s\n')\n" % (decl.replace("name_x", "$1_x")
                                                                                 .replace("base_t", "$1_base_t"))
        if where == "template-own":
            own.append("oth_tm(name)")
            owner = mod
        elif where == "template-oth":
            oth.append("oth_tm(name)")
            owner = "oth"
    elif where == "interface":
        if form == "te":
            return None
        # a declaration in an interface of the module belongs to it
        return None
    elif where == "required":
        oth.append("require { %s %s; }" % (rfl, name))
    elif where == "ctx":
        owner = "cm"
        files["ctx/cm.te"] = "policy_module(cm,1.0)\n%s\n" % decl
    pre = "layer/" if where == "own-sub" else ""
    if form == "te":
        own += d.l
    else:
        files[pre + mod + ".if"] = d.text()
    files[pre + mod + ".te"] = "\n".join(own) + "\n"
    files["oth.te"] = "\n".join(oth) + "\n"
    files["kernel.te"] = "\n".join(kern) + "\n"
    if tif:
        files["oth.if"] = tif
    bad = owner != mod and not (rfl == "role" and owner == "kernel") and form != "te"
    exp = [(mod + ".if", at, "W-011")] if bad else []
    argv = only("W-011")
    if where == "ctx":
        argv = argv[1:] + ["--context=ctx"]
    return Case(files, [argv + sorted(p for p in files if not p.startswith("ctx/"))],
                exact(exp, "%s %s %s" % (fl, where, form)))


def several(c):
    """which of several required names of several modules are reported"""
    pool = ["own_t", "own_a", "own_r", "own_b", "f_t", "f_ra", "f_r", "kern_r", "kern_t", "$1_t", "nowhere_t", "own_tmpl_t"]
    fl = dict(FLAVOR, own_b="bool", nowhere_t="type")
    fl["$1_t"] = "type"
    ns = c.seq(pool, 3, 1)
    split = c.flag()
    d = Doc()
    head(d)
    exp = []
    if not split:
        d.add("gen_require(`")
    for n in ns:
        if split:
            d.add("gen_require(`")
        at = d.add("\t%s %s;" % (fl[n], n))
        if n in ("f_t", "f_ra", "f_r", "kern_t", "nowhere_t"):
            exp.append((at, "W-011"))
        if split:
            d.add("')")
    if not split:
        d.add("')")
    d.add("allow $1 self:file a;", "')")
    # fl of bool is declared by own.te
    return case(d.text(), exp, ["W-011"])


def long_lists(c):
    n = c.pick([1, 2, 3, 31, 33, 64, 65, 129, 300])
    shape = c.pick(["list", "lines", "blocks", "uses"])
    missing = c.pick(["none", "first", "middle", "last"])
    unus = c.pick(["none", "first", "middle", "last"])
    names = ["n%03d_t" % i for i in range(n)]
    pos = {"none": None, "first": names[0], "middle": names[n // 2], "last": names[-1]}
    miss, un = pos[missing], pos[unus]
    if miss is not None and miss == un:
        return None
    d = Doc()
    head(d)
    line = {}
    req = [x for x in names if x != miss]
    if req:
        if shape == "list":
            d.add("gen_require(`")
            k = d.add("type %s;" % ", ".join(req))
            for x in req:
                line[x] = k
            d.add("')")
        elif shape in ("lines", "uses"):
            d.add("gen_require(`")
            for x in req:
                line[x] = d.add("type %s;" % x)
            d.add("')")
        else:
            for x in req:
                line[x] = d.add("gen_require(`type %s;')" % x)
    exp = []
    use = [x for x in names if x != un]
    if shape == "uses":
        for x in use:
            k = d.add("allow $1 %s:file a;" % x)
            if x == miss:
                exp.append((k, "W-002"))
    elif use:
        k = d.add("allow $1 { %s }:file a;" % " ".join(use))
        if miss in use:
            exp.append((k, "W-002"))
    d.add("allow $1 self:file a;", "')")
    if un in line:
        exp.append((line[un], "W-003"))
    for x in req:
        exp.append((line[x], "W-011"))
    big = "policy_module(big,1.0)\n" + "".join("type %s;\n" % x for x in names)
    return case(d.text(), exp, ["W-002", "W-003", "W-011"], files={"big.te": big})


def special(c):
    """system_r need not be required, interfaces named ..._stub may leave requirements unused, roles of the module kernel may be required anywhere:
    these names and no others"""
    what = c.pick(["role", "stub", "module"])
    if what == "role":
        name = c.pick(near("system_r"))
        form = c.pick(["role %s types $1;", "role_transition %s $1 own_r;", "role_transition own_r $1 %s;", "allow %s own_r;", "allow own_r %s;", "own_call(%s)", "allow { own_r %s } own_r;"])
        kind = c.pick(["role", "attribute_role"] if name != "system_r" else ["role"])
        text = "# c\ninterface(`own_i',`\ngen_require(`\nrole own_r;\n')\n%s\n')\n" % (form % name)
        return Case({"own.if": text, "own.te": "policy_module(own,1.0)\nrole own_r;\n%s %s;\n" % (kind, name)}, [only("W-002") + ["own.if", "own.te"]],
                    exact([] if name == "system_r" else [("own.if", 6, "W-002")], name))
    if what == "stub":
        name = c.pick(["own" + x for x in near("_stub")] + near("own_stub") + ["own_stub_i", "stub_own", "own_stub_stub", "stub"])
        kw = c.pick(["interface", "template"])
        decl = c.pick(["type own_t;", "attribute own_a;", "role own_r;"])
        text = "# c\n%s(`%s',`\ngen_require(`\n%s\n')\nallow $1 self:file a;\n')\n" % (kw, name, decl)
        return Case({"own.if": text, "own.te": "policy_module(own,1.0)\ntype own_t;\nattribute own_a;\nrole own_r;\n"}, [only("W-003") + ["own.if", "own.te"]],
                    exact([] if kw == "interface" and name.endswith("_stub") else [("own.if", 4, "W-003")], name))
    mod = c.pick(near("kernel"))
    kind = c.pick(["role", "type", "attribute", "attribute_role"])
    own = c.pick(["own", "kernel_x", "xkernel"])
    if own == mod:
        return None
    text = "# c\ninterface(`%s_i',`\ngen_require(`\n%s near_n;\n')\nallow $1 near_n:file a;\n')\n" % (own, kind)
    return Case({own + ".if": text, mod + ".te": "policy_module(%s,1.0)\n%s near_n;\n" % (mod, kind)}, [only("W-011") + [own + ".if", mod + ".te"]],
                exact([] if kind == "role" and mod == "kernel" else [(own + ".if", 4, "W-011")], mod))


def spaces(tier):
    deep = tier == "thorough"
    every = ["optional", "ifdef", "tunable", "bool", "ifelse", "debug"]
    return [
        Space("used", used, "49 statement forms x 24 names x 14 requirements x interface/template"),
        Space("unused", unused, "50 statement forms x 7 names x 5 spellings x 11 requirements"),
        Space("structure", structure(6 if deep else 5, 2, every, ("optional", "ifdef", "tunable", "ifelse", "bool")),
              "all forests of up to 5 (6 thorough) requirements, uses, fillers and 6 block kinds, depth 2"),
        Space("optional-structure", structure(7 if deep else 6, 3, ["ifdef"], ("ifdef",)),
              "all forests of up to 6 (7 thorough) nodes with ifdef blocks, depth 3"),
        Space("sequences", sequences(7 if deep else 5),
              "all sequences up to length 5 (7 thorough) of requirements and uses of two names and interface boundaries"),
        Space("owned", owned, "9 declarations x 13 places x 9 requirement forms x 5 module names"),
        Space("several", several, "all sequences up to 3 of 12 required names, one or several blocks"),
        Space("special", special, "18 words close to each of system_r, _stub and kernel x forms, kinds and modules"),
        Space("long-lists", long_lists, "9 lengths to 300 x 4 shapes x missing x unused name"),
    ]
