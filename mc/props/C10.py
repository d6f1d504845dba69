"""Interface calls: W-005, W-006, W-007, W-010 and names clashing with interfaces, E-006."""
from core import Case, Space
from stmts import BLOCKS, emit, exact, only, tree, walk

RULE = ("Every forest of up to 6 (7 thorough) calls and nested blocks (both branches); every module status x spelling of "
        "modules.conf x kind and place of the definition x caller; every call name of up to 4 pieces against every set of "
        "known modules; every argument list of up to 3 arguments from 20 shapes; every declaration form x definition kind x "
        "relation of the names; up to 300 modules, interfaces and arguments.")
ASSUMPTIONS = ["every interface is defined once and the module name equals the file name",
               "names of one letter after a minus and before a blank are not used (the lexer takes them for file types)",
               "names in require blocks that equal an interface are not judged"]

DEFS = """# c
interface(`oth_if',`
	allow $1 self:file a;
')
# c
template(`oth_tmpl',`
	allow $1 self:file a;
')
"""
KERNEL = """# c
interface(`kernel_if',`
	allow $1 self:file a;
')
"""
OWN = """# c
interface(`own_if',`
	allow $1 self:file a;
')
"""
MODS = "kernel = base\noth = module\nown = module\n"


def names_of(files):
    return sorted(p for p in files if p.endswith((".te", ".if", ".fc")))


# ---------------------------------------------------------------- W-005
def structure(size, depth, blocks, two, leaves):
    text = {"C": "oth_if(own_t)", "T": "oth_tmpl(own_t)", "O": "own_if(own_t)", "K": "kernel_if(own_t)",
            "U": "nowhere(own_t)", "F": "allow own_t self:file a;"}

    def body(c):
        f = tree(c, leaves, blocks, size, depth, two)
        nodes = list(walk(f))
        te = c.flag()
        lines = ["policy_module(own,1.0)", "type own_t;"] if te else ["# c", "interface(`own_i',`"]
        emit(f, lambda n: [text[n.kind] if te else text[n.kind].replace("own_t", "$1")], lines)
        name = "own.te" if te else "own.if"
        if not te:
            lines.append("')")
        exp = []
        for n in nodes:
            if n.kind not in ("C", "T"):
                continue
            p, ok = n, False
            while p.parent is not None:
                if p.parent.kind == "optional" and p.branch == 0:
                    ok = True
                p = p.parent
            if not ok:
                exp.append((name, n.line, "W-005"))
        files = {"kernel.if": KERNEL, "oth.if": DEFS, "modules.conf": MODS, "own.te": "policy_module(own,1.0)\n",
                 "own.if": OWN}
        if not te:
            lines += OWN.rstrip("\n").split("\n")
        files[name] = "\n".join(lines) + "\n"
        return Case(files, [only("W-005") + ["-m", "modules.conf"] + names_of(files)], exact(exp))
    return body


STATUS = ["base", "module", "off", "Base", "base1", "bas", "modules", "mybase", "base_", "BASE", "ase"]
SPELL = ["%s = %s\n", "%s=%s\n", "  %s   =   %s  \n", "\t%s\t=\t%s\t\n", "%s =%s", "# c\n\n%s = %s\n", "   # c\n%s = %s # \n"]


def status(c):
    """who defines the callee, how is its module listed, who calls"""
    st = c.pick(STATUS)
    sp = c.pick(SPELL)
    if sp.endswith("# \n") and st != "module":
        return None
    mod = c.pick(["oth", "othermodule_x", "o-h", "ow", "own2", "base", "kernel"])
    kind = c.pick(["interface", "template", "define", "none", "commented"])
    listed = c.pick(["own-too", "only", "not", "similar", "many", "last-wins"])
    caller = c.pick(["te", "if", "third-te", "template"])
    d = {"interface": "# c\ninterface(`some_thing',`\n\tallow $1 self:file a;\n')\n",
         "template": "# c\ntemplate(`some_thing',`\n\tallow $1 self:file a;\n')\n",
         "define": "define(`some_thing',`allow $1 self:file a;')\n",
         "none": "# c\ninterface(`some_thing2',`\n\tallow $1 self:file a;\n')\n",
         "commented": "# c\n# interface(`some_thing',`\ninterface(`some_other',`\n\tallow $1 self:file a;\n')\n"}[kind]
    if kind == "define":
        return None
    line = sp % (mod, st)
    conf = {"own-too": "own = module\nthird = module\n" + line, "only": line, "not": "own = module\n",
            "similar": "%sx = module\nx%s = module\n%s = module\n" % (mod, mod, mod[:-1]),
            "many": "".join("m%03d = module\n" % i for i in range(200)) + line,
            "last-wins": line.rstrip("\n") + "\nown = base\n"}[listed]
    files = {"modules.conf": conf, mod + ".if": d, "own.te": "policy_module(own,1.0)\ntype own_t;\n",
             mod + ".te": "policy_module(%s,1.0)\ntype oth_t;\nsome_thing(oth_t)\n" % mod}
    if caller == "te":
        files["own.te"] += "some_thing(own_t)\n"
        at = ("own.te", 3)
    elif caller == "third-te":
        files["third.te"] = "policy_module(third,1.0)\nsome_thing(own_t)\n"
        at = ("third.te", 2)
    else:
        files["own.if"] = "# c\n%s(`own_i',`\n\tallow $1 self:file a;\n\tsome_thing($1)\n')\n" % (
            "interface" if caller == "if" else "template")
        at = ("own.if", 4)
    known = listed not in ("not", "similar")
    bad = kind in ("interface", "template") and known and st != "base"
    return Case(files, [only("W-005") + ["-m", "modules.conf"] + names_of(files)],
                exact([at + ("W-005",)] if bad else [], "%s %s %s" % (st, kind, listed)))


def placed(c):
    """the place of the definition and of the call among the files does not matter"""
    defs = c.pick(["aa", "oth", "zz"])
    layer = c.pick(["", "kernel/", "services/deep/"])
    ctx = c.flag()
    n = c.pick([1, 2, 17])
    calls = c.pick(["te", "if", "both"])
    order = c.choose(2)
    conf = c.pick(["arg", "ctx"]) if ctx else "arg"
    text = "".join("# c\ninterface(`fn_%d',`\n\tallow $1 self:file a;\n')\n" % i for i in range(n))
    files = {("ctx/" if ctx else "") + layer + defs + ".if": text, "own.te": "policy_module(own,1.0)\ntype own_t;\n"}
    files[("ctx/" if conf == "ctx" else "") + "modules.conf"] = "%s = module\nown = module\n" % defs
    exp = []
    if calls != "if":
        for i in range(n):
            files["own.te"] += "fn_%d(own_t)\n" % i
            exp.append(("own.te", 3 + i, "W-005"))
            files["own.te"] += ""
        files["own.te"] += "optional_policy(`\n\tfn_0(own_t)\n')\nfn_0(own_t)\n"
        exp.append(("own.te", 6 + n, "W-005"))
    if calls != "te":
        files["own.if"] = "# c\ninterface(`own_i',`\n" + "".join("\tfn_%d($1)\n" % i for i in range(n)) + "')\n"
        exp += [("own.if", 3 + i, "W-005") for i in range(n)]
    argv = only("W-005") + (["--context=ctx"] if ctx else [])
    if conf == "arg":
        argv += ["-m", "modules.conf"]
    fs = [p for p in names_of(files) if not p.startswith("ctx/")]
    if order:
        fs.reverse()
    return Case(files, [argv + fs], exact(exp))


# ---------------------------------------------------------------- W-010
ABBR = {"fs": "filesystem", "corecmd": "corecommands", "seutil": "selinuxutil", "libs": "libraries", "dev": "devices",
        "term": "terminal", "corenet": "corenetwork", "auth": "authlogin", "userdom": "userdomain", "sysnet": "sysnetwork"}
MACROS = ["domain_auto_transition_pattern", "domain_transition_pattern"]


def prefixed(name, mods):
    for i, ch in enumerate(name):
        if ch == "_":
            p = name[:i]
            if p in mods or (p in ABBR and ABBR[p] in mods):
                return True
    return False


def w010(mods, known, calls, te=True, status="module"):
    """case: `known` interfaces are defined, `calls` are called one per line"""
    files = {"modules.conf": "".join("%s = %s\n" % (m, status) for m in mods) + "zzz = base\n",
             "def.if": "".join("# c\n%s(`%s',`\n\tallow $1 self:file a;\n')\n" % (("interface", "template")[i % 2], k)
                               for i, k in enumerate(known)) or "# c\n"}
    if not known:
        del files["def.if"]
    exp = []
    lines = ["policy_module(own,1.0)"] if te else ["# c", "interface(`own_i',`"]
    for x in calls:
        lines.append("%s(%s)" % (x, "own_t" if te else "$1"))
        if x not in known and x not in MACROS and prefixed(x, set(mods) | {"zzz"}):
            exp.append(("own.te" if te else "own.if", len(lines), "W-010"))
    if not te:
        lines.append("')")
    files["own.te" if te else "own.if"] = "\n".join(lines) + "\n"
    if not te:
        files["own.te"] = "policy_module(own,1.0)\n"
    return Case(files, [only("W-010") + ["-m", "modules.conf"] + names_of(files)], exact(exp))


PIECES = ["foo", "a", "fs", "foobar", "x1"]


def all_names(n):
    out = [[p] for p in PIECES]
    res = ["_".join(x) for x in out]
    for _ in range(n - 1):
        out = [x + [p] for x in out for p in PIECES]
        res += ["_".join(x) for x in out]
    return res


CALLS = all_names(3)
EXTRA = ["foo_", "_foo", "__foo", "foo__x", "foo_bar_", "FOO_x", "fo_o", "fooo_x", "foo-x_y", "a_", "foo", "$1_foo", "foo_$1",
         "$1_read", "foo_bar_foo_bar"]


def unknown_names(c):
    """every set of modules x all call names of up to 3 pieces"""
    mods = c.subset(["foo", "a", "filesystem", "foobar", "foo_a", "fs", "a_a_a", "foo_bar"])
    te = c.flag()
    st = c.pick(["module", "base", "off"])
    return w010(mods, [], CALLS + [x for x in EXTRA if not x.startswith("_")], te, st)


def unknown_known(c):
    """calls whose interface is defined are never reported, and only exactly these"""
    k1 = c.pick(["foo_read", "foo_read_x", "foo_", "foo", "foo_rea", "xfoo_read", "FOO_read", "foo_a_read"])
    k2 = c.pick(["foo_write", "foo_re", "a_read", "none_read"])
    calls = ["foo_read", "foo_read_x", "foo_rea", "foo_write", "foo_re", "a_read", "foo_a_read", "none_read", "bar_x"]
    te = c.flag()
    return w010(c.pick([["foo"], ["foo", "a"], ["foo_a"], []]), [k1, k2], calls, te)


def abbreviations(c):
    """every abbreviation is resolved to its own module only"""
    a = c.pick(sorted(ABBR))
    mods = c.pick([[ABBR[a]], [a], [x for x in ABBR.values() if x != ABBR[a]], [], list(ABBR.values()), ["x" + ABBR[a]],
                   [ABBR[a] + "x"]])
    calls = [x + "_read" for x in ABBR] + [x + "_read_y_z" for x in ABBR.values()] + ["x" + a + "_read", a + "x_read", a]
    return w010(mods, [], calls, c.flag())


def macros(c):
    mods = c.pick([["domain"], ["domain_auto"], ["domain", "own"]])
    calls = c.perm(["domain_auto_transition_pattern", "domain_transition_pattern", "domain_transition", "domain_auto_x"])
    return w010(mods, c.pick([[], ["domain_auto_x"], ["domain_transition"]]), calls, c.flag())


def many(c):
    """large numbers of modules and interfaces"""
    n = c.pick([1, 2, 64, 65, 300, 1000])
    m = c.pick([0, 1, 2, 64, 300])
    i = c.pick(["first", "middle", "last"])
    te = c.flag()
    mods = ["mod%d" % k for k in range(n)]
    known = ["mod%d_if%d" % (k % n, k) for k in range(m)]
    k = {"first": 0, "middle": n // 2, "last": n - 1}[i]
    calls = ["mod%d_nowhere" % k, "mod%d_x" % n, "mod_x"] + known[:3] + known[-3:] + [x + "x" for x in known[-2:]]
    return w010(mods, known, calls, te)


# ---------------------------------------------------------------- W-006, W-007
# argument text -> does it contain a space outside quotes, braces and exclusions of unknown names
ARGS = [("own_t", 0), ("unkn", 0), ("$1", 0), ("{ own_t unkn }", 0), ("`own_t unkn'", 0), ("\"own_t\"", 0), ("`'", 0),
        ("~own_t", 0), ("~{ own_t unkn }", 0), ("-own_t", 0), ("own_t unkn", 1), ("unkn own_t", 1), ("own_t -unkn", 1),
        ("unkn -own_t", 0), ("unkn - own_t", 0), ("own_a - own_t", 1), ("{ own_t unkn } own_t", 1), ("`unkn own_t' unkn", 1),
        ("`unkn own_t' -own_t", 1), ("own_t\n\tunkn", 1), ("own_r -own_t", 1), ("own_ra -own_t", 1), ("7", 0), ("0x1-0x5", 0),
        ("{ own_a -own_t }", 0), ("s0 - mls_systemhigh", 0), ("unkn unkn unkn", 1), ("$1 $2", 1), ("own_t \"unkn\"", 1),
        ("unkn -unkn own_t", 1), ("a_tt -own_t", 0), ("other_t -own_t", 1), ("tmpl_t -own_t", 1), ("user_u -unkn", 0)]
ARG_ENV = {"oth.te": "policy_module(oth,1.0)\ntype other_t;\noth_new(tmpl)\n",
           "oth.if": "# c\ntemplate(`oth_new',`\n\ttype $1_t;\n')\n",
           "own.te": "policy_module(own,1.0)\nattribute own_a;\nattribute_role own_ra;\nrole own_r;\ntype own_t;\n"}


def args(n, alphabet):
    def body(c):
        """argument lists; several calls in one file"""
        k = c.choose(n + 1)
        l = [c.pick(alphabet) for _ in range(k)]
        place = c.pick(["te", "if", "optional", "template"]) if n < 3 else c.pick(["te", "if"])
        sep = c.pick([", ", ",", " ,\n\t"]) if k == 2 else ", "
        files = dict(ARG_ENV)
        call = "fn(%s)" % sep.join(a for a, _ in l)
        exp = []
        bad = []
        if k == 0:
            bad.append("W-006")
        if any(b for _, b in l):
            bad.append("W-007")
        pre = {"te": ["fn(own_t)", "fn(unkn)"], "optional": ["optional_policy(`", "fn(own_t, unkn)"],
               "if": ["interface(`own_i',`", "fn($1)"], "template": ["template(`own_i',`", "fn($1)"]}[place]
        post = {"te": ["fn(own_t, unkn)"], "optional": ["')"], "if": ["fn($1, $2)", "')"], "template": ["')"]}[place]
        name = "own.if" if place in ("if", "template") else "own.te"
        have = files.get(name, "# c\n")
        at = have.count("\n") + 1 + len(pre)
        files[name] = have + "\n".join(pre + [call] + post) + "\n"
        exp = [(name, at, b) for b in bad]
        return Case(files, [only("W-006", "W-007") + names_of(files)], exact(exp, call))
    return body


def arg_counts(c):
    n = c.pick([1, 2, 9, 10, 33, 100, 300])
    pos = c.pick(["none", "first", "second", "middle", "last"])
    how = c.pick(["a b", "a -own_t", "own_t -b", "{ a b } c", "own_t - b"])
    calls = c.pick([1, 2, 50])
    l = ["arg%d" % i for i in range(n)]
    i = {"none": None, "first": 0, "second": min(1, n - 1), "middle": n // 2, "last": n - 1}[pos]
    how = how.replace(" b", " bb").replace("{ a", "{ aa").replace(" c", " cc")
    if i is not None:
        l[i] = how
    files = dict(ARG_ENV)
    files["own.te"] += "fn(%s)\n" % ", ".join(l) * calls
    files["own.te"] += "fn(" + ", ".join(l[:1]) + ", own_t)\nfn()\n"
    bad = i is not None and how != "a -own_t"
    exp = [("own.te", 6 + k, "W-007") for k in range(calls) if bad]
    if bad and i == 0:
        exp.append(("own.te", 6 + calls, "W-007"))
    exp.append(("own.te", 7 + calls, "W-006"))
    return Case(files, [only("W-006", "W-007") + names_of(files)], exact(exp))


# ---------------------------------------------------------------- E-006
DECL = ["type %s;", "type %s, own_a;", "attribute %s;", "role %s;", "attribute_role %s;", "bool %s;",
        "gen_bool(%s, false)", "gen_tunable(`%s', false)", "gen_tunable(%s, true)", "role %s types own_t;"]
REL = [("same_name", "same_name"), ("same_name", "same_nam"), ("same_name", "same_name_t"), ("same_nam", "same_name"),
       ("Same_name", "same_name"), ("x", "x"), ("own_read", "own_read")]


def clash(c):
    d = c.pick(DECL)
    iname, dname = c.pick(REL)
    kind = c.pick(["interface", "template", "none"])
    where = c.pick(["own-if", "aa", "zz", "ctx"])
    place = c.pick(["te", "optional", "tunable", "interface", "template-called", "third", "if-file-else"])
    text = "# c\n%s(`%s',`\n\tallow $1 self:file a;\n')\n" % (kind if kind != "none" else "interface",
                                                             iname if kind != "none" else "something")
    files = {"own.te": "policy_module(own,1.0)\nattribute own_a;\ntype own_t;\n", "own.if": "# c\n"}
    line = d % dname
    # an alias is declared on its statement; "role x types" declares nothing new
    declares = not line.startswith("role ") or "types" not in line
    if where == "own-if":
        files["own.if"] += text
    else:
        files[{"aa": "aa.if", "zz": "zz.if", "ctx": "ctx/zz.if"}[where]] = text
    bad = kind != "none" and iname == dname and declares
    if place == "te":
        files["own.te"] += line + "\n"
        at = ("own.te", 4)
    elif place == "third":
        files["third.te"] = "policy_module(third,1.0)\ntype t_t;\n%s\n" % line
        at = ("third.te", 3)
    elif place in ("optional", "tunable"):
        files["own.te"] += "\n".join(BLOCKS[place][0] + [line] + BLOCKS[place][2]) + "\n"
        at = ("own.te", 5)
    elif place == "interface":
        n = files["own.if"].count("\n")
        files["own.if"] += "# c\ninterface(`own_i',`\n\t%s\n')\n" % line
        at = ("own.if", n + 3)
    elif place == "if-file-else":
        n = files["own.if"].count("\n")
        files["own.if"] += "# c\ntemplate(`own_i',`\nifdef(`b',`\nfn($1)\n', `\n\t%s\n')\n')\n" % line
        at = ("own.if", n + 6)
    else:
        # a called template declares the name; the finding belongs to the template text only if it matches there
        return None
    if files["own.if"] == "# c\n":
        del files["own.if"]
    exp = [at + ("E-006",)] if bad else []
    argv = only("E-006")
    if where == "ctx":
        argv = argv[1:] + ["--context=ctx"]
    return Case(files, [argv + [p for p in names_of(files) if not p.startswith("ctx/")]],
                exact(exp, "%s %s %s" % (d, kind, place)))


def clash_many(c):
    n = c.pick([1, 2, 65, 300])
    m = c.pick([1, 2, 65])
    pick = c.pick(["first", "middle", "last", "none", "all"])
    ifs = ["if_%d" % i for i in range(n)]
    hit = {"first": ifs[:1], "middle": [ifs[n // 2]], "last": ifs[-1:], "none": [], "all": ifs}[pick]
    names = ["ty_%d" % i for i in range(m)] + hit + ["zz_t"]
    files = {"own.te": "policy_module(own,1.0)\n" + "".join("type %s;\n" % x for x in names),
             "def.if": "".join("# c\ninterface(`%s',`\nallow $1 self:file a;\n')\n" % x for x in ifs)}
    exp = [("own.te", 2 + m + i, "E-006") for i in range(len(hit))]
    return Case(files, [only("E-006") + names_of(files)], exact(exp))


def spaces(tier):
    deep = tier == "thorough"
    every = ["optional", "ifdef", "tunable", "bool", "ifelse", "debug"]
    two = ("optional", "ifdef", "tunable", "ifelse", "bool")
    return [
        Space("structure", structure(5 if deep else 4, 2, every, two, ["C", "T", "O", "K", "U", "F"]),
              "all forests of up to 4 (5 thorough) of 6 leaves and 6 blocks, depth 2 x te/if"),
        Space("structure-deep", structure(7 if deep else 6, 3, ["optional", "ifdef"], ("optional", "ifdef"), ["C", "F"]),
              "all forests of up to 6 (7 thorough) calls, fillers and 2 blocks with both branches, depth 3"),
        Space("status", status, "11 statuses x 7 spellings x 7 modules x 4 definitions x 6 lists x 4 callers"),
        Space("placed", placed, "3 names x 3 layers x context x 3 numbers of interfaces x callers x orders"),
        Space("unknown-names", unknown_names, "256 sets of 8 modules x 3 statuses x te/if x 170 call names each"),
        Space("unknown-known", unknown_known, "8 x 4 known interfaces x 4 module sets, 9 calls each"),
        Space("unknown-abbreviations", abbreviations, "10 abbreviations x 7 module sets, 23 calls each"),
        Space("unknown-macros", macros, "24 orders x 3 module sets x 3 definitions"),
        Space("unknown-many", many, "6 numbers of modules to 1000 x 5 numbers of interfaces x position"),
        Space("args", args(2, ARGS), "0-2 of 34 argument shapes x 4 places x separators"),
        Space("args-3", args(3, ARGS if deep else ARGS[::2] + ARGS[10:14:2]), "0-3 of 19 (34 thorough) argument shapes"),
        Space("arg-counts", arg_counts, "7 counts to 300 x 5 positions x 5 shapes x 1-50 calls"),
        Space("clash", clash, "10 declaration forms x 7 name pairs x 3 definitions x 4 places x 6 contexts"),
        Space("clash-many", clash_many, "4 numbers of interfaces x 3 numbers of types x 5 hits"),
    ]
