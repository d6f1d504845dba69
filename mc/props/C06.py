"""Ordering of te files (C-001)."""
import bisect
import itertools

from core import Case, Space
from stmts import near

RULE = ("Every sequence up to length 3 over 30 statement and block kinds, 4 over 12 and up to 6 over 6 kinds, three ordering variants, with and "
        "without declarations; every pair of sections with 12 names and sequences up to length 7; all interface bodies "
        "that classify calls x call position; permutation patterns of up to 300 statements; pairs of files.")
ASSUMPTIONS = ["statements without a place in the style guide (require blocks, role rules, neverallow, unknown names ...) "
               "are only checked not to cause findings in ordered files",
               "type transitions, attribute and role associations and aliases, which have a place among the sections but none "
               "inside theirs, are not mixed into unordered files (they can hide an issue)",
               "optional blocks contain one statement per branch; sections are judged in pairs"]

DECL, X = 0, 1
SELF, OWN, RELATED, KMOD, KERNEL, SYSTEM, OTHER, BUILD, BOOL, TUN, OPT = range(11)

ENV = {"m.if": [("m_own", "m")], "kernel/kernel.if": [("kernel_a", "kernel")], "kernel/corecmd.if": [("corecmd_a", "corecmd")],
       "kernel/files.if": [("files_a", "files")], "system/init.if": [("init_a", "init")],
       "system/logging.if": [("logging_a", "logging")], "apps/aaa.if": [("aaa_a", "aaa")],
       "services/zzz.if": [("zzz_a", "zzz")], "apps/m_extra.if": [("m_extra_a", "m_extra")],
       "system/mm.if": [("mm_a", "mm")]}


def ifile(names, body="\tallow $1 self:file a;\n"):
    return "".join("## <summary>x</summary>\ninterface(`%s',`\n%s')\n" % (n, body) for n in names)


ENVFILES = {p: ifile([n for n, _ in v]) for p, v in ENV.items()}
ENVFILES["apps/other.te"] = "policy_module(other,1.0)\ntype o_t;\n"

# kind: (lines, local subsection, module for the alphabetical order)
K = {
    "self": (["allow x_t self:file a;"], SELF, None),
    "own": (["allow x_t y_t:file a;"], OWN, None),
    "pattern": (["some_pattern(x_t, y_t)"], OWN, None),
    "owncall": (["m_own(x_t)"], OWN, "m"),
    "related": (["m_extra_a(x_t)"], RELATED, "m_extra"),
    "kmod": (["kernel_a(x_t)"], KMOD, "kernel"),
    "k1": (["corecmd_a(x_t)"], KERNEL, "corecmd"),
    "k2": (["files_a(x_t)"], KERNEL, "files"),
    "s1": (["init_a(x_t)"], SYSTEM, "init"),
    "s2": (["logging_a(x_t)"], SYSTEM, "logging"),
    "o1": (["aaa_a(x_t)"], OTHER, "aaa"),
    "o2": (["zzz_a(x_t)"], OTHER, "zzz"),
    "ifdef": (["ifdef(`b',`", "allow x_t y_t:file a;", "')"], BUILD, None),
    "bool": (["if (b) {", "allow x_t y_t:file a;", "}"], BOOL, None),
    "tun": (["tunable_policy(`b',`", "allow x_t y_t:file a;", "')"], TUN, None),
    "opt": (["optional_policy(`", "aaa_a(x_t)", "')"], OPT, None),
    # several statements and branches, nested blocks (the outermost one counts)
    "ifdef2": (["ifdef(`b',`", "allow x_t self:file a;", "aaa_a(x_t)", "', `", "allow x_t y_t:file a;", "')"], BUILD, None),
    "bool2": (["if (b) {", "aaa_a(x_t)", "kernel_a(x_t)", "} else {", "allow x_t self:file a;", "}"], BOOL, None),
    "tun2": (["tunable_policy(`b',`", "zzz_a(x_t)", "', `", "kernel_a(x_t)", "allow x_t self:file b;", "')"], TUN, None),
    "optifdef": (["optional_policy(`", "ifdef(`b',`", "aaa_a(x_t)", "')", "')"], OPT, None),
    "ifdefopt": (["ifdef(`b',`", "optional_policy(`", "aaa_a(x_t)", "')", "')"], BUILD, None),
    "tunopt": (["tunable_policy(`b',`", "optional_policy(`", "zzz_a(x_t)", "')", "')"], TUN, None),
    "else": (["optional_policy(`", "aaa_a(x_t)", "', `", "allow x_t y_t:file a;", "')"], OPT, None),
    # no place in the style guide
    "perm": (["permissive x_t;"], None, None),
    "req": (["require {", "type q_t;", "}"], None, None),
    "never": (["neverallow x_t self:file a;"], None, None),
    "roles": (["role x_r types x_t;"], None, None),
    "mount": (["allow x_t y_t:dir mounton;"], None, None),
    "define": (["define(`q')"], None, None),
    "optreq": (["optional_policy(`", "gen_require(`", "type q_t;", "')", "permissive q_t;", "')"], None, None),
}
# ordered statements, by line (default: the first one)
NODES = {"bool": [1], "opt": [1], "ifdef": [1], "tun": [1], "ifdef2": [1, 2, 4], "bool2": [1, 2, 4], "tun2": [1, 3, 4],
         "optifdef": [2], "ifdefopt": [2], "tunopt": [2], "else": [1, 3], "perm": [], "req": [], "never": [], "roles": [],
         "mount": [], "define": [], "optreq": []}


def rank(kind, variant):
    """position in the style guide's order, as a comparable key"""
    _, lss, mod = K[kind]
    if variant == "refpolicy":
        if lss == RELATED:
            lss = OTHER
        table = [SELF, OWN, KMOD, KERNEL, SYSTEM, OTHER, BUILD, BOOL, TUN, OPT]
        alpha = lss in (KERNEL, SYSTEM, OTHER)
    elif variant == "refpolicy-light":
        if lss in (KERNEL, SYSTEM):
            lss = OTHER
        table = [SELF, OWN, RELATED, KMOD, OTHER, BUILD, BOOL, TUN, OPT]
        alpha = lss == OTHER
    else:
        table = [SELF, OWN]
        alpha = False
    pos = table.index(lss) if lss in table else len(table)
    return (pos, mod if alpha else "")


def longest(keys):
    """length of a longest non-decreasing subsequence"""
    tails = []
    for k in keys:
        i = bisect.bisect_right(tails, k)
        tails[i:i + 1] = [k]
    return len(tails)


def cfg(variant):
    return {"cfg": 'ordering_rules = "%s"\n' % variant}


def check(text, nodes, variant=None, files=None, env=ENVFILES, name="m.te", recursive=True):
    """nodes: [(line, key)] of the ordered statements in file order"""
    f = dict(env)
    f.update(files or {})
    f[name] = text
    argv = ["-s", "-E", "-e", "C-001"] + (["-r"] if recursive else [])
    if variant:
        f.update(cfg(variant))
        argv += ["-c", "cfg"]
    argv.append("." if recursive else name)
    keys = [k for _, k in nodes]
    ordered = all(a <= b for a, b in zip(keys, keys[1:]))
    least = len(keys) - longest(keys)

    def judge(rs):
        r = rs[0]
        if r.code != 0:
            return "exit status %d" % r.code
        if any(i != "C-001" for i in r.ids()):
            return "unexpected %s" % r.locs()
        got = [l for _, l, _ in r.locs()]
        if ordered:
            return "findings %s in an ordered file" % got if got else None
        if len(got) != least:
            return "%d findings %s, exactly %d statements have to move" % (len(got), got, least)
        rest = []
        left = list(got)
        for l, k in nodes:
            if l in left:
                left.remove(l)
            else:
                rest.append(k)
        if left:
            return "findings on unordered statements, lines %s" % left
        if any(a > b for a, b in zip(rest, rest[1:])):
            return "moving the reported statements (lines %s) does not order the file" % got
        return None
    return Case(f, [argv], judge)


def assemble(kinds, variant, head=("type x_t;", "type y_t;")):
    lines = ["policy_module(m,1.0)"] + list(head)
    nodes = [(i + 2, (DECL,)) for i in range(len(head))]
    for k in kinds:
        body = K[k][0]
        for o in NODES.get(k, [0]):
            nodes.append((len(lines) + 1 + o, (X,) + rank(k, variant)))
        lines += body
    return "\n".join(lines) + "\n", nodes


VARIANTS = ["refpolicy", "refpolicy-light", "refpolicy-lax"]


def sequences(kinds, n, minlen=1, variants=VARIANTS):
    def body(c):
        v = c.pick(variants)
        ks = c.seq(kinds, n, minlen)
        text, nodes = assemble(ks, v)
        return check(text, nodes, v)
    return body


# --- declarations
D = {
    "bool": ("gen_bool(b%d, false)", (DECL, 0)), "tunable": ("gen_tunable(b%d, false)", (DECL, 0)),
    "rawbool": ("bool b%d;", (DECL, 0)),
    "attribute": ("attribute a%d;", (DECL, 1)), "type": ("type t%d;", (DECL, 2)), "typea": ("type t%d, aa;", (DECL, 2)),
    "role": ("role r%d;", (DECL, 2)), "attrole": ("attribute_role ar%d;", (DECL, 2)),
    "self": ("allow x_t self:file a%d;", (X, 0)), "own": ("allow x_t y_t:file a%d;", (X, 1)),
}


def declarations(n):
    def body(c):
        ks = c.seq(sorted(D), n, 1)
        v = c.pick(VARIANTS[:1] if n > 3 else VARIANTS)
        lines = ["policy_module(m,1.0)"] + [D[k][0] % i for i, k in enumerate(ks)]
        nodes = [(i + 2, D[k][1]) for i, k in enumerate(ks)]
        return check("\n".join(lines) + "\n", nodes, v, env={"o.te": "policy_module(o,1.0)\ntype o_t;\n"})
    return body


# --- which statement belongs where: probed with one statement before or after it
FORMS = [
    ("allow x_t self:file { a b };", "SELF"), ("dontaudit x_t self:file a;", "SELF"),
    ("allow { x_t z_t } self:file a;", "SELF"), ("allowxperm x_t self:file ioctl 0x1;", "SELF"),
    ("dontauditxperm x_t self:file ioctl { 0x1 0x2 };", "SELF"),
    ("allow x_t self:{ file dir } { a b };", "SELF"), ("allow x_t { self y_t }:file a;", "SELF"),
    ("allow x_t y_t:file a;", "OWN"), ("dontaudit x_t y_t:file a;", "OWN"), ("allow x_t { y_t x_t }:file a;", "OWN"),
    ("allow x_t nosuch:file a;", "OWN"), ("allowxperm x_t y_t:file ioctl 0x1;", "OWN"),
    ("allow x_t own_attr:file a;", "OWN"), ("some_pattern(x_t, y_t)", "OWN"), ("m_own(x_t)", "OWN"),
    ("some_pattern(x_t, { y_t z_t }, file_perms)", "OWN"),
    ("allow x_t o_t:file a;", "FREE"), ("allow x_t { y_t o_t }:file a;", "FREE"), ("allow x_t o_attr:file a;", "FREE"),
    ("type_transition x_t y_t:file z_t;", "FREE"), ("type_transition x_t y_t:process z_t;", "FREE"),
    ("type_change x_t y_t:file z_t;", "FREE"), ("type_member x_t y_t:file z_t;", "FREE"),
    ("neverallow x_t self:file a;", "NON"), ("auditallow x_t self:file a;", "NON"),
    ("allow x_t self:filesystem associate;", "NON"), ("allow x_t self:dir { mounton search };", "NON"),
    ("allow x_t self:filesystem { append associate };", "NON"), ("allow x_t y_t:dir { search mounton };", "NON"),
    ("allow x_t o_t:filesystem { a b c associate d };", "NON"), ("allow x_t self:dir { a b mounton };", "NON"),
    ("allow x_t self:filesystem { associated };", "SELF"), ("allow x_t self:dir { xmounton mount };", "SELF"),
    ("allow { x_t associate } self:file { a b };", "SELF"), ("dontaudit x_t self:dir { search mounton };", "NON"),
    ("neverallowxperm x_t self:file ioctl 0x1;", "NON"), ("auditallowxperm x_t self:file ioctl 0x1;", "NON"),
    ("role x_r types x_t;", "NON"), ("allow x_r y_r;", "NON"), ("role_transition x_r x_t:process y_r;", "NON"),
    ("require { type x_t; }", "NON"), ("gen_require(`type x_t;')", "NON"), ("permissive x_t;", "NON"),
    ("strayword", "NON"), ("define(`x')", "NON"), ("# comment", "NON"), ("nothing()", "NON"), (";", "NON"),
    ("range_transition x_t y_t:process s0;", "FREE"),
    ("type d_t;", "DECL"), ("type d_t, aa, bb;", "DECL"), ("role d_r;", "DECL"), ("attribute_role d_r;", "DECL"),
]
TYPES = ["policy_module(m,1.0)", "attribute own_attr;", "type x_t;", "type y_t;", "type z_t;"]


def outcome_of(cls, probe):
    """number of findings for the two statements"""
    return {"last": cls in ("SELF", "OWN", "DECL"), "type": cls in ("SELF", "OWN", "FREE", "CALL"),
            "own": cls in ("SELF", "DECL"), "self": cls in ("OWN", "CALL"), "bool": cls == "DECL"}[probe]


PROBE = {"last": (["zzz_a(x_t)"], []), "type": ([], ["type late_t;"]), "own": (["allow x_t y_t:file b;"], []),
         "self": ([], ["allow x_t self:file b;"]), "bool": ([], ["gen_bool(late, true)"])}


def probe_case(form, cls, probe, variant, files=None, wrap=None):
    before, after = PROBE[probe]
    mid = [form] if not wrap else [wrap[0], form, wrap[1]]
    head = list(TYPES)
    if probe == "bool":
        head = ["policy_module(m,1.0)", "type x_t;"] if cls == "DECL" else head
        if cls != "DECL":
            return None
        head = head[:1]
    lines = head + before + mid + after
    want = 1 if outcome_of(cls, probe) else 0
    f = dict(ENVFILES)
    f["apps/other.te"] = "policy_module(other,1.0)\nattribute o_attr;\ntype o_t;\n"
    f.update(files or {})
    f.update(cfg(variant))
    f["m.te"] = "\n".join(lines) + "\n"
    pos = len(head) + 1
    span = set(range(pos, len(lines) + 1))

    def judge(rs):
        r = rs[0]
        if r.code != 0:
            return "exit status %d" % r.code
        got = r.locs()
        if any(i != "C-001" or l not in span for _, l, i in got):
            return "unexpected findings %s" % got
        if bool(got) != bool(want) or len(got) > 2:
            return "%r as %s: findings %s, expected %d" % (form, probe, got, want)
        return None
    return Case(f, [["-s", "-r", "-E", "-e", "C-001", "-c", "cfg", "."]], judge)


def forms(c):
    form, cls = c.pick(FORMS)
    probe = c.pick(sorted(PROBE))
    v = c.pick(VARIANTS)
    return probe_case(form, cls, probe, v)


# --- interfaces that belong to the declarations
BODIES = [
    ("allow $1 self:file a;", "CALL"), ("", "CALL"), ("type_transition $1 y_t:file z_t;", "NON"),
    ("type_transition $1 y_t:process z_t;", "CALL"), ("type_transition $1 y_t:{ file process } z_t;", "CALL"),
    ("type_change $1 y_t:file z_t;", "NON"), ("filetrans_pattern($1, y_t, z_t, file)", "NON"),
    ("filetrans_add_pattern($1, y_t, z_t, file)", "NON"), ("other_thing_filetrans($1)", "NON"),
    ("filetrans_other($1)", "CALL"), ("other_filetrans_thing($1)", "CALL"),
    ("allow $1 y_t:filesystem associate;", "DECL"), ("allow $1 y_t:filesystem { associate mount };", "DECL"),
    ("allow $1 y_t:filesystem { mount associate };", "DECL"), ("allow $1 y_t:dir { search mounton };", "CALL"),
    ("allow $1 y_t:filesystem { a b c associate d };", "DECL"), ("allow $1 y_t:filesystem { associated };", "CALL"),
    ("allow $1 self:file a;\nallow { $1 $2 } { a_t y_t }:{ dir filesystem } { getattr associate };", "DECL"),
    ("allow $1 self:file a;\nallow $1 y_t:filesystem associate;", "DECL"),
    ("optional_policy(`\nallow $1 y_t:filesystem associate;\n')", "CALL"),
    ("role r types $1;", "DECL"), ("role r types { a_t $1 };", "DECL"), ("role $1 types a_t;", "CALL"),
    ("role $1 types $2;", "DECL"), ("typeattribute $1 a;", "CALL"),
    ("role r types $1;\nfiletrans_pattern($1, y_t, z_t, file)", "NON"),
    ("allow $1 y_t:filesystem associate;\ntype_transition $1 y_t:file z_t;", "NON"),
]
SUFFIX = ["_type", "_file", "_domain", "_node", "_agent", "_delivery", "_sender", "_boolean", "_content", "_constrained",
          "_executable", "_exemption", "_object", "_mountpoint"]
WRAP = [None, ("optional_policy(`", "')"), ("if (b) {", "}"), ("tunable_policy(`b',`", "')"), ("ifdef(`b',`", "')")]


def classify(c):
    """interface bodies"""
    body, cls = c.pick(BODIES)
    kw = c.pick(["interface", "template"])
    wrap = c.pick(WRAP)
    probe = c.pick(["type", "own", "self"])
    v = c.pick(VARIANTS[:2])
    req = c.pick(["", "gen_require(`\ntype y_t;\n')\n"])
    text = "## <summary>x</summary>\n%s(`foo_thing',`\n%s%s\n')\n" % (kw, req, body or "# nothing")
    if kw == "template":
        cls = "DECL"
    return located(cls, "foo_thing(x_t)", probe, v, {"apps/foo.if": text}, wrap)


def located(cls, call, probe, v, files, wrap):
    if wrap and cls == "DECL":
        cls = "CALL"  # only calls outside of blocks are declarations
    return probe_case(call, cls, probe, v, files, wrap)


def suffixes(c):
    """interfaces that add an attribute are transforming ones when they are called so"""
    sfx = c.pick(SUFFIX + ["_types", "_files", "_thing", "type", "_type_x", "_dom", "", "_mountpoints", "_Type"])
    name = "foo" + sfx
    body = c.pick(["typeattribute $1 a;", "roleattribute $1 a;", "allow $1 self:file a;",
                   "optional_policy(`\ntypeattribute $1 a;\n')", "allow $1 self:file a;\ntypeattribute $1 a;"])
    mod = c.pick(["foo", "mls", "mcs", "mlsx"])
    probe = c.pick(["type", "own", "self"])
    text = "## <summary>x</summary>\ninterface(`%s',`\n%s\n')\n" % (name, body)
    cls = "CALL"
    if "attribute $1" in body and not body.startswith("optional") and (sfx in SUFFIX or mod in ("mls", "mcs")):
        cls = "DECL"
    return located(cls, name + "(x_t)", probe, "refpolicy", {"apps/%s.if" % mod: text}, None)


def closure(c):
    """an interface whose first statement calls a transforming interface is one itself"""
    n = c.pick([1, 2, 3, 5, 9, 17])
    files_ = c.pick(["one", "one-reverse", "many", "many-reverse", "alternate", "context"])
    base = c.pick(["allow $1 y_t:filesystem associate;", "role r types $1;", "allow $1 self:file a;",
                   "type_transition $1 y_t:file z_t;"])
    # role and filetrans interfaces are not passed on
    trans = "associate" in base
    how = c.pick(["first", "require-first", "second", "optional"])
    probe = c.pick(["type", "own", "self"])
    defs = []
    for k in range(n + 1):
        if k == n:
            body = base
        else:
            nxt = "lvl%02d($1)" % (k + 1)
            body = {"first": nxt, "require-first": "gen_require(`\ntype y_t;\n')\n" + nxt,
                    "second": "allow $1 self:file b;\n" + nxt,
                    "optional": "optional_policy(`\n%s\n')" % nxt}[how]
        defs.append("## <summary>x</summary>\ninterface(`lvl%02d',`\n%s\n')\n" % (k, body))
    cls = "DECL" if trans and how in ("first", "require-first") else "CALL"
    ctx = False
    if files_.startswith("one"):
        f = {"apps/foo.if": "".join(reversed(defs) if "reverse" in files_ else defs)}
    elif files_.startswith("many"):
        o = list(reversed(range(n + 1))) if "reverse" in files_ else range(n + 1)
        f = {"apps/f%02d.if" % i: defs[k] for i, k in enumerate(o)}
    elif files_ == "context":
        f = {"ctx/f%02d.if" % i: d for i, d in enumerate(defs[1:])}
        f["apps/foo.if"] = defs[0]
        ctx = True
    else:
        f = {"apps/fa.if": "".join(defs[::2]), "services/fb.if": "".join(defs[1::2])}
    case = probe_case("lvl00(x_t)", cls, probe, "refpolicy", f)
    if ctx:
        argv = case.runs[0][:-1] + ["--context=ctx"] + sorted(p for p in case.files if p.endswith((".te", ".if")) and
                                                               not p.startswith("ctx/"))
        case.runs[0] = [a for a in argv if a != "-r"]
    return case


NOISE = {"empty": "interface(`nz_%s',`\n# nothing\n')\n", "require": "interface(`nz_%s',`\ngen_require(`\ntype y_t;\n')\n')\n",
         "rule": "interface(`nz_%s',`\nallow $1 self:file a;\n')\n", "call": "interface(`nz_%s',`\nnowhere($1)\n')\n",
         "itself": "interface(`nz_%s',`\nnz_%s($1)\n')\n", "template": "template(`nz_%s',`\ntype $1_t;\n')\n", "comment": "# %s\n"}


def neighbours(c):
    """what else stands in the files does not matter"""
    layout = c.pick(["one", "reverse", "many", "many-reverse"])
    order = c.pick(["before", "between", "after"])
    noise = c.seq(sorted(NOISE), 2, 1)
    base, trans = c.pick([("allow $1 y_t:filesystem associate;", True), ("allow $1 self:file a;", False)])
    ctx = c.flag()
    defs = []
    for k in range(3):
        body = base if k == 2 else "lvl%02d($1)" % (k + 1)
        defs.append("## <summary>x</summary>\ninterface(`lvl%02d',`\n%s\n')\n" % (k, body))
    tag = itertools.count()

    def junk():
        o = []
        for n in noise:
            i = "n%d" % next(tag)
            o.append(NOISE[n].replace("%s", i))
        return "".join(o)
    if "reverse" in layout:
        defs.reverse()
    full = [(junk() if order != "after" else "") + d + (junk() if order != "before" else "") for d in defs]
    where = ["services/zzzz%d.if", "ctx/zzzz%d.if"][ctx]
    if "many" in layout:
        f = {where % i: d for i, d in enumerate(full)}
    else:
        f = {where % 0: "".join(full)}
    case = probe_case("lvl00(x_t)", "DECL" if trans else "CALL", "type" if not trans else "last", "refpolicy", f)
    if ctx:
        case.runs[0] = [a for a in case.runs[0] if a not in ("-r", ".")] + ["--context=ctx"] + sorted(
            p for p in case.files if p.endswith((".te", ".if")) and not p.startswith("ctx/"))
    return case


# --- the words the order depends on, and words close to them
WORDS = [
    # in the body of an interface foo_thing of the module foo
    ("filetrans_pattern", "%s($1, y_t, z_t, file)", "body"), ("filetrans_add_pattern", "%s($1, y_t, z_t, file)", "body"), ("_filetrans", "%s($1)", "body"),
    ("associate", "allow $1 y_t:filesystem %s;", "body"), ("associate", "allow $1 y_t:filesystem { getattr %s };", "body"),
    ("process", "type_transition $1 y_t:%s z_t;", "body"), ("process", "type_transition $1 y_t:{ file %s } z_t;", "body"), ("process", "type_transition $1 y_t:{ %s file } z_t;", "body"),
    # the module of an interface with an attribute
    ("mls", "typeattribute $1 a;", "module"), ("mcs", "typeattribute $1 a;", "module"), ("mls", "roleattribute $1 a;", "module"),
    # in the file itself
    ("self", "allow x_t %s:file a;", "te"), ("self", "allow x_t { %s x_t }:file a;", "te"), ("self", "dontaudit { x_t y_t } { %s }:file a;", "te"), ("self", "allowxperm x_t %s:file ioctl 0x1;", "te"),
    ("associate", "allow x_t self:filesystem %s;", "te"), ("associate", "allow x_t y_t:filesystem { a %s b };", "te"),
    ("mounton", "allow x_t self:dir %s;", "te"), ("mounton", "allow x_t y_t:dir { %s a };", "te"), ("mounton", "allow x_t y_t:dir { a b %s };", "te"),
    ("kernel", "k_thing(x_t)", "call"),
]


def words(c):
    word, form, where = c.pick(WORDS)
    w = c.pick([x for x in near(word) if x] + [word.replace("_", "", 1), "a" + word + "b"])
    v = c.pick(VARIANTS[:2])
    probe = c.pick(["type", "own", "self"])
    if where == "body":
        name = "ab" + w if w[0] == "_" else w
        if word.startswith(("filetrans", "_file")):
            cls = "NON" if name in ("filetrans_pattern", "filetrans_add_pattern") or name.endswith("_filetrans") else "CALL"
        elif word == "associate":
            cls = "DECL" if w == word else "CALL"
        else:
            cls = "CALL" if w == word else "NON"
        text = "## <summary>x</summary>\ninterface(`foo_thing',`\n%s\n')\n" % (form % name)
        return located(cls, "foo_thing(x_t)", probe, v, {"apps/foo.if": text}, None)
    if where == "module":
        text = "## <summary>x</summary>\ninterface(`foo_thing',`\n%s\n')\n" % form
        return located("DECL" if w in ("mls", "mcs") else "CALL", "foo_thing(x_t)", probe, v, {"apps/%s.if" % w: text}, None)
    if where == "call":
        # calls of the kernel module come before all others
        f = dict(ENVFILES)
        text = "## <summary>x</summary>\ninterface(`k_thing',`\nallow $1 self:file a;\n')\n"
        f["kernel/%s.if" % w] = text
        f["kernel/aaaa.if"] = text.replace("k_thing", "a_thing")
        f["kernel/zzzz.if"] = text.replace("k_thing", "z_thing")
        f.update(cfg(v))
        other = c.pick(["a_thing", "z_thing"])
        f["m.te"] = "policy_module(m,1.0)\ntype x_t;\n%s(x_t)\nk_thing(x_t)\n" % other
        if probe != "type":
            return None
        n = 1 if w == "kernel" or w < other[0] * 4 else 0

        def judge(rs):
            got = rs[0].locs()
            if rs[0].code != 0 or len(got) != n:
                return "%s: findings %s, expected %s" % (w, got, n)
            return None
        return Case(f, [["-s", "-r", "-E", "-e", "C-001", "-c", "cfg", "."]], judge)
    if word == "self":
        cls = "SELF" if w == word else "OWN"
    else:
        cls = "NON" if w == word else "SELF" if "self" in form else "OWN"
    return probe_case(form % w, cls, probe, v)


# --- sections
NAMES = ["x_t", "x_r", "x", "x_exec_t", "xa_t", "y_t", "Xx_t", "x_tt", "a_t", "_t", "x1_t", "t"]


def base_of(n):
    return n[:-2] if len(n) >= 3 and n[-2:] in ("_t", "_r") else n


def sections(maxlen):
    def body(c):
        a = c.pick(NAMES)
        b = c.pick(NAMES)
        if a >= b:
            return None
        if "_t" in (a, b):
            return None
        seq = c.seq([a, b], maxlen, 2)
        lines = ["policy_module(m,1.0)"]
        pos = {a: [], b: []}
        for n in seq:
            lines.append("allow %s self:file a;" % n)
            pos[n].append(len(lines))
        if not pos[a] or not pos[b]:
            return None
        text = "\n".join(lines) + "\n"
        aa, ab = sum(pos[a]) / len(pos[a]), sum(pos[b]) / len(pos[b])
        if base_of(a) == base_of(b) or ab <= aa:
            # one section, or any order is fine: behind (alphabetically) or before (on average)
            key = {a: (X,), b: (X,)}
        else:
            key = {a: (X, 0), b: (X, 1)}
        nodes = sorted((l, key[n]) for n in (a, b) for l in pos[n])
        return check(text, nodes, "refpolicy", env={"o.te": "policy_module(o,1.0)\ntype o_t;\n"})
    return body


# --- long files
def patterns(c):
    n = c.pick([2, 3, 7, 8, 9, 31, 32, 33, 64, 100, 128, 255, 300])
    pat = c.pick(["sorted", "reverse", "last-first", "first-last", "swap-middle", "riffle", "rotate", "blocks", "equal"])
    reps = c.pick([1, 2])
    kinds = ["k%03d" % i for i in range(n)]
    if pat == "reverse":
        kinds.reverse()
    elif pat == "last-first":
        kinds = kinds[-1:] + kinds[:-1]
    elif pat == "first-last":
        kinds = kinds[1:] + kinds[:1]
    elif pat == "swap-middle":
        m = n // 2
        kinds[m], kinds[m - 1] = kinds[m - 1], kinds[m]
    elif pat == "riffle":
        h = n // 2
        kinds = [x for p in itertools.zip_longest(kinds[:h], kinds[h:]) for x in p if x]
    elif pat == "rotate":
        kinds = kinds[n // 3:] + kinds[:n // 3]
    elif pat == "blocks":
        kinds = [x for i in range(0, n, 5) for x in reversed(kinds[i:i + 5])]
    elif pat == "equal":
        kinds = ["k000"] * n
    kinds = [k for k in kinds for _ in range(reps)]
    env = {"apps/%s.if" % k: ifile([k + "_a"]) for k in sorted(set(kinds))}
    lines = ["policy_module(m,1.0)", "type x_t;"]
    nodes = [(2, (DECL,))]
    for k in kinds:
        lines.append("%s_a(x_t)" % k)
        nodes.append((len(lines), (X, k)))
    return check("\n".join(lines) + "\n", nodes, c.pick(["refpolicy", "refpolicy-light"]), env=env)


def files(c):
    """every file is judged on its own"""
    n = 2 + c.choose(2)
    progs = []
    opts = [["self", "own"], ["own", "self"], ["o1", "k1", "self"], ["opt", "o1"], ["own", "own"], ["o2", "o1"]]
    for _ in range(n):
        progs.append(c.pick(opts))
    f = dict(ENVFILES)
    f.update(cfg("refpolicy"))
    want = {}
    for i, ks in enumerate(progs):
        lines = ["policy_module(m%d,1.0)" % i, "type m%d_t;" % i, "type y%d_t;" % i]
        keys = []
        for k in ks:
            lines += [l.replace("x_t", "m%d_t" % i).replace("y_t", "y%d_t" % i) for l in K[k][0]]
            keys.append(rank(k, "refpolicy"))
        f["m%d.te" % i] = "\n".join(lines) + "\n"
        want["m%d.te" % i] = len(keys) - longest(keys)

    def judge(rs):
        r = rs[0]
        if r.code != 0:
            return "exit status %d" % r.code
        for name, n in want.items():
            got = [x for x in r.locs() if x[0] == name]
            if len(got) != n:
                return "%s: findings %s, expected %d" % (name, got, n)
        if any(x[0] not in want or x[2] != "C-001" for x in r.locs()):
            return "unexpected %s" % r.locs()
        return None
    return Case(f, [["-s", "-r", "-E", "-e", "C-001", "-c", "cfg", "."]], judge)


def disabled(c):
    """statements with a disable comment do not take part"""
    ks = c.seq(["self", "own", "o1", "k1"], 4, 2)
    off = c.choose(len(ks))
    lines = ["policy_module(m,1.0)", "type x_t;", "type y_t;"]
    nodes = [(2, (DECL,)), (3, (DECL,))]
    for i, k in enumerate(ks):
        lines.append(K[k][0][0] + (" #selint-disable:C-001" if i == off else ""))
        if i != off:
            nodes.append((len(lines), (X,) + rank(k, "refpolicy")))
    return check("\n".join(lines) + "\n", nodes, "refpolicy")


def related(c):
    """modules sharing the part of their name before the first underscore are related (light only)"""
    own = c.pick(["m", "m_x", "mm", "m_x_y", "n"])
    other = c.pick(["m_extra", "m", "mm", "m_x_z", "mx", "n_1"])
    if own == other:
        return None
    v = c.pick(VARIANTS)
    first = c.flag()
    rel = own.split("_")[0] == other.split("_")[0]
    env = {"kernel/kernel.if": ifile(["kernel_a"]), "apps/%s.if" % other: ifile([other + "_a"])}
    stm = ["kernel_a(x_t)", "%s_a(x_t)" % other]
    lss = [1, 0 if v == "refpolicy-light" and rel else 2]
    if v == "refpolicy-lax":
        lss = [0, 0]
    if first:
        stm.reverse()
        lss.reverse()
    text = "policy_module(%s,1.0)\ntype x_t;\n%s\n" % (own, "\n".join(stm))
    nodes = [(2, (DECL,))] + [(3 + i, (X, l)) for i, l in enumerate(lss)]
    return check(text, nodes, v, env=env, name="%s.te" % own)


def layers(c):
    """the layer of a module is the directory it is found in"""
    d1 = c.pick(["kernel", "system", "apps", "services", "kernelx", "kern"])
    d2 = c.pick(["kernel", "system", "apps", "roles", "systems"])
    deep = c.pick(["", "policy/modules/"])
    n1, n2 = c.pick([("aa", "bb"), ("bb", "aa")])
    v = c.pick(VARIANTS)
    env = {"%s%s/%s.if" % (deep, d1, n1): ifile([n1 + "_a"]), "%s%s/%s.if" % (deep, d2, n2): ifile([n2 + "_a"])}
    tab = {"kernel": 0, "system": 1}
    keys = []
    for d, n in ((d1, n1), (d2, n2)):
        if v == "refpolicy":
            keys.append((X, tab.get(d, 2), n))
        elif v == "refpolicy-light":
            keys.append((X, n))
        else:
            keys.append((X,))
    text = "policy_module(m,1.0)\n%s_a(x_t)\n%s_a(x_t)\n" % (n1, n2)
    return check(text, [(2, keys[0]), (3, keys[1])], v, env=env)


NEAR = ["kernel", "kernelx", "kernel_x", "xkernel", "x_kernel", "kerne", "KERNEL", "mkernel", "m", "mm", "m_x", "aa", "system", "systemd", "self", "zz"]


def modnames(c):
    """only the module kernel is ordered first, only the own (and related) modules before it, however similar the names"""
    a, b = c.pick(NEAR), c.pick(NEAR)
    if a == b:
        return None
    own = c.pick(["m", "kern", "kernel2", "zz2"])
    v = c.pick(VARIANTS)
    where = c.pick(["apps", "kernel"])
    env = {"%s/%s.if" % (where, n): ifile([n + "_i0"]) for n in (a, b)}
    if "kernel" in (a, b) and where != "kernel":
        return None

    def key(n):
        rel = own.split("_")[0] == n.split("_")[0]
        if v == "refpolicy-lax":
            return (0 if n == own else 2, "")
        if n == own:
            k = 0
        elif rel and v != "refpolicy":
            k = 1
        elif n == "kernel":
            k = 2
        elif where == "kernel" and v == "refpolicy":
            k = 3
        else:
            k = 4
        return (k, n if k > 2 else "")
    text = "policy_module(%s,1.0)\ntype x_t;\n%s_i0(x_t)\n%s_i0(x_t)\n" % (own, a, b)
    return check(text, [(2, (DECL,)), (3, (X,) + key(a)), (4, (X,) + key(b))], v, env=env, name="%s.te" % own)


def optionals(c):
    """optional blocks are ordered by the module of the interface they start with"""
    ks = [c.pick(["aaa", "corecmd", "init", "zzz", "files"]) for _ in range(2 + c.choose(4))]
    v = c.pick(VARIANTS)
    lines = ["policy_module(m,1.0)", "type x_t;"]
    nodes = [(2, (DECL,))]
    for k in ks:
        lines += ["optional_policy(`", "%s_a(x_t)" % k, "')"]
        nodes.append((len(lines) - 1, (X, k if v != "refpolicy-lax" else "")))
    return check("\n".join(lines) + "\n", nodes, v)


def spaces(tier):
    allk = sorted(K)
    deep = tier == "thorough"
    few = ["self", "own", "k1", "s1", "o2", "bool"]
    plain = ["self", "own", "related", "kmod", "k1", "k2", "s1", "s2", "o1", "o2", "bool", "opt"]
    free = ["self", "own", "o1", "perm", "never"]
    blocks = ["self", "o2", "ifdef2", "bool2", "tun2", "optifdef", "tunopt", "else"]
    return [
        Space("kinds-3", sequences(allk, 3), "all sequences up to length 3 of 30 kinds x 3 variants"),
        Space("kinds-4", sequences(plain, 5 if deep else 4, 4, VARIANTS[:2]),
              "all sequences of length 4 (and 5 thorough) of 12 kinds x 2 variants"),
        Space("kinds-long", sequences(few, 7 if deep else 6, 5, VARIANTS[:1]),
              "all sequences of length 5 and 6 (7 thorough) of 6 kinds"),
        Space("unordered", sequences(free, 7 if deep else 6, 3, VARIANTS[:1]),
              "all sequences of length 3-6 (7 thorough) of 3 ordered and 2 unordered kinds"),
        Space("blocks", sequences(blocks, 5 if deep else 4, 4, VARIANTS[:2]),
              "all sequences of length 4 (and 5 thorough) of 8 kinds with nested and branching blocks x 2 variants"),
        Space("declarations", declarations(4), "all sequences up to length 4 of 10 declaration and rule kinds"),
        Space("forms", forms, "54 statement forms x 5 probes x 3 variants"),
        Space("classify", classify, "22 bodies x interface/template x 5 call positions x 3 probes x 2 variants"),
        Space("suffixes", suffixes, "23 interface names x 5 bodies x 4 modules x 3 probes"),
        Space("words", words, "21 forms with a special word x some 18 words close to it x 3 probes x 2 variants"),
        Space("closure", closure, "chain lengths to 17 x 6 file layouts x 4 bases x 4 call positions x 3 probes"),
        Space("neighbours", neighbours, "chains of 3 x 4 layouts x all sequences of up to 2 of 7 other constructs x 3 places x scanned or context"),
        Space("sections", sections(9 if deep else 6), "all pairs of 11 section names x all sequences up to length 6 (9 thorough)"),
        Space("patterns", patterns, "13 lengths up to 300 x 9 permutation patterns x 2 x 2 variants"),
        Space("files", files, "all tuples of 2 and 3 files from 6 programs"),
        Space("disabled", disabled, "all sequences of 2-4 of 4 kinds x disabled position"),
        Space("related", related, "5 x 6 module names x 3 variants x order"),
        Space("modnames", modnames, "all pairs of 16 similar module names x 4 own names x 2 layers x 3 variants"),
        Space("layers", layers, "6 x 5 directories x depth x names x 3 variants"),
        Space("optionals", optionals, "2-5 optional blocks from 5 modules x 3 variants"),
    ]
