"""Contents of file context entries: E-003, E-004, E-005, S-002, S-007, W-004."""
import itertools

from core import Case, Space
from stmts import exact, only

RULE = ("Every path of up to 5 (6 thorough) characters over 10 regex characters, in 4 entry forms; every combination of 14 users, 12 "
        "roles, 24 types and 10 entry forms against every set of declarations, assumptions and file orders; every file name x "
        "module name pair and every setting for generated files; long files and many declarations.")
ASSUMPTIONS = ["every name is declared once and the module name equals the file name",
               "paths without doubled or trailing backslashes, unterminated or empty character classes, and escaped dots, "
               "brackets or parentheses that are themselves repeated"]


# ---------------------------------------------------------------- W-004
def risky(p):
    """None: not covered, else whether an unescaped regex character stands alone"""
    i, n = 0, len(p)
    prev = ""      # kind of the preceding token: '', 'lit', 'any', 'class', 'close', 'esc'
    while i < n:
        ch = p[i]
        if ch == "\\":
            if i + 1 >= n or p[i + 1] == "\\":
                return None
            if p[i + 1] in ".])" and i + 2 < n and p[i + 2] in "*+":
                return None
            prev = "esc"
            i += 2
            continue
        if ch == "[":
            j = i + 1
            while j < n and p[j] != "]":
                j += 2 if p[j] == "\\" else 1
            if j >= n or j == i + 1:
                return None
            if "\\\\" in p[i:j]:
                return None
            prev = "class"
            i = j + 1
            continue
        if ch == ".":
            if i + 1 >= n or p[i + 1] not in "*+?":
                return True
            prev = "any"
        elif ch in "*+":
            if prev not in ("any", "class", "close"):
                # a stray closing bracket is taken for a class
                if prev == "stray":
                    return None
                return True
            prev = "rep"
        elif ch == ")":
            prev = "close"
        elif ch == "]":
            prev = "stray"
        else:
            prev = "lit"
        i += 1
    return False


REGEX = "a.*+?\\[]()"
ENTRY = ["%s\t--\tgen_context(system_u:object_r:own_t,s0)", "%s <<none>>", "%s system_u:object_r:own_t:s0", "%s -d <<none>>"]


def regexes(n):
    def body(c):
        form = ENTRY[0] if n > 5 else c.pick(ENTRY)
        a, b = c.pick(REGEX), c.pick(REGEX)
        lines, exp = [], []
        todo = [a + b + "".join(r) for k in range(0, n - 1) for r in itertools.product(REGEX, repeat=k)]
        if b == REGEX[0]:
            todo.append(a)
        for s in todo:
            p = "/" + s
            v = risky(p)
            if v is None:
                continue
            lines.append(form % p)
            if v:
                exp.append(("own.fc", len(lines), "W-004"))
        if not lines:
            return None
        return Case({"own.fc": "\n".join(lines) + "\n"}, [only("W-004") + ["own.fc"]], exact(exp))
    return body


REALPATHS = [("/usr/bin(/.*)?", 0), ("/usr/lib(64)?/a\\.so(\\.[^/]*)*", 0), ("/dev/[shmx]d[^/]*", 0), ("/etc/a.conf", 1), ("/etc/a\\.conf", 0),
             ("/var/run/a.pid", 1), ("/var/log/a.*", 0), ("/var/log/a.+", 0), ("/var/log/a*", 1), ("/var/log/a+", 1), ("/a(b|c)+", 0),
             ("/a(b|c)*", 0), ("/a.?b", 0), ("/a\\+\\+", 0), ("/g++", 1), ("/[a.b]", 0), ("/[a\\]b.]", 0), ("/[.]+", 0), ("/[*]", 0),
             ("/[ab]x.y", 1), ("/a[b]*c+", 1), ("/", 0), ("/.", 1), ("/.*", 0), ("/\\..*", 0), ("/.\\*", 1), ("/a.[b]", 1), ("HOME_DIR/\\.x", 0),
             ("HOME_DIR/.x", 1), ("/a{2}", 0), ("/a\\\\b", 0), ("/" + "a" * 3000 + "\\.b", 0), ("/" + "a" * 3000 + ".b", 1),
             ("/" + "(a.*)?" * 400, 0), ("/" + "(a.*)?" * 400 + "b+", 1), ("/" + "[x.]" * 500 + ".", 1)]


def real_paths(c):
    """realistic paths, several in one file"""
    k = c.pick([1, 2, 3])
    ps = [c.pick(REALPATHS) for _ in range(min(k, 2))] + REALPATHS[:k - 2 if k > 2 else 0]
    form = c.pick(ENTRY)
    exp = [("own.fc", i + 1, "W-004") for i, (_, b) in enumerate(ps) if b]
    return Case({"own.fc": "\n".join(form % p for p, _ in ps) + "\n"}, [only("W-004") + ["own.fc"]], exact(exp))


# ---------------------------------------------------------------- E-003, E-004, E-005, S-002, S-007
OWN_TE = """policy_module(own,1.0)
attribute own_a;
type own_t alias own_al_t, own_a;
type own2_t;
typealias own2_t alias { own_ta_t own_tb_t };
role own_r;
attribute_role own_ra;
require { type req_t; role req_r; }
gen_user(own_u,, own_r, s0, s0)
oth_tmpl(new)
optional_policy(`
	type nested_t;
')
"""
OTH_TE = """policy_module(oth,1.0)
attribute oth_a;
type oth_t alias oth_al_t;
role oth_r;
gen_user(oth_u, user, oth_r, s0, s0 - s0, c0)
role norole_r types oth_t;
oth_tmpl(zz)
bool own_b;
"""
OTH_IF = """# c
template(`oth_tmpl',`
	type $1_tmpl_t;
	role $1_tmpl_r;
	type $1_tmpl2_t alias $1_tmplal_t;
')
# c
template(`not_called',`
	type uncalled_t;
')
# c
interface(`oth_use',`
	gen_require(`
		type ifreq_t;
	')
	allow $1 ifreq_t:file a;
')
"""
OWNTYPES = ["own_t", "own_al_t", "own2_t", "own_ta_t", "own_tb_t", "new_tmpl_t", "new_tmpl2_t", "new_tmplal_t", "nested_t"]
OTHTYPES = ["oth_t", "oth_al_t", "zz_tmpl_t", "zz_tmpl2_t", "zz_tmplal_t"]
NOTYPES = ["own_a", "oth_a", "req_t", "uncalled_t", "ifreq_t", "own_", "own_tt", "Own_t", "own_r", "own_b", "xown_t", "$1_tmpl_t", "_tmpl_t",
           "own"]
USERS = ["own_u", "oth_u"]
NOUSERS = ["x_u", "own_", "own_uu", "Own_u", "own_t", "own_r", "user", "system", "*"]
ROLES = ["own_r", "oth_r", "new_tmpl_r", "zz_tmpl_r"]
NOROLES = ["x_r", "req_r", "own_ra", "norole_r", "own_", "own_rr", "own_t", "object"]
FORMS = [("%s -- gen_context(%s:%s:%s,s0)", 0), ("%s gen_context(%s:%s:%s,s0)", 0), ("%s -d gen_context(%s:%s:%s)", 1),
         ("%s -- gen_context(%s:%s:%s, s0, c0)", 0), ("%s\t-l\t%s:%s:%s", 0), ("%s\t%s:%s:%s:s0", 0), ("%s %s:%s:%s:s0:c1", 0),
         ("%s gen_context(%s:%s:%s)", 1), ("%s -p gen_context(%s:%s:%s,s0 - mls_systemhigh, mcs_allcats)", 0), ("%s -b %s:%s:%s", 0)]
IDS = ("E-003", "E-004", "E-005", "S-002", "S-007")


def contexts(c):
    """one file with every user, role and type in turn; the environment is chosen"""
    form, norange = c.pick(FORMS)
    cfg = c.pick(["none", "empty", "system", "more", "only-users", "only-roles", "long"])
    order = c.pick([["own.te", "oth.te", "oth.if", "own.fc"], ["own.fc", "oth.if", "oth.te", "own.te"], ["oth.fc", "own.te", "oth.if", "oth.te"],
                    ["own.fc", "own.te"], ["own.fc"]])
    fc = [x for x in order if x.endswith(".fc")][0]
    users, roles = set(), set()
    conf = None
    if cfg == "none":
        users.add("system_u")
        roles.add("object_r")
    elif cfg == "empty":
        conf = "# nothing\n"
    elif cfg == "system":
        conf = "assume_users = { system_u }\nassume_roles = { object_r }\n"
        users.add("system_u")
        roles.add("object_r")
    elif cfg == "more":
        conf = "assume_users = { a_u, system_u, b_u, }\nassume_roles = { \"a_r\", b_r }\n".replace("b_u, }", "b_u }")
        users |= {"a_u", "system_u", "b_u"}
        roles |= {"a_r", "b_r"}
    elif cfg == "only-users":
        conf = "assume_users = { system_u, a_r }\n"
        users |= {"system_u", "a_r"}
    elif cfg == "only-roles":
        conf = "assume_roles = { object_r, a_u }\n"
        roles |= {"object_r", "a_u"}
    else:
        us = ["u%d_u" % i for i in range(150)]
        conf = "assume_users = { %s }\nassume_roles = { %s }\n" % (", ".join(us), ", ".join(reversed(us)))
        users |= set(us)
        roles |= set(us)
    owner = {}
    if "own.te" in order:
        users.add("own_u")
        roles.add("own_r")
        for t in OWNTYPES:
            if "tmpl" not in t or "oth.if" in order:
                owner[t] = "own"
        if "oth.if" in order:
            roles.add("new_tmpl_r")
    if "oth.te" in order:
        users.add("oth_u")
        roles |= {"oth_r", "zz_tmpl_r"}
        for t in OTHTYPES:
            owner[t] = "oth"
    mod = fc[:-3]
    lines, exp = [], []
    allu = USERS + NOUSERS + ["system_u", "a_u", "b_u", "a_r", "u0_u", "u149_u", "u150_u"]
    allr = ROLES + NOROLES + ["object_r", "a_r", "b_r", "a_u", "u0_u", "u149_u"]
    allt = OWNTYPES + OTHTYPES + NOTYPES
    combos = [(u, "own_r", "own_t") for u in allu] + [("own_u", r, "own_t") for r in allr] + [("own_u", "own_r", t) for t in allt]
    combos += [("x_u", "x_r", "x_t"), ("oth_u", "x_r", "oth_t"), ("x_u", "oth_r", "own_t"), ("system_u", "object_r", "own_t"),
               ("system_u", "object_r", "oth_t")]
    for u, r, t in combos:
        lines.append(form % ("/a", u, r, t))
        n = len(lines)
        if u not in users:
            exp.append((fc, n, "E-003"))
        if r not in roles:
            exp.append((fc, n, "E-004"))
        if t not in owner:
            exp.append((fc, n, "E-005"))
        elif owner[t] != mod:
            exp.append((fc, n, "S-002"))
        if norange:
            exp.append((fc, n, "S-007"))
        lines.append("/none <<none>>")
    files = {"own.te": OWN_TE, "oth.te": OTH_TE, "oth.if": OTH_IF, fc: "\n".join(lines) + "\n"}
    argv = only(*IDS)
    if conf is not None:
        files["cfg"] = conf
        argv += ["-c", "cfg"]
    return Case(files, [argv + order], exact(exp))


def single(c):
    """one entry alone: user x role x type x form"""
    u = c.pick(["own_u", "system_u", "x_u", "own_", "oth_u"])
    r = c.pick(["own_r", "object_r", "x_r", "own_ra", "oth_r"])
    t = c.pick(["own_t", "oth_t", "x_t", "own_a", "own_al_t", "new_tmpl_t"])
    form, norange = c.pick(FORMS)
    pre = c.pick([[], ["# c", ""], ["ifdef(`x',`"], ["/b <<none>>"]])
    te = c.flag()
    files = {"own.fc": "\n".join(pre + [form % ("/a", u, r, t)]) + "\n"}
    order = ["own.fc"]
    exp = []
    n = len(pre) + 1
    if te:
        files.update({"own.te": OWN_TE, "oth.te": OTH_TE, "oth.if": OTH_IF})
        order += ["oth.te", "oth.if", "own.te"]
    if not (u == "system_u" or te and u in ("own_u", "oth_u")):
        exp.append("E-003")
    if not (r == "object_r" or te and r in ("own_r", "oth_r")):
        exp.append("E-004")
    if not te or t in ("x_t", "own_a"):
        exp.append("E-005")
    elif t == "oth_t":
        exp.append("S-002")
    if norange:
        exp.append("S-007")
    return Case(files, [only(*IDS) + order], exact([("own.fc", n, x) for x in exp]))


def ownership(c):
    """S-002: the module of the file against the module of the type"""
    names = ["own", "own2", "ow", "own_x", "Own", "base", "all_mods", "x"]
    fcn = c.pick(names)
    decl = c.pick(names)
    sub = c.pick(["", "d/", "d/own/"])
    where = c.pick(["te", "ctx-te", "template-call", "if-template", "alias"])
    both = c.flag()
    if fcn in ("base", "all_mods"):
        return None
    files = {}
    argv = only(*IDS)
    body = {"te": "type x_t;", "ctx-te": "type x_t;", "template-call": "tm(x)", "if-template": "tm(x)", "alias": "type y_t alias x_t;"}[where]
    tep = ("ctx/" if where == "ctx-te" else "") + decl + ".te"
    files[tep] = "policy_module(%s,1.0)\n%s\n" % (decl, body)
    if where in ("template-call", "if-template"):
        files["tm.if"] = "# c\ntemplate(`tm',`\n\ttype $1_t;\n')\n"
    if both:
        files["zz.te"] = "policy_module(zz,1.0)\ntype zz_t;\nrequire { type x_t; }\n"
        files["aa.te"] = "policy_module(aa,1.0)\ntype aa_t;\nrequire { type x_t; }\n"
    files[sub + fcn + ".fc"] = "/a -- gen_context(system_u:object_r:x_t,s0)\n"
    if where == "ctx-te":
        argv = argv[1:] + ["--context=ctx"]
    exp = [(fcn + ".fc", 1, "S-002")] if fcn != decl else []
    order = sorted(p for p in files if not p.startswith("ctx/"))
    if c.flag():
        order.reverse()
    return Case(files, [argv + order], exact(exp))


GEN = ["base.fc", "all_mods.fc", "own.mod.fc", "x.mod.fc", "base.mod.fc", "basefc.fc", "xbase.fc", "all_mods2.fc", "mod.fc", "a_mod.fc",
       "own.mods.fc", ".mod.fc", "Base.fc", "own.modx.fc", "base2.fc", "aall_mods.fc", "own.fc",
       "base.fc.fc", "all_mods.fc.fc", "base.fc.x.fc", "BASE.fc", "All_mods.fc", "ALL_MODS.fc", "x.base.fc", "x.all_mods.fc", "x.mod.fc.fc", "x.mod.fc.y.fc", "x.MOD.fc",
       "x.Mod.fc", "base_fc.fc", "xmod.fc", "base .fc", "mod.fc.fc", "x..mod.fc", "x.mod..fc"]


def generated(c):
    name = c.pick(GEN)
    cfg = c.pick(["none", "empty", "true", "false", "yes", "no"])
    sub = c.pick(["", "tmp/"])
    second = c.pick([None, "base.fc", "own2.fc"])
    n = c.pick([1, 3])
    if second == name:
        return None
    skip = cfg not in ("false", "no")
    files = {sub + name: "/a -- gen_context(system_u:object_r:own_t,s0)\n" * n, "own.te": "policy_module(own,1.0)\ntype own_t;\n"}
    if second:
        files[second] = "/a -- gen_context(system_u:object_r:own_t)\n"
    if cfg in ("true", "false", "yes", "no"):
        files["cfg"] = "skip_checking_generated_fcs = %s\nassume_users = { system_u }\nassume_roles = { object_r }\n" % cfg
    elif cfg == "empty":
        files["cfg"] = "assume_users = { system_u }\nassume_roles = { object_r }\n"
    exp = []
    for p in files:
        b = p.split("/")[-1]
        if not b.endswith(".fc"):
            continue
        is_gen = b in ("base.fc", "all_mods.fc") or b.endswith(".mod.fc")
        mod = b[:b.rindex(".")]
        cnt = n if b == name else 1
        if mod != "own" and not (skip and is_gen):
            exp += [(b, i + 1, "S-002") for i in range(cnt)]
        if b == second:
            exp.append((b, 1, "S-007"))
    argv = only(*IDS) + (["-c", "cfg"] if "cfg" in files else [])
    return Case(files, [argv + [p for p in files if p != "cfg"]], exact(exp))


def many(c):
    """large numbers of declarations and entries"""
    n = c.pick([1, 2, 31, 33, 64, 65, 500, 3000])
    miss = c.pick(["none", "first", "middle", "last", "all"])
    split = c.pick(["one", "two", "other"])
    names = ["ty%d_t" % i for i in range(n)]
    gone = {"none": set(), "first": {names[0]}, "middle": {names[n // 2]}, "last": {names[-1]}, "all": set(names)}[miss]
    owner = {x: ("own" if split == "one" or split == "two" and i % 2 else "oth") for i, x in enumerate(names)}
    files = {m + ".te": "policy_module(%s,1.0)\ntype %s_base_t;\n" % (m, m) + "".join(
        "type %s;\n" % x for x in names if owner[x] == m and x not in gone) for m in ("own", "oth")}
    files["own.fc"] = "".join("/a%d -- gen_context(system_u:object_r:%s,s0)\n" % (i, x) for i, x in enumerate(names))
    exp = []
    for i, x in enumerate(names):
        if x in gone:
            exp.append(("own.fc", i + 1, "E-005"))
        elif owner[x] != "own":
            exp.append(("own.fc", i + 1, "S-002"))
    return Case(files, [only(*IDS) + sorted(files)], exact(exp))


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("regexes", regexes(5), "all paths of up to 5 of 10 regex characters x 4 entry forms"),
        Space("regexes-deep", regexes(7 if deep else 6), "all paths of up to 6 (7 thorough) of 10 regex characters"),
        Space("real-paths", real_paths, "36 realistic paths, pairs, x 4 entry forms"),
        Space("contexts", contexts, "10 entry forms x 7 assumptions x 5 sets of files, about 70 contexts each"),
        Space("single", single, "5 users x 5 roles x 6 types x 10 forms x 4 positions x with/without declarations"),
        Space("ownership", ownership, "6 file names x 8 module names x 3 places x 5 kinds of declaration x orders"),
        Space("generated", generated, "35 file names x 6 settings x directories x second files"),
        Space("many", many, "8 numbers of declarations to 3000 x missing x distribution"),
    ]
