"""Permissions and classes of rules: C-005, C-007, W-008, E-007 and E-008."""
import itertools

from core import Case, Space
from stmts import exact, near, only

RULE = ("C-005: every permission list of up to 4 (5 thorough) of 9 words x forms x statement kinds; C-007: every pair of names x "
        "way of declaring them x rule kind; W-008: every rule kind x permission form; E-007/E-008: every subset of definitions in "
        "access_vectors and obj_perm_sets.spt x words; all places, long lists, many rules.")
ASSUMPTIONS = ["removed permissions ('-perm'), a class list of * or ~ and $* are not judged"]

PLACES = {
    "te": ("own.te", ["policy_module(own,1.0)"], []),
    "te-optional": ("own.te", ["policy_module(own,1.0)", "optional_policy(`"], ["')"]),
    "te-tunable": ("own.te", ["policy_module(own,1.0)", "tunable_policy(`b',`"], ["')"]),
    "te-tunable-else": ("own.te", ["policy_module(own,1.0)", "tunable_policy(`b',`", "# c", "',`"], ["')"]),
    "te-ifdef": ("own.te", ["policy_module(own,1.0)", "ifdef(`b',`"], ["')"]),
    "te-bool": ("own.te", ["policy_module(own,1.0)", "if (b) {"], ["}"]),
    "te-bool-else": ("own.te", ["policy_module(own,1.0)", "if (b) {", "x_y(own_t)", "} else {"], ["}"]),
    "te-debug": ("own.te", ["policy_module(own,1.0)", "userdebug_or_eng(`"], ["')"]),
    "te-deep": ("own.te", ["policy_module(own,1.0)", "ifdef(`b',`", "optional_policy(`", "ifndef(`c',`", "optional_policy(`"], ["')"] * 4),
    "if": ("own.if", ["# c", "interface(`own_i',`"], ["')"]),
    "template": ("own.if", ["# c", "template(`own_i',`"], ["')"]),
    "if-second": ("own.if", ["# c", "interface(`own_h',`", "x_y($1)", "')", "# c", "template(`own_i',`", "optional_policy(`"], ["')", "')"]),
}


def place(c, names=None):
    return PLACES[c.pick(names or sorted(PLACES))]


def build(where, rules, check, files=None, argv=None, extra=()):
    """rules: (text, set of ids); check: ids enabled"""
    name, head, tail = where
    lines, exp = list(head), []
    for text, ids in rules:
        for i in ids:
            if i in check:
                exp.append((name, len(lines) + 1, i))
        lines += text.split("\n")
    lines += tail
    fs = dict(files or {})
    fs[name] = "\n".join(lines) + "\n"
    a = only(*check) + (argv or ["-r", "."])
    return Case(fs, [a], exact(exp + list(extra)))


# ---------------------------------------------------------------- C-005
WORDS = ["append", "getattr", "read", "read_file_perms", "readx", "Read", "write", "z", "execute_no_trans"]


def unordered(ws):
    return any(a >= b for a, b in zip(ws, ws[1:]))


AVF = ["allow a_t b_t:file %s;", "dontaudit a_t b_t:file %s;", "auditallow a_t b_t:{ file dir } %s;", "neverallow a_t self:file %s;",
       "allow { z_t a_t } { z_t a_t }:{ lnk_file dir } %s;"]


def braces(ws, tilde=""):
    return tilde + ("{ %s }" % " ".join(ws) if len(ws) != 1 else ws[0])


def orders(n):
    """every list of words; one file per first two words"""
    def body(c):
        form = c.pick(AVF)
        a = c.pick(WORDS)
        tilde = c.pick(["", "~", "~ "])
        rules = []
        for k in range(0, n):
            for rest in itertools.product(WORDS, repeat=k):
                ws = [a] + list(rest)
                rules.append((form % braces(ws, tilde), ["C-005"] * unordered(ws)))
                if k > 2 and len(rules) > 900:
                    break
        return build(PLACES["te"], rules, ["C-005"])
    return body


def order_places(c):
    where = place(c)
    a = c.pick(WORDS[:6])
    b = c.pick(WORDS[:6])
    kind = c.pick(["av", "av2", "class", "reqclass", "genreqclass", "xperm"])
    if kind in ("reqclass", "genreqclass"):
        head, tail = ("require {\n", "\n}") if kind == "reqclass" else ("gen_require(`\n", "\n')")
        stm = "class file { %s %s };"
    else:
        head = tail = ""
        stm = {"av": "allow a_t b_t:file { %s %s };", "av2": "dontaudit a_t b_t:file {\n%s\n%s\n};", "class": "class foo { %s %s };",
               "xperm": "allowxperm a_t b_t:file ioctl { %s %s };"}[kind]
        if kind == "class" and where[0] == "own.if":
            return None
    rules = []
    for x, y in ((a, b), ("read", "write"), (b, a)):
        pre = head.count("\n")
        rules.append((head.rstrip("\n"), [])) if pre else None
        rules.append((stm % (x, y), ["C-005"] * (x >= y)))
        rules.append((tail.strip("\n"), [])) if pre else None
    return build(where, rules, ["C-005"])


XP = ["0x1", "0x2", "0x10", "0x9", "100", "20", "foo", "-", "$1", "Z1"]


def xunordered(ws):
    return any(a >= b for a, b in zip(ws, ws[1:]) if a != "-" and b != "-")


def xperms(c):
    kind = c.pick(["allowxperm", "dontauditxperm", "auditallowxperm", "neverallowxperm"])
    a = c.pick(XP)
    if a == "-":
        return None
    tilde = c.pick(["", "~"])
    rules = []
    for k in range(0, 4):
        for rest in itertools.product(XP, repeat=k):
            ws = [a] + list(rest)
            # a minus stands between two words
            if ws[-1] == "-" or any(x == y == "-" for x, y in zip(ws, ws[1:])):
                continue
            rules.append(("%s a_t b_t:file ioctl %s;" % (kind, braces(ws, tilde)), ["C-005"] * xunordered(ws)))
    return build(PLACES["if"], rules, ["C-005"])


def dashes(c):
    """a dash in a name or at its end makes no range of it"""
    ws = ["a-b", "read-", "a", "read", "z-", "x-y-z", "b--c", "re"]
    kind = c.pick(["allow a_t b_t:file %s;", "class foo %s;", "neverallowxperm a_t b_t:file ioctl %s;", "dontaudit a_t self:{ file dir } %s;"])
    a = c.pick(ws)
    rules = []
    for n in (1, 2):
        for rest in itertools.product(ws, repeat=n):
            w = [a] + list(rest)
            rules.append((kind % braces(w), ["C-005"] * unordered(w)))
    return build(PLACES["te"], rules, ["C-005"])


def classes_declared(c):
    """class declarations and requirements with their permissions"""
    ws = c.seq(["append", "read", "write", "getattr"], 4, 1)
    form = c.pick(["te", "require", "gen_require", "if", "single"])
    if form == "single" and len(ws) > 1:
        return None
    ids = ["C-005"] * unordered(ws)
    t = "class %%s %s;" % braces(ws)
    if form == "te":
        rules = [(t % "foo", ids), ("class bar { a b };", []), (t % "foobar", ids)]
        return build(PLACES["te"], rules, ["C-005"])
    if form == "single":
        return build(PLACES["te"], [("class foo { %s };" % ws[0], []), ("class fob %s;" % ws[0], [])], ["C-005"])
    op, cl = ("require {", "}") if form == "require" else ("gen_require(`", "')")
    rules = [(op, []), ("type z_t, a_t;", []), (t % "process", ids), ("class file read;", []), (t % "dir", ids), ("role b_r;", []), (cl, [])]
    return build(PLACES["if" if form == "if" else "te"], rules, ["C-005"])


# ---------------------------------------------------------------- C-007
DECL = {"type": "type %s;", "type-attr": "type %s, domain;", "alias": "type x_t alias %s;", "alias2": "type x_t alias { y_t %s };",
        "typealias": "typealias x_t alias %s;", "attribute": "attribute %s;", "role": "role %s;", "bool": "bool %s;",
        "required": "require { type %s; }", "none": "# nothing %s"}
KNOWN = {"type", "type-attr", "alias", "alias2", "typealias"}
AVK = ["allow", "dontaudit", "auditallow", "neverallow"]


def self_rules(known, name, other):
    rep = ["C-007"] if known else []
    out = []
    for k in AVK:
        out.append(("%s %s %s:file read;" % (k, name, name), rep))
        out.append(("%sxperm %s %s:file ioctl 0x1;" % (k, name, name), rep))
        out.append(("%s %s self:file read;" % (k, name), []))
        out.append(("%s %s %s:file read;" % (k, name, other), []))
        out.append(("%s %s %s:{ file dir } { read write };" % (k, name, name), rep))
        out.append(("%s { %s %s } %s:file read;" % (k, name, other, name), []))
        out.append(("%s %s { %s %s }:file read;" % (k, name, name, other), []))
        out.append(("%s { %s } { %s }:file read;" % (k, name, name), rep))
        out.append(("%s ~%s ~%s:file read;" % (k, name, name), []))
    return out


def self_declared(c):
    """how and where the name is declared"""
    how = c.pick(sorted(DECL))
    decl_in = c.pick(["same", "other.te", "after", "context", "optional", "template-call", "interface"])
    where = place(c)
    name = c.pick(["a_t", "a", "a_type", "t"])
    if decl_in in ("same", "after") and where[0] != "own.te":
        return None
    known = how in KNOWN
    files = {"zz.te": "policy_module(zz,1.0)\ntype other_t;\n"}
    argv = ["-r", "."]
    d = DECL[how] % name
    rules = self_rules(known, name, "other_t")
    if decl_in == "same":
        rules = [(d, [])] + rules
    elif decl_in == "after":
        if len(where[2]):
            return None
        rules = rules + [(d, [])]
    elif decl_in == "other.te":
        files["aa/foo.te"] = "policy_module(foo,1.0)\n%s\n" % d
    elif decl_in == "optional":
        files["foo.te"] = "policy_module(foo,1.0)\noptional_policy(`\n%s\n')\n" % d
    elif decl_in == "context":
        files["ctx/foo.te"] = "policy_module(foo,1.0)\n%s\n" % d
        files = {(k if k.startswith("ctx/") else "w/" + k): v for k, v in files.items()}
        argv = ["--context=ctx", "-r", "w"]
    elif decl_in == "interface":
        # declarations in an interface declare names, those in an uncalled template do not
        if how in ("required",):
            return None
        files["foo.if"] = "# c\ntemplate(`foo_tmpl',`\n%s\n')\n" % d
        rules = [(t, []) for t, _ in rules]
    else:
        if how not in ("type", "type-attr", "none", "attribute"):
            return None
        files["foo.if"] = "# c\ntemplate(`foo_tmpl',`\n%s\n')\n" % (DECL[how] % "$1")
        files["foo.te"] = "policy_module(foo,1.0)\nfoo_tmpl(%s)\n" % name
    case = build(where, rules, ["C-007"], files, argv)
    if decl_in == "context":
        case.files["w/" + where[0]] = case.files.pop(where[0])
        case.runs = [case.runs[0][1:]] if case.runs[0][0] == "-s" else case.runs
    return case


PARAM = ["$1", "$1_t", "$2_t", "$1_type", "$1_exec_t", "$*", "$1t", "$1_tt", "x_$1_t", "$1_r", "$1_t_x"]


def self_params(c):
    """interface parameters: judged by their suffix"""
    where = place(c, ["if", "template", "if-second", "te"])
    a, b = c.pick(PARAM), c.pick(PARAM)
    rules = []
    for k in AVK:
        rep = a == b and (a.startswith("$") and a.endswith("_t"))
        rules.append(("%s %s %s:file read;" % (k, a, b), ["C-007"] * rep))
        rules.append(("%s { %s } %s:file read;" % (k, a, b), ["C-007"] * rep))
        rules.append(("%sxperm %s %s:file ioctl 0x1;" % (k, a, b), ["C-007"] * rep))
    return build(where, rules, ["C-007"])


NMS = ["a", "a_t", "aa_t", "a_tt", "self", "selfx", "sel", "a_", "A_t", "b_t", "self_t", "a_t_t"]


def self_names(c):
    """all pairs of similar names"""
    where = place(c, ["te", "if"])
    decl = c.pick([NMS, NMS[:3], NMS[6:], []])
    rules = []
    for a in NMS:
        if a == "self":
            continue
        for b in NMS:
            rules.append(("allow %s %s:file read;" % (a, b), ["C-007"] * (a == b and a in decl)))
    text = "policy_module(dd,1.0)\n" + "".join("type %s;\n" % n for n in decl if n != "self")
    return build(where, rules, ["C-007"], {"dd.te": text})


# ---------------------------------------------------------------- W-008
PERMF = [("read", 0), ("{ read }", 0), ("{ read write }", 0), ("*", 1), ("~read", 1), ("~ read", 1), ("~{ read write }", 1), ("~ { read }", 1),
         ("~~read", 1), ("all_file_perms", 0), ("manage_file_perms", 0), ("re*ad", 0), ("$1", 0), ("~*", 1)]


def risky(c):
    where = place(c)
    src = c.pick(["a_t", "*", "~a_t", "{ a_t -b_t }", "self"])
    tgt = c.pick(["a_t", "*", "~a_t", "~{ a_t b_t }", "self"])
    rules = []
    for k in AVK:
        for p, r in PERMF:
            rules.append(("%s %s %s:file %s;" % (k, src, tgt, p), ["W-008"] * (r and k == "allow")))
    rules += [("%sxperm %s %s:file ioctl ~0x1;" % (k, src, tgt), []) for k in AVK]
    rules += [("%sxperm %s %s:file ioctl ~{ 0x1 0x2 };" % (k, src, tgt), []) for k in AVK]
    return build(where, rules, ["W-008"])


# ---------------------------------------------------------------- E-007 / E-008
def av_file(defs):
    """defs: ("class", name, perms) | ("common", name, perms) | ("inherit", name, common, perms or None)"""
    out = []
    for d in defs:
        if d[0] == "inherit":
            out.append("class %s\ninherits %s" % (d[1], d[2]))
            if d[3]:
                out.append("{\n\t%s\n}" % "\n\t".join(d[3]))
        else:
            out.append("%s %s\n{\n\t%s\n}" % (d[0], d[1], "\n\t".join(d[2])))
        out.append("")
    return "\n".join(out) + "\n"


def known_of(av, spt, te_classes=()):
    cl = {d[1] for d in av if d[0] != "common"} | set(te_classes)
    pe = set()
    for d in av:
        pe |= set((d[3] or []) if d[0] == "inherit" else d[2])
    mac = {n for n, _ in spt if n.endswith("_perms")}
    return cl, pe, mac


def e007(pe, mac, words):
    if not pe or not mac:
        return []
    for w in words:
        if w in ("*", "~") or (w.startswith("all_") and w.endswith("_perms")) or (w[0] == "$" and w[1:2].isdigit()) or w in pe or w in mac:
            continue
        return ["E-007"]
    return []


def e008(cl, classes):
    if not cl:
        return []
    for k in classes:
        if (k[0] == "$" and k[1:2].isdigit()) or k.endswith("_class_set") or k in cl:
            continue
        return ["E-008"]
    return []


def spt_file(spt):
    return "".join("define(`%s',`{ %s }')\n" % (n, " ".join(p)) for n, p in spt)


AVDEFS = [("common", "file", ["ioctl", "read"]), ("class", "process", ["fork", "signal"]), ("inherit", "dir", "file", ["rmdir", "search"]),
          ("inherit", "lnk_file", "file", None), ("class", "file", ["write"])]
SPTDEFS = [("r_file_perms", ["read"]), ("file_class_set", ["file", "dir"]), ("rw_file_perms", ["read", "nosuch"]), ("odd_perm", ["read"])]
CLW = ["file", "dir", "lnk_file", "process", "nosuch", "files", "fil", "File", "file_class_set", "x_class_set", "$1", "$2_x", "filee"]
PEW = ["read", "fork", "rmdir", "search", "write", "nosuch", "rea", "reads", "r_file_perms", "rw_file_perms", "odd_perm", "all_x_perms",
       "all_perm", "small_perms", "x_all_file_perms", "$1", "$2_file_perms", "file", "Read", "r_file_perms_x"]


def definitions(c):
    """every subset of the definitions x one word each"""
    av = [d for d in AVDEFS if c.flag()]
    spt = [d for d in SPTDEFS if c.flag()]
    where = place(c, ["te", "if"])
    teclass = c.flag()
    if teclass and not any(d[0] != "common" for d in av):
        return None
    cl, pe, mac = known_of(av, spt, ["tec"] if teclass else [])
    rules = []
    for k in CLW + ["tec"]:
        ids = e008(cl, [k])
        rules.append(("allow a_t b_t:%s *;" % k, ids))
        rules.append(("type_transition a_t b_t:%s c_t;" % k, ids))
        rules.append(("role_transition a_r b_t:%s c_r;" % k, ids))
    for p in PEW:
        rules.append(("allow a_t b_t:x_class_set %s;" % p, e007(pe, mac, [p])))
    files = {}
    if av:
        files["policy/flask/access_vectors"] = av_file(av)
    if spt:
        files["policy/support/obj_perm_sets.spt"] = spt_file(spt)
    if teclass:
        files["zz.te"] = "policy_module(zz,1.0)\nclass tec { a b };\n"
    return build(where, rules, ["E-007", "E-008"], files)


FULLAV = av_file(AVDEFS)
FULLSPT = spt_file(SPTDEFS)
FULL = known_of(AVDEFS, SPTDEFS)
FULLFILES = {"access_vectors": FULLAV, "obj_perm_sets.spt": FULLSPT}


def class_lists(c):
    form = c.pick(["allow a_t b_t:%s *;", "dontaudit a_t b_t:%s ~read;", "neverallow a_t self:%s read;", "type_transition a_t b_t:%s c_t;",
                   "type_transition a_t b_t:%s c_t \"n\";", "type_member a_t b_t:%s c_t;", "type_change a_t b_t:%s c_t;",
                   "range_transition a_t b_t:%s s0;", "role_transition a_r b_t:%s c_r;"])
    a = c.pick(CLW)
    rules = [(form % a, e008(FULL[0], [a])), (form % ("{ %s }" % a), e008(FULL[0], [a]))]
    for b in CLW:
        rules.append((form % ("{ %s %s }" % (a, b)), e008(FULL[0], [a, b])))
        for d in CLW[::2]:
            rules.append((form % ("{ %s %s %s }" % (a, b, d)), e008(FULL[0], [a, b, d])))
    return build(PLACES["te"], rules, ["E-008"], FULLFILES)


def perm_lists(c):
    form = c.pick(["allow a_t b_t:file %s;", "dontaudit { a_t b_t } self:{ file dir } %s;", "auditallow a_t b_t:nosuch %s;",
                   "neverallow * ~a_t:file %s;"])
    a = c.pick(PEW)
    t = c.pick(["", "~"])
    rules = [(form % (t + a), e007(FULL[1], FULL[2], [a])), (form % (t + "{ %s }" % a), e007(FULL[1], FULL[2], [a]))]
    for b in PEW:
        rules.append((form % (t + "{ %s %s }" % (a, b)), e007(FULL[1], FULL[2], [a, b])))
        for d in PEW[::3]:
            rules.append((form % (t + "{ %s %s %s }" % (a, b, d)), e007(FULL[1], FULL[2], [a, b, d])))
    return build(PLACES["if"], rules, ["E-007"], FULLFILES)


def words(xs):
    return [x for i, x in enumerate(xs) if x and x not in xs[:i] and x[0].isalpha() and all(ch.isalnum() or ch in "_-." for ch in x)]


PERMCLOSE = words(near("all_perms") + near("all_file_perms") + near("all_x_perms") + near("r_file_perms") + near("read") + ["all" + x for x in near("_perms")] + ["all_x" + x for x in near("_perms")]
                  + [x + "file_perms" for x in near("all_")] + ["al_perms", "allperms", "ball_perms", "x_all_perms", "all_perms_x", "All_perms", "all-perms", "all_", "all", "perms", "perms_all", "all_xperms"])
CLASSCLOSE = words(["x" + s for s in near("_class_set")] + ["file" + s for s in near("_class_set")] + near("class_set") + near("file") + near("process")
                   + ["classset", "set", "x_set", "x_class", "class_set_x", "x_classset", "x_class-set", "x_class_sets", "file_set", "x_class_set2", "X_CLASS_SET"])


def close_words(c):
    """only generated macros, parameters and class sets are words of their own, whatever is close to them"""
    which = c.pick(["perm", "class"])
    where = place(c, ["te", "if", "te-optional"])
    have = c.pick(["all", "few"])
    av = AVDEFS if have == "all" else AVDEFS[1:2]
    spt = SPTDEFS if have == "all" else SPTDEFS[:1]
    files = {"access_vectors": av_file(av), "obj_perm_sets.spt": spt_file(spt)}
    cl, pe, mac = known_of(av, spt)
    if which == "perm":
        w = c.pick(PERMCLOSE)
        sets = [[w], [w, "signal"], ["signal", w], ["fork", w, "signal"], [w, w]]
        rules = [("%s a_t b_t:x_class_set %s;" % (k, t + braces(ws)), e007(pe, mac, ws)) for ws in sets for t in ("", "~") for k in ("allow", "neverallow")]
    else:
        w = c.pick(CLASSCLOSE)
        sets = [[w], [w, "process"], ["process", w], [w, "x_class_set"], ["x_class_set", w], ["process", w, "process"]]
        rules = [(f % braces(ws), e008(cl, ws)) for ws in sets for f in ("allow a_t b_t:%s *;", "type_transition a_t b_t:%s c_t;", "role_transition a_r b_t:%s c_r;")]
    return build(where, rules, ["E-007", "E-008"], files)


SELFCLOSE = words(near("self") + ["selfself", "self_self", "my-self", "self-", "Self", "sELF", "elf"])


def close_self(c):
    """self is no name; every other one is, and parameters count by their end"""
    where = place(c, ["te", "if", "te-optional", "te-bool"])
    a = c.pick([x for x in SELFCLOSE if x != "self"])
    b = c.pick([a, "self", "other_t"] + SELFCLOSE[:8])
    decl = c.pick([True, False])
    if b == "self" and c.flag():
        return None
    rules = []
    for k in AVK:
        rep = ["C-007"] * (a == b and decl)
        rules += [("%s %s %s:file read;" % (k, a, b), rep), ("%s { %s } %s:{ file dir } { a b };" % (k, a, b), rep), ("%s %s { %s other_t }:file read;" % (k, a, b), [])]
    return build(where, rules, ["C-007"], {"dd.te": "policy_module(dd,1.0)\ntype other_t;\n" + ("".join("type %s;\n" % x for x in SELFCLOSE if x != "self") if decl else "")})


PARAMCLOSE = ["$1" + x for x in ("_t", "t", "_T", "_tt", "_t_t", "x_t", "_x_t", "__t", "_", "", "_type_t", "-t", "_t1", "_t_", "tt", "_tx")] + ["$12_t", "$9_t", "$2_t", "$1$2_t", "$1_$2_t", "$1_$2"]


def close_params(c):
    where = place(c, ["if", "template", "if-second"])
    a = c.pick(PARAMCLOSE)
    b = c.pick([a] + PARAMCLOSE[:6])
    rep = ["C-007"] * (a == b and a.endswith("_t"))
    rules = [("%s %s %s:file read;" % (k, a, b), rep) for k in AVK] + [("%s { %s } { %s }:{ file dir } { a b };" % (k, a, b), rep) for k in AVK]
    return build(where, rules, ["C-007"])


ALL = ["C-005", "C-007", "W-008", "E-007", "E-008"]


def together(c):
    """all five checks on one rule, enabled alone and together, everywhere"""
    where = place(c)
    k = c.pick(["file", "nosuch", "{ file dir }"])
    enabled = c.pick([ALL] + [[x] for x in ALL])
    rules = []
    for kind in AVK:
        for s, t, self_ in (("a_t", "a_t", 1), ("a_t", "b_t", 0), ("attr", "attr", 0), ("a_t", "self", 0)):
            for p in ("read", "{ read fork }", "{ fork read }", "{ nosuch read }", "*", "~read", "~{ read read }", "{ all_x_perms nosuch }"):
                ws = p.replace("~", "~ ").replace("{", "").replace("}", "").split()
                ids = []
                if unordered([w for w in ws if w != "~"]):
                    ids.append("C-005")
                if self_:
                    ids.append("C-007")
                if kind == "allow" and ("*" in ws or "~" in ws):
                    ids.append("W-008")
                ids += e007(FULL[1], FULL[2], ws)
                ids += e008(FULL[0], k.replace("{", "").replace("}", "").split())
                rules.append(("%s %s %s:%s %s;" % (kind, s, t, k, p), ids))
    files = dict(FULLFILES)
    files["zz.te"] = "policy_module(zz,1.0)\ntype a_t;\ntype b_t;\nattribute attr;\n"
    return build(where, rules, enabled, files)


def sources(c):
    """where and how the definitions are written and found"""
    avp = c.pick(["access_vectors", "policy/flask/access_vectors", "a/b/c/access_vectors", "access_vectors.x", "xaccess_vectors", None])
    sptp = c.pick(["obj_perm_sets.spt", "policy/support/obj_perm_sets.spt", "obj_perm_sets", "file_patterns.spt", "misc_macros.spt", None])
    style = c.choose(3)
    order = c.flag()
    mode = c.pick(["-r", "context", "-s"])
    av, spt = FULLAV, FULLSPT
    if style == 1:
        av = "# c\n# d\n" + av.replace("{\n", "{\n# x\n").replace("\n\n", "\n# a { b\n\n")
        spt = "# c\n" + spt.replace("\n", "\n# x\n")
    elif style == 2:
        av = " ".join(l for l in av.split("\n")) + "\n"
        spt = spt.replace("{ ", "{\n\t").replace(" }", "\n}").replace("',`", "', `")
    if order:
        av = av_file(AVDEFS[::-1])
        spt = spt_file(SPTDEFS[::-1])
    files = {}
    if avp:
        files[avp] = av
    if sptp:
        files[sptp] = spt
    if mode == "context":
        argv = ["--context=ctx", "own.te"]
        files = {"ctx/" + k: v for k, v in files.items()}
    elif mode == "-r":
        argv = ["-r", "."]
    else:
        argv = ["-s", "own.te"]
    has_av = avp and avp.split("/")[-1] == "access_vectors" and mode != "-s"
    has_spt = sptp and sptp.split("/")[-1] == "obj_perm_sets.spt" and mode != "-s"
    cl, pe, mac = known_of(AVDEFS if has_av else [], SPTDEFS if has_spt else [])
    rules = []
    for k in CLW:
        rules.append(("allow a_t b_t:%s read;" % k, e008(cl, [k]) + e007(pe, mac, ["read"])))
    for p in PEW:
        rules.append(("allow a_t b_t:x_class_set %s;" % p, e007(pe, mac, [p])))
    case = build(PLACES["te"], rules, ["E-007", "E-008"], files, argv)
    if mode == "context":
        case.runs = [case.runs[0][1:]] if case.runs[0][0] == "-s" else case.runs
    return case


def long_lists(c):
    """one word out of many"""
    n = c.pick([1, 2, 31, 32, 33, 64, 65, 129, 300, 1000])
    pos = c.pick(["none", "first", "second", "middle", "last"])
    what = c.pick(["perm", "class", "order", "repeat", "tilde-order"])
    many = c.pick([1, 40])
    width = c.pick([4, 40, 200])
    names = ["p%0*d" % (width, i) for i in range(n)]
    cls = ["k%0*d" % (width, i) for i in range(n)]
    av = [("class", k, ["x"]) for k in cls] + [("class", "file", names)]
    i = {"none": None, "first": 0, "second": 1, "middle": n // 2, "last": n - 1}[pos]
    if i is not None and i >= n:
        return None
    w, k, ids = list(names), list(cls), []
    t = ""
    if what == "perm":
        if i is not None:
            w[i] = w[i] + "x"
            ids = ["E-007"]
    elif what == "class":
        if i is not None:
            k[i] = k[i][:-1]
            ids = ["E-008"]
    else:
        t = "~" if what == "tilde-order" else ""
        if i is not None and n > 1:
            j = i + 1 if i + 1 < n else i - 1
            if what == "repeat":
                w[i] = w[j]
            else:
                w[i], w[j] = w[j], w[i]
            ids = ["C-005"]
        if t:
            ids = ids + ["W-008"]
    rules = [("allow a_t b_t:{ %s } %s{ %s };" % (" ".join(k), t, " ".join(w)), ids), ("allow a_t b_t:file %s;" % names[0], [])] * many
    if n * width * many > 3000000:
        return None
    return build(PLACES["te"], rules, ALL, {"access_vectors": av_file(av), "obj_perm_sets.spt": FULLSPT})


def rule_sequences(n):
    """nothing of one rule changes the judgement of another"""
    alpha = [("allow a_t a_t:file read;", ["C-007"]), ("allow a_t b_t:file { fork read };", []), ("allow a_t b_t:file { read fork };", ["C-005"]),
             ("allow a_t b_t:file *;", ["W-008"]), ("allow a_t b_t:file nosuch;", ["E-007"]), ("allow a_t b_t:nosuch read;", ["E-008"]),
             ("allowxperm a_t a_t:file ioctl { 0x2 0x1 };", ["C-005", "C-007"]), ("type_transition a_t b_t:nosuch c_t;", ["E-008"]),
             ("dontaudit a_t self:file ~read;", [])]

    def body(c):
        where = place(c, ["te", "if"])
        rules = c.seq(alpha, n, 2)
        files = dict(FULLFILES)
        files["zz.te"] = "policy_module(zz,1.0)\ntype a_t;\ntype b_t;\n"
        return build(where, rules, ALL, files)
    return body


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("orders", orders(5 if deep else 4), "all lists of up to 4 (5 thorough) of 9 words x 5 rule forms x 3 spellings of ~"),
        Space("order-places", order_places, "12 places x 36 pairs x 6 statements"),
        Space("xperms", xperms, "all lists of up to 4 of 10 extended permissions and ranges x 4 rules x ~"),
        Space("dashes", dashes, "all lists of 2 or 3 of 8 words, 6 with dashes, in 4 statements"),
        Space("classes-declared", classes_declared, "all lists of up to 4 of 4 permissions x 5 forms of class declarations"),
        Space("self-declared", self_declared, "10 declarations x 7 places of them x 12 places of the rules x 4 names, 36 rules each"),
        Space("self-params", self_params, "all pairs of 11 parameter forms x 4 places x rule kinds"),
        Space("self-names", self_names, "all pairs of 12 similar names x 4 declaration sets x 2 places"),
        Space("risky", risky, "12 places x 25 source and target forms, 64 rules each"),
        Space("definitions", definitions, "all subsets of 5 class and 4 macro definitions x class in te x 2 places, 55 words"),
        Space("class-lists", class_lists, "all pairs and half of the triples of 13 class words x 9 rules"),
        Space("perm-lists", perm_lists, "all pairs and a third of the triples of 21 words x 4 rules x ~"),
        Space("close-words", close_words, "some 120 permission and 70 class words close to generated macros, class sets and definitions x 3 places x 2 sets of definitions, some 20 rules each"),
        Space("close-self", close_self, "some 20 names close to self x 11 targets x 4 places, declared or not"),
        Space("close-params", close_params, "23 parameter forms x 7 x 3 places"),
        Space("together", together, "12 places x 3 classes x 6 sets of checks, 128 rules each"),
        Space("sources", sources, "6 x 6 places of definitions x 3 spellings x 2 orders x 3 ways of reading"),
        Space("long-lists", long_lists, "10 lengths to 1000 x 5 positions x 5 kinds x 3 widths x number of rules"),
        Space("sequences", rule_sequences(5 if deep else 4), "all sequences of up to 4 (5 thorough) of 9 rules x 2 places"),
    ]
