"""No input crashes selint, makes it hang or touch memory it should not (all runs under address and undefined behaviour sanitizers)."""
from core import Case, Space
import syntax
import fixture as F
from props.C21 import STATEMENTS
from props.C22 import FORMS, HEAD, SMALL, SUPPORT, edited, kinds, write

RULE = ("Under sanitizers: every statement form x every edit of one token, and with each name replaced by one of 24 odd ones; nestings "
        "up to 3000 levels; graphs of interfaces, templates and permission macros calling each other; all short fc lines, modules.conf "
        "and class files; all short command lines over 34 words.")
ASSUMPTIONS = ["memory leaks are not counted"]
EXITS = (0, 64, 65, 66, 70, 71, 74, 78)


def run_ok(rs):
    for r in rs:
        if r.timed_out:
            return "hangs"
        if r.crashed() or r.code < 0:
            return "crash: " + " ".join(r.err.split())[:300]
        if r.code not in EXITS and r.code > 2:
            return "exit status %d" % r.code
    return None


CFG = "assume_users = { system_u }\nassume_roles = { object_r }\n"
BASE = dict(F.FILES)
BASE["cfg"] = CFG
ENV = {"cfg": CFG, "access_vectors": F.AV, "obj_perm_sets.spt": F.SPT, "modules.conf": F.MODS, "kernel/kernel.if": F.KERNEL_IF, "kernel/kernel.te": F.KERNEL_TE,
       "m.fc": "/a\tgen_context(system_u:object_r:a_t,s0)\n"}


def one(files, argv=("-c", "cfg", "-s", "-r", ".")):
    f = dict(ENV)
    f.update(files)
    return Case(f, [list(argv)], run_ok)


def edits(c):
    form = c.pick(FORMS)
    where = c.pick(["te", "if"])
    t = edited(c, form, ["STRING", ";", "'", ",", "COMMAND"])
    if t is None:
        return None
    if where == "te":
        return one({"m.te": write(HEAD + t + ["type", "STRING", ";"])})
    return one({"m.if": write(kinds("interface(`m_a',`") + t + kinds("')"))})


ODD = ["", "a", "_", "$", "$1", "$9", "$10", "$*", "$$", "$1_t", "$1$2", "a$1", "-a", "*", "~a", "{ a b }", "{ }", "self", "a" * 300, "a" * 5000, "$1" * 50, "a b", "/", "a*b", "\"a\"",
       "\"\"", "_perms", "_t", "a_perms", "read_file_perms", "file", "type", "system_r", "kernel_t", "m", "m_a"]


def names(c):
    """every name of a statement form replaced by an odd one"""
    s = c.pick(STATEMENTS)
    toks = syntax.lex(s)
    words = [i for i, x in enumerate(toks) if x[0] == "STRING"]
    if not words:
        return None
    i = c.pick(words)
    o = c.pick(ODD)
    every = c.flag()
    old = toks[i][3]
    out = []
    for j, x in enumerate(toks):
        out.append(o if j == i or every and x[3] == old else x[3])
    text = " ".join(out).replace("# c", "# c\n")
    if c.flag():
        return one({"m.te": "policy_module(m,1.0)\ntype a_t;\n%s\nm_a(a_t)\n" % text, "m.if": "## <summary>x</summary>\n## <summary>x</summary>\ntemplate(`m_a',`\n')\n"})
    return one({"m.if": "## <summary>x</summary>\n## <summary>x</summary>\n%s(`m_a',`\n%s\n')\n" % ("template", text), "m.te": "policy_module(m,1.0)\nm_a(x, y)\nm_a()\nm_a(`')\n"})


OPEN = {"optional": ("optional_policy(`\n", "')\n"), "ifdef": ("ifdef(`a',`\n", "')\n"), "if": ("if (a) {\n", "}\n"), "tunable": ("tunable_policy(`a',`\n", "')\n"),
        "ifelse": ("ifelse(`a',`b',`\n", "')\n"), "debug": ("userdebug_or_eng(`\n", "')\n"), "optelse": ("optional_policy(`\na(b)\n',`\n", "')\n"),
        "tunelse": ("tunable_policy(`a',`\na(b)\n',`\n", "')\n"), "else": ("if (a) {\n;\n} else {\n", "}\n"),
        "require": ("gen_require(`\n", "')\n"), "cond": ("tunable_policy(`%s',`\n", "')\n")}


def nesting(c):
    k = c.pick(sorted(OPEN))
    k2 = c.pick(sorted(OPEN)) if k not in ("require", "cond") else k
    n = c.pick([1, 2, 10, 100, 300, 1000, 3000])
    inner = c.pick(["", "allow a_t b_t:file read;\n", "type z_t;\n", "m_a(a_t)\n"])
    closed = c.flag()
    if k == "require":
        o = "gen_require(`\n" + "ifdef(`a',`\n" * n
        e = "type q_t;\n" + "')\n" * (n if closed else 0) + ("')\n" if closed else "")
        text = o + e
    elif k == "cond":
        text = OPEN[k][0] % ("(" * n + "a" + (")" * n if closed else "")) + inner + OPEN[k][1] + "tunable_policy(`%sa',`%s')\n" % ("!" * n, inner)
    else:
        text = "".join(OPEN[k if i % 2 else k2][0] for i in range(n)) + inner
        if closed:
            text += "".join(OPEN[k if i % 2 else k2][1] for i in reversed(range(n)))
    if c.flag():
        return one({"m.te": "policy_module(m,1.0)\ntype a_t;\n" + text})
    return one({"m.if": "## <summary>x</summary>\n## <summary>x</summary>\n%s(`m_a',`\n%s')\n" % ("template", text), "m.te": "policy_module(m,1.0)\nm_a(a)\n"})


def sizes(c):
    """long lists, many arguments, many statements"""
    k = c.pick(["set", "args", "perms", "types", "requires", "interfaces", "decls", "dollar", "cond", "xperm", "names", "aliases"])
    n = c.pick([1, 9, 10, 11, 32, 33, 100, 1000, 5000])
    w = ["a%d_t" % i for i in range(n)]
    te = {
        "set": "allow a_t { %s }:file read;" % " ".join(w), "args": "m_a(%s)" % ", ".join(w), "perms": "allow a_t a_t:file { %s };" % " ".join(w),
        "types": "type %s;" % ", ".join(w), "requires": "gen_require(`\n%s\n')" % "\n".join("type %s;" % x for x in w), "interfaces": "", "decls": "\n".join("type %s;" % x for x in w),
        "dollar": "m_b(%s)" % ", ".join(w), "cond": "tunable_policy(`%s',`m_a(a)')" % " && ".join(w), "xperm": "allowxperm a_t a_t:file ioctl { %s };" % " ".join("0x%x" % i for i in range(n)),
        "names": "type_transition a_t a_t:file a_t \"%s\";" % ("n" * n), "aliases": "type b_t alias { %s };" % " ".join(w),
    }[k]
    ifs = "## <summary>x</summary>\n"
    if k == "interfaces":
        ifs += "".join("## <summary>x</summary>\ninterface(`m_%d',`\n\tm_%d($1)\n')\n" % (i, (i + 1) % n) for i in range(n))
    ifs += "## <summary>x</summary>\ntemplate(`m_b',`\n" + "".join("type $%d;\n" % i for i in range(1, min(n, 1000) + 1)) + "')\n"
    return one({"m.te": "policy_module(m,1.0)\ntype a_t;\n%s\n" % te, "m.if": ifs})


def graphs(c):
    """templates and interfaces that call each other in every way"""
    n = 2 + c.choose(2)
    kinds_ = [c.pick(["interface", "template"]) for _ in range(n)]
    calls = []
    for i in range(n):
        calls.append(list(c.subset(range(n))))
    arg = c.pick(["$1", "$1_x", "x"])
    body = "## <summary>x</summary>\n"
    for i in range(n):
        body += "## <summary>x</summary>\n%s(`m_%d',`\n\ttype $1_%d;\n%s')\n" % (kinds_[i], i, i, "".join("\tm_%d(%s)\n" % (j, arg) for j in calls[i]))
    return one({"m.if": body, "m.te": "policy_module(m,1.0)\n" + "".join("m_%d(a)\n" % i for i in range(n))})


def macros(c):
    """permission macros defined by each other"""
    n = 3
    refs = [list(c.subset(range(n))) for _ in range(n)]
    extra = c.pick(["", " read", " -read", " ~"])
    text = "".join("define(`m%d_perms',`{%s%s }')\n" % (i, "".join(" m%d_perms" % j for j in refs[i]), extra or (" a" if not refs[i] else "")) for i in range(n))
    return one({"obj_perm_sets.spt": text, "m.te": "policy_module(m,1.0)\ntype a_t;\n" + "".join("allow a_t self:file %s;\nallow a_t self:file { m%d_perms };\n" % (
        x, i) for i, x in enumerate(["m0_perms", "~m1_perms", "{ read m2_perms }"]))})


FCPIECES = ["/", "a", "\t", " ", "--", "-d", "gen_context(", "system_u", ":", "object_r", "x_t", ",", "s0", ")", "<<none>>", "(", "[", "]", "\\", "{", ".*", "#", "\n", "\r", "é", "'"]


def fc(n):
    def body(c):
        return one({"m.fc": "".join(c.seq(FCPIECES, n, 1)) + c.pick(["\n", ""]), "m.te": "policy_module(m,1.0)\ntype x_t;\n"})
    return body


FCLINE = ["/usr/bin/x", "\t", "--", "\t", "gen_context(", "system_u", ":", "object_r", ":", "x_t", ",", "s0", " - ", "s0:c0.c1023", ",", "c0", ")"]


def fc_edits(c):
    t = list(FCLINE)
    for _ in range(2):
        how = c.pick(["none", "delete", "insert", "replace"])
        if how == "none":
            break
        i = c.choose(len(t) + (how == "insert"))
        if how == "delete":
            del t[i]
        elif how == "insert":
            t.insert(i, c.pick(FCPIECES))
        else:
            t[i] = c.pick(FCPIECES)
    return one({"m.fc": "".join(t) + "\n", "m.te": "policy_module(m,1.0)\ntype x_t;\n"})


PATHS = ["\\", "[", "]", "(", ")", "?", "*", "+", ".", "a", "/", "{", "}", "|", "^", "$", "-", "\\."]


def fc_paths(n):
    def body(c):
        return one({"m.fc": "/" + "".join(c.seq(PATHS, n, 1)) + "\t--\tgen_context(system_u:object_r:x_t,s0)\n", "m.te": "policy_module(m,1.0)\ntype x_t;\n"})
    return body


MODS = ["kernel", "m", "=", " ", "base", "module", "off", "\n", "#", "\t", "\r", "é", "x" * 400]


def mods(n):
    def body(c):
        return one({"modules.conf": "".join(c.seq(MODS, n, 1)), "m.te": "policy_module(m,1.0)\ntype x_t;\n"})
    return body


def support(c):
    kind = c.pick(["spt", "av"])
    t = kinds(c.pick(SMALL[kind]))
    t = edited(c, t, ["STRING", "{", "}", "'", "`", "COMMENT", "COMMAND", "define", "class", "*", "~", "-", "QUOTED"])
    if t is None:
        return None
    return one({SUPPORT[kind]: write(t), "m.te": F.MY_TE})


WORDS = ["-c", "cfg", "nowhere", "-d", "-e", "S-001", "", "-E", "-F", "-h", "-l", "W", "-S", "--summary-only", "-r", "-s", "-v", "-V", "--context", "--context=kernel", "--context=nowhere",
         "--color", "--color=always", "--color=x", "--debug-parser", "--scan-hidden-dirs", "--", "-", ".", "apps/mymod.te", "--nosuch", "-lx", "--level=", "-dS-001,W-001"]


def commands(n):
    def body(c):
        w = list(c.seq(WORDS, n, 1))
        tail = c.pick([[], ["-r", "-s", "-c", "cfg", "."]])
        return Case(BASE, [w + tail], run_ok)
    return body


BYTES = [chr(i) for i in list(range(1, 32)) + [127, 128, 255]]


def odd_bytes(c):
    """control and non-ASCII characters everywhere"""
    name = c.pick(["apps/mymod.te", "apps/mymod.if", "apps/mymod.fc", "access_vectors", "obj_perm_sets.spt", "modules.conf", "cfg"])
    text = BASE[name]
    b = c.pick(BYTES)
    at = c.choose(min(len(text), 60) + 1)
    pos = at if at < 50 else len(text) - (at - 50)
    f = dict(BASE)
    f[name] = text[:pos] + b + text[pos:]
    return Case(f, [["-c", "cfg", "-s", "-r", "."]], run_ok)


def truncated(c):
    """every file of a policy with all violations cut at every byte"""
    name = c.pick(sorted(BASE))
    text = BASE[name]
    f = dict(BASE)
    f[name] = text[:c.choose(len(text) + 1)]
    return Case(f, [["-c", "cfg", "-s", "-r", "."]], run_ok)


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("edits", edits, "%d statement forms in a module and an interface x every edit with 5 tokens" % len(FORMS), "san"),
        Space("names", names, "%d forms x every name x %d odd names x once or everywhere x module or template" % (len(STATEMENTS), len(ODD)), "san"),
        Space("nesting", nesting, "11 x 9 kinds of blocks nested up to 3000 deep, closed or not", "san"),
        Space("sizes", sizes, "12 kinds of lists of up to 5000 elements", "san"),
        Space("call-graphs", graphs, "all call graphs of up to 3 interfaces or templates", "san"),
        Space("macro-graphs", macros, "all reference graphs of 3 permission macros x 4", "san"),
        Space("fc-lines", fc(4 if deep else 3), "all fc lines of up to 3 (4 thorough) of 26 pieces", "san"),
        Space("fc-edits", fc_edits, "all pairs of edits of a complete fc line", "san") if deep else
        Space("fc-edits", lambda c: fc_one(c), "all edits of a complete fc line", "san"),
        Space("fc-paths", fc_paths(4 if deep else 3), "all paths of up to 3 (4 thorough) of 18 pieces", "san"),
        Space("modules-conf", mods(4 if deep else 3), "all texts of up to 3 (4 thorough) of 13 pieces", "san"),
        Space("support", support, "every edit of permission macro and class files", "san"),
        Space("command-lines", commands(3 if deep else 2), "all sequences of up to 2 (3 thorough) of 34 words, with and without a policy", "san"),
        Space("bytes", odd_bytes, "34 control and non-ASCII bytes at up to 60 places in 7 files", "san"),
        Space("truncated", truncated, "11 files cut at every byte", "san"),
    ]


def fc_one(c):
    t = list(FCLINE)
    how = c.pick(["delete", "insert", "replace"])
    i = c.choose(len(t) + (how == "insert"))
    if how == "delete":
        del t[i]
    else:
        t[i:i + (how == "replace")] = [c.pick(FCPIECES)]
    return one({"m.fc": "".join(t) + "\n", "m.te": "policy_module(m,1.0)\ntype x_t;\n"})
