"""Stray semicolons (S-003), stray words (E-010) and the module statement (S-006, W-009)."""
from core import Case, Space
from stmts import USES, emit, exact, only, tree, walk

RULE = ("Every forest of up to 5 (6 thorough) semicolons, words, statements and blocks in te files, interfaces and templates; every "
        "line made of up to 3 pieces; every ifelse of up to 10 arguments of 5 forms; every statement form without a finding; "
        "configured words x words; header forms x module names x file names x directories.")
ASSUMPTIONS = ["ifelse calls have 3, 4 or 3k, 3k+1 arguments", "a word as unquoted argument of an m4 call is not judged"]

IDS = ["S-003", "E-010"]
TE = ["policy_module(own,1.0)"]
IFACE = ["# c", "interface(`own_i',`"]
TMPL = ["# c", "interface(`own_h',`", "\tx_y($1)", "')", "# c", "template(`own_i',`"]
WHERE = {"te": ("own.te", TE, []), "interface": ("own.if", IFACE, ["')"]), "template": ("own.if", TMPL, ["')"])}
BLK = ["optional", "ifdef", "ifndef", "tunable", "bool", "debug"]


def structure(size, depth, blocks, two):
    def body(c):
        name, head, tail = WHERE[c.pick(sorted(WHERE))]
        f = tree(c, ["S", "W", "A"], blocks, size, depth, two)
        nodes = list(walk(f))
        if not any(n.kind in "SW" for n in nodes):
            return None
        lines = list(head)
        emit(f, lambda n: {"S": [";"], "W": ["strayword"], "A": ["allow a_t self:file a;"]}[n.kind], lines)
        lines += tail
        exp = [(name, n.line, "S-003" if n.kind == "S" else "E-010") for n in nodes if n.kind in ("S", "W")]
        return Case({name: "\n".join(lines) + "\n"}, [only(*IDS) + [name]], exact(exp))
    return body


# pieces: text, findings of its last line
PIECES = [
    (";", ["S-003"]), (";;", ["S-003"] * 2), (";;;", ["S-003"] * 3), ("; ;", ["S-003"] * 2), ("word", ["E-010"]),
    ("word word", ["E-010"] * 2), ("word;", ["E-010", "S-003"]), ("; word", ["E-010", "S-003"]), ("$1", ["E-010"]),
    ("allow a_t self:file a;", []), ("allow a_t self:file a;;", ["S-003"]), ("foo_x(a)", []), ("foo_x(a);", ["S-003"]),
    ("foo_x();", ["S-003"]), ("foo_x()", []), ("type x_t;", []), ("type x_t;;", ["S-003"]),
    ("require { type q_t; }", []), ("require { type q_t; };", ["S-003"]), ("gen_require(`type q_t;');", ["S-003"]),
    ("gen_bool(q, false);", ["S-003"]), ("gen_tunable(`q', false);", ["S-003"]), ("gen_tunable(q, false)", []),
    ("optional_policy(`foo_x(a)');", ["S-003"]), ("ifdef(`b',`foo_x(a)');", ["S-003"]), ("if (b) { foo_x(a) };", ["S-003"]),
    ("refpolicywarn(`x; y');", ["S-003"]), ("refpolicywarn(`word; word')", []), ("define(`word')", []), ("define(`word');", ["S-003"]),
    ("# word; word", []), ("dnl word; word", []), ("foo_x(a) # c ;;", []), ("word # word", ["E-010"]), ("; # ;", ["S-003"]),
    ("role r types x_t;", []), ("typeattribute x_t a;", []), ("permissive x_t;", []), ("genfscon proc / gen_context(uu:object_r:x_t,s0)", []),
    ("genfscon proc / gen_context(uu:object_r:x_t,s0);", ["S-003"]), ("portcon tcp 1 gen_context(uu:object_r:x_t,s0)", []),
    ("fs_use_xattr ext4 gen_context(uu:object_r:x_t,s0);", []), ("fs_use_xattr ext4 gen_context(uu:object_r:x_t,s0);;", ["S-003"]),
    ("gen_user(u,,r,s0,s0)", []), ("gen_user(u,,r,s0,s0);", ["S-003"]), ("allowxperm a_t self:file ioctl { 0x1 };;", ["S-003"]),
    ("userdebug_or_eng(`foo_x(a)');", ["S-003"]), ("word\n", ["E-010"]), ("\nword", ["E-010"]),
]


def pieces(c):
    """one to three pieces, on one line or on several"""
    ps = c.seq(PIECES, 2, 1)
    sep = c.pick(["\n", " ", "\n\n", "\t"]) if len(ps) > 1 else "\n"
    where = c.pick(sorted(WHERE))
    if sep in " \t" and any("#" in p or "dnl" in p for p, _ in ps[:-1]):
        return None
    if any("define" in p or "genfscon" in p for p, _ in ps) and where != "te":
        return None
    name, head, tail = WHERE[where]
    lines, exp = list(head), []
    text = "\n".join(head) + "\n"
    for p, ids in ps:
        stripped = p.rstrip("\n")
        text += stripped
        n = text.count("\n") + 1
        exp += [(name, n, i) for i in ids]
        text += p[len(stripped):] + sep
    text = text.rstrip() + "\n" + "\n".join(tail) + "\n"
    return Case({name: text}, [only(*IDS) + [name]], exact(exp))


def statements(c):
    """no statement form has a stray word or semicolon, but one may follow it"""
    fid, form = c.pick(USES)
    s = form % c.pick(["f_t", "word", "$1", "prefix_$1_t", "a-b"])
    where = c.pick(sorted(WHERE))
    extra = c.pick(["", ";", "\n;", "\nword", " word", "word "])
    blk = c.pick(["", "optional", "ifdef", "tunable"])
    if "-a-b" in s or ("\"" in s and "$" in s):
        return None
    name, head, tail = WHERE[where]
    o = {"": [], "optional": ["optional_policy(`"], "ifdef": ["ifdef(`b',`"], "tunable": ["tunable_policy(`b',`"]}[blk]
    cl = ["')"] if o else []
    text = extra + s if extra.endswith(" ") else s + extra
    start = len(head) + len(o) + 1
    exp = []
    if extra.strip():
        exp = [(name, start + extra.count("\n"), "S-003" if ";" in extra else "E-010")]
    return Case({name: "\n".join(head + o + [text] + cl + tail) + "\n"}, [only(*IDS) + [name]], exact(exp, fid))


ARGFORM = [("`word'", 1), ("`'", 0), ("", 0), ("bare", 0), ("`\nallow a_t self:file a;\nword\n'", 1)]


def ifelse(maxargs):
    def body(c):
        n = c.pick([x for x in range(3, maxargs + 1) if x % 3 != 2])
        forms = ARGFORM if n <= 4 else ARGFORM[:2] + ARGFORM[4:] if n <= 7 else ARGFORM[:1] + ARGFORM[4:]
        args = [c.pick(forms) for _ in range(n)]
        where = c.pick(sorted(WHERE)) if n <= 4 else "te"
        wrap = c.pick([None, "optional_policy(`", "ifdef(`b',`", "ifelse(`x',`y',`", "ifelse(`x',`y',,`"]) if n <= 6 else None
        name, head, tail = WHERE[where]
        text = "\n".join(head + ([wrap] if wrap else [])) + "\n"
        text += "ifelse("
        exp = []
        for i, (a, w) in enumerate(args):
            text += a
            if w and (i % 3 == 2 or i == n - 1):
                at = text.count("\n") + (0 if "\n" in a else 1)
                exp.append((name, at, "E-010"))
            text += "," if i < n - 1 else ")\n"
        text += "\n".join((["')"] if wrap else []) + tail) + "\n"
        return Case({name: text}, [only("E-010") + [name]], exact(exp))
    return body


def ifelse_values(c):
    """value arguments holding nested blocks"""
    n = c.pick([3, 4, 6, 7])
    vals = [i for i in range(n) if i % 3 == 2 or i == n - 1]
    inner = c.pick(["word", "optional_policy(`\nword\n')", "ifdef(`b',`\nword\n')", "ifelse(`p',`q',`\nword\n')",
                    "ifelse(`p',`q',`\nword\n', `\nword\n')", "foo_x(word)\nword\nword", ";\nword"])
    at = c.pick(vals)
    text = "policy_module(own,1.0)\nifelse("
    exp = []
    for i in range(n):
        if i == at:
            text += "`\n"
            for l in inner.split("\n"):
                if l in ("word", ";"):
                    exp.append(("own.te", text.count("\n") + 1, "E-010" if l == "word" else "S-003"))
                text += l + "\n"
            text += "'"
        elif i in vals:
            text += "`foo_x(a)'"
        else:
            text += "`cmp%d'" % i
        text += ",\n" if i < n - 1 else ")\n"
    # inner lists use "', `" lines: both words are on lines of their own
    return Case({"own.te": text}, [only(*IDS) + ["own.te"]], exact(exp))


WORDS = ["word", "word2", "wor", "Word", "a_word", "word-x", "w", "$1", "word_", "/word"]


def configured(c):
    have = c.subset(WORDS[:6])
    order = c.pick([1, -1])
    words = WORDS
    sep = c.pick([", ", ","])
    trail = c.pick(["{%s}", "{ %s }", "{\n  %s\n}"])
    cfg = "custom_te_simple_macros = " + trail % sep.join('"%s"' % w for w in have[::order]) + "\n" if have else ""
    if not have and (sep != "," or order < 0 or trail != "{%s}"):
        return None
    lines = TE + words + ["optional_policy(`"] + words + ["')"] + ["ifelse(`word',`word',`word')"]
    exp = [("own.te", i + 1, "E-010") for i, l in enumerate(lines) if l in WORDS and l not in have]
    if "word" not in have:
        exp.append(("own.te", len(lines), "E-010"))
    return Case({"own.te": "\n".join(lines) + "\n", "cfg": cfg}, [only("E-010") + ["-c", "cfg", "own.te"]], exact(exp))


def configured_long(c):
    n = c.pick([1, 2, 33, 64, 65, 129, 300])
    miss = c.pick(["none", "first", "second", "middle", "last"])
    names = ["m%03d" % i for i in range(n)]
    gone = {"none": None, "first": 0, "second": min(1, n - 1), "middle": n // 2, "last": n - 1}[miss]
    cfg = "custom_te_simple_macros = {%s}\n" % ", ".join('"%s"' % x for i, x in enumerate(names) if i != gone)
    if n == 1 and gone is not None:
        cfg = ""
    other = c.pick(["", "custom_fc_macros = {\"m000\", \"m001\"}\n", "ordering_rules = refpolicy\n"])
    lines = TE + names + names[::-1]
    exp = [("own.te", i + 1, "E-010") for i, l in enumerate(lines) if gone is not None and l == names[gone]]
    return Case({"own.te": "\n".join(lines) + "\n", "cfg": other + cfg}, [only("E-010") + ["-c", "cfg", "own.te"]], exact(exp))


MODS = ["own", "own2", "ow", "Own", "o", "own_x", "own-x", "x_own", "own_te", "te"]
FILES = ["own.te", "own2.te", "ow.te", "Own.te", "own_x.te", "own-x.te", "own.x.te", "own.te.te", "te.te", "x_own.te", "o.te", "owner.te"]
HEADS = [("policy_module(%s, 1.0)", 0), ("policy_module(%s,1.0.0)", 0), ("policy_module( %s , 1 )", 0), ("module %s 1.0;", 1),
         ("module %s 1.2.3;", 1), ("policy_module(%s,\n1.0\n)", 0), ("module\n%s\n1.0\n;", 1), ("policy_module(%s, 12.34) # c", 0),
         ("module %s 7;", 1)]


def headers(c):
    mod, fn = c.pick(MODS), c.pick(FILES)
    form, bare = c.pick(HEADS)
    d = c.pick(["", "dir/", "own/", "a.te.d/x/", "./", "sub/../"])
    pre = c.pick(["", "# c\n", "# c\n\n# d\n", "\n\n"])
    body = c.pick(["", "type x_t;\n"])
    exp = []
    at = pre.count("\n") + 1
    if fn[:-3] != mod:
        exp.append((fn, at, "W-009"))
    if bare:
        exp.append((fn, at, "S-006"))
    f = {(d + fn).replace("./", "").replace("sub/..//", "").replace("sub/../", ""): pre + form % mod + "\n" + body}
    if d == "sub/../":
        f = {fn: pre + form % mod + "\n" + body, "sub": (1, "")}
    return Case(f, [only("W-009", "S-006") + [d + fn]], exact(exp))


def many_headers(c):
    """every file has its own module statement"""
    k = 2 + c.choose(2)
    fs, exp = {}, []
    for i in range(k):
        stem = ["aa", "aaa", "bb"][i]
        mod = c.pick(["aa", "aaa", "bb"])
        bare = c.flag()
        fs["d%d/%s.te" % (i, stem)] = ("module %s 1.0;\n" if bare else "policy_module(%s,1.0)\n") % mod
        if mod != stem:
            exp.append((stem + ".te", 1, "W-009"))
        if bare:
            exp.append((stem + ".te", 1, "S-006"))
    order = c.perm(sorted(fs))
    return Case(fs, [only("W-009", "S-006") + list(order)], exact(exp))


def counts(c):
    n = c.pick([1, 2, 9, 10, 99, 100, 101, 999, 1000, 1500])
    what = c.pick([";", "word"])
    gap = c.pick([0, 1, 3])
    name, head, tail = WHERE[c.pick(sorted(WHERE))]
    lines, exp = list(head), []
    for _ in range(n):
        lines += ["# c"] * gap + [what]
        exp.append((name, len(lines), "S-003" if what == ";" else "E-010"))
    return Case({name: "\n".join(lines + tail) + "\n"}, [only(*IDS) + [name]], exact(exp))


def spaces(tier):
    deep = tier == "thorough"
    two = ("optional", "ifdef", "tunable", "bool")
    return [
        Space("structure", structure(6 if deep else 5, 2, BLK if deep else BLK[:5], two),
              "all forests of up to 5 (6 thorough) semicolons, words, statements and blocks, depth 2, in 3 kinds of file"),
        Space("deep-structure", structure(6, 5, ["optional", "ifdef"], ()), "all forests of up to 6 nodes, depth 5, 2 block kinds"),
        Space("pieces", pieces, "all sequences of up to 2 of 48 pieces x 4 separators x 3 kinds of file"),
        Space("statements", statements, "49 statement forms x 5 names x 3 kinds of file x 6 neighbours x 4 blocks"),
        Space("ifelse", ifelse(10 if deep else 9), "all ifelse calls of 3 to 9 (10 thorough) arguments of up to 5 forms"),
        Space("ifelse-values", ifelse_values, "7 contents in every value argument"),
        Space("configured", configured, "all sets of 6 configured words x 10 words x layouts"),
        Space("configured-long", configured_long, "lists of up to 300 configured words, one missing"),
        Space("headers", headers, "10 module names x 12 file names x 9 forms x 6 directories x 4 prefixes"),
        Space("many-headers", many_headers, "2-3 files x 3 names x 2 forms x orders"),
        Space("counts", counts, "up to 1500 findings of one kind at exact lines"),
    ]
