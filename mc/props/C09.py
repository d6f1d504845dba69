"""Conventions and style of interfaces and blocks: C-004, C-006, S-004, S-005, S-008, E-009."""
import itertools

from core import Case, Space
from stmts import BLOCKS, emit, exact, only, tree, walk

RULE = ("Every sequence up to 6 of comments, blank lines and definitions; every permutation of the configured requirement "
        "order x every pair of flavours, sequences of 4 flavours, all pairs of 40 names; every forest of up to 4 (5 "
        "thorough) template calls, interface calls, declarations, requirements and nested blocks inside interfaces, "
        "templates and te files; every forest of up to 5 (6 thorough) comments, semicolons, statements and blocks for "
        "E-009.")
ASSUMPTIONS = ["names without double underscores (ssh_t and ssh__x compare as equal)",
               "a block's else branch and statements selint keeps no record of (genfscon, portcon ...) are not tested for "
               "E-009", "the order among conditional requirements inside a require block is not judged"]

DEFS = ["interface", "template"]


def comments(c):
    items = c.seq(["# c", "## <summary>", "", "interface", "template", "\t#", "interface-c"], 5, 1)
    if not any(i.startswith(("interface", "template")) for i in items):
        return None
    lines, exp, n = [], [], 0
    prev = None
    for it in items:
        if it.startswith(("interface", "template")):
            n += 1
            lines.append("%s(`own_%d',`" % (it.split("-")[0], n))
            if prev != "comment":
                exp.append(("own.if", len(lines), "C-004"))
            lines.append("\tallow $1 self:file a;" + (" # note" if it == "interface-c" else ""))
            if it == "interface-c":
                lines.append("\t# the last line of the interface")
            lines.append("')")
            prev = "def"
        else:
            lines.append(it)
            if it.strip():
                prev = "comment"
    return Case({"own.if": "\n".join(lines) + "\n"}, [only("C-004") + ["own.if"]], exact(exp))


def comment_bodies(c):
    """what stands in an interface does not matter for the next one"""
    body = c.pick([["optional_policy(`", "\tfoo($1)", "\t# c", "')"], ["# c", "allow $1 self:file a;"], [],
                   ["gen_require(`", "type a;", "# c", "')"], ["ifdef(`b',`", "# c", "', `", "foo($1)", "')"], ["foo($1)"],
                   ["define(`x')"], [";"], ["# c"], ["type x;"], ["typebounds $1 $2;"]])
    kinds = [c.pick(DEFS) for _ in range(2 + c.choose(2))]
    com = [c.flag() for _ in kinds]
    nl = c.choose(3)
    lines, exp = [], []
    for i, k in enumerate(kinds):
        if com[i]:
            lines.append("## <summary>")
        lines += [""] * nl
        lines.append("%s(`own_%d',`" % (k, i))
        if not com[i]:
            exp.append(("own.if", len(lines), "C-004"))
        lines += body + ["')"]
    more = {"own2.if": "interface(`own2_x',`')\n", "own.te": "policy_module(own,1.0)\ntype own_t;\n"}
    exp.append(("own2.if", 1, "C-004"))
    return Case(dict({"own.if": "\n".join(lines) + "\n"}, **more), [only("C-004") + ["own.if", "own2.if", "own.te"]],
                exact(exp))


# ---------------------------------------------------------------- C-006
FL = ["attribute", "attribute_role", "bool", "class", "role", "type"]
DEFAULT = ["bool", "class", "role", "attribute_role", "attribute", "type"]


def req(fl, name):
    return "class %s { a b };" % name if fl == "class" else "%s %s;" % (fl, name)


def key(name):
    return (name[:-1] + "_" if name.endswith("_t") and len(name) > 2 else name).encode()


def ordered(decls, order, same):
    """is a require block with these (flavour, name) in order?"""
    for (f1, n1), (f2, n2) in zip(decls, decls[1:]):
        if f1 != f2:
            if order.index(f1) > order.index(f2):
                return False
        elif same and key(n1) >= key(n2):
            return False
    return True


class Blocks:
    """many require blocks in one file, each judged on its own"""

    def __init__(self, order=DEFAULT, same=True, cfg=None, te=False):
        self.order, self.same, self.te = order, same, te
        self.cfg = cfg
        self.l = ["policy_module(own,1.0)", "type own_t;"] if te else ["# c", "interface(`own_i',`"]
        self.exp = []
        self.name = "own.te" if te else "own.if"

    def add(self, decls, form="gen_require"):
        o, e = {"gen_require": ("gen_require(`", "')"), "require": ("require {", "}"), "unquoted": ("gen_require(", ")")}[form]
        at = len(self.l) + 1
        self.l += [o] + ["\t" + req(f, n) for f, n in decls] + [e]
        if not ordered(decls, self.order, self.same):
            self.exp.append((self.name, at, "C-006"))
        return at

    def case(self):
        files = {self.name: "\n".join(self.l + ([] if self.te else ["')"])) + "\n"}
        argv = only("C-006")
        if self.cfg is not None:
            files["cfg"] = self.cfg
            argv += ["-c", "cfg"]
        return Case(files, [argv + [self.name]], exact(self.exp))


def config(order=None, same=None):
    t = ""
    if order:
        t += "ordering_requires = { %s }\n" % ", ".join(order)
    if same is not None:
        t += "ordering_requires_same_flavor = \"%s\"\n" % ("true" if same else "false")
    return t


def permutations(c):
    """every configured order x every pair of flavours"""
    order = c.perm(FL)
    same = c.pick([None, True, False])
    b = Blocks(order, same is not False, config(order, same))
    for f1, f2 in itertools.product(FL, FL):
        b.add([(f1, "aa"), (f2, "bb")])
        b.add([(f1, "bb"), (f2, "aa")])
    return b.case()


def flavour_sequences(n):
    def body(c):
        kind = c.pick(["none", "empty", "example", "no-same"])
        order, same, cfg = {
            "none": (DEFAULT, True, None), "empty": (DEFAULT, True, "# nothing\n"),
            "example": (["bool", "attribute", "attribute_role", "type", "class", "role"], True,
                        config(["bool", "attribute", "attribute_role", "type", "class", "role"])),
            "no-same": (DEFAULT, False, config(None, False))}[kind]
        te = c.flag()
        first = c.pick(FL)
        b = Blocks(order, same, cfg, te)
        for k in range(1, n):
            for rest in itertools.product(FL, repeat=k):
                fs = (first,) + rest
                b.add([(f, "n%d" % i) for i, f in enumerate(fs)], c.pick(["gen_require", "require", "unquoted"])
                      if k == 1 and rest[0] == "bool" else "require")
        return b.case()
    return body


NAMES = ["a", "b", "aa", "ab", "a_t", "a_exec_t", "a_var_t", "a_a", "a_z", "ssh", "ssh_t", "ssh_exec_t", "ssha_t", "ssh_tt",
         "ssh_t_x", "sshd_t", "ssh1_t", "ssh_1", "A", "A_t", "a_T", "Ssh_t", "z", "zz_t", "a1", "a10", "a2", "ab_t", "ab_r",
         "abc_t", "abc_r", "t", "tt", "at", "a_x_t", "a_x_u", "a_x_tu", "x_t", "x_tmp_t", "a-b", "a.b"]


def name_pairs(c):
    first = c.pick([x for x in NAMES if "." not in x])
    fl = c.pick(["type", "attribute", "role", "bool", "class", "attribute_role"])
    form = c.pick(["lines", "list"])
    if fl == "class" and form == "list":
        return None
    same = c.flag()
    b = Blocks(DEFAULT, same, config(None, same))
    for x in NAMES:
        if "." in x:
            continue
        if form == "lines":
            b.add([(fl, first), (fl, x)])
        else:
            at = len(b.l) + 1
            b.l += ["gen_require(`%s %s, %s;')" % (fl, first, x)]
            if not ordered([(fl, first), (fl, x)], b.order, b.same):
                b.exp.append((b.name, at, "C-006"))
    return b.case()


def name_sequences(c):
    """sequences of types; only neighbours of the same block are compared"""
    b = Blocks()
    first = c.pick(["aa_t", "bb_t", "aa", "aa_exec_t"])
    for k in (1, 2, 3):
        for rest in itertools.product(["aa_t", "bb_t", "aa", "aa_exec_t", "aaa_t"], repeat=k):
            b.add([("type", x) for x in (first,) + rest])
            if k < 3:
                b.add([("bool", "zz"), ("class", "yy")] + [("type", x) for x in (first,) + rest])
                b.add([("role", "r_r")] + [("type", x) for x in (first,) + rest])
    return b.case()


def conditional(c):
    """conditional requirements are no part of the order of the others"""
    b = Blocks()
    first = c.pick(["aa_t", "bb_t", "cc_t", "if", "ifn"])
    form = c.pick(["gen_require", "require", "unquoted"])
    inner = c.pick([["aa_t"], ["bb_t"], ["zz_t"], ["aa_t", "bb_t"]])
    for k in (1, 2, 3):
        for rest in itertools.product(["aa_t", "bb_t", "cc_t", "if", "ifn"], repeat=k):
            seq = (first,) + rest
            at = b.add([("type", x) for x in seq if not x.startswith("if")], form)
            lines = []
            for x in seq:
                lines += ["\t" + req("type", x)] if not x.startswith("if") else [
                    "\tif%sdef(`x',`" % ("n" if x == "ifn" else "")] + ["\t\t" + req("type", y) for y in inner] + ["\t')"]
            b.l[at:-1] = lines
    return b.case()


def long_requires(c):
    n = c.pick([2, 3, 31, 64, 129, 300])
    swap = c.pick(["none", "first", "middle", "last", "repeat-first", "repeat-last", "ends"])
    names = ["n%03d_t" % i for i in range(n)]
    i = {"first": 0, "middle": (n - 1) // 2, "last": n - 2}.get(swap)
    if i is not None:
        names[i], names[i + 1] = names[i + 1], names[i]
    elif swap == "repeat-first":
        names.insert(0, names[0])
    elif swap == "repeat-last":
        names.append(names[-1])
    elif swap == "ends":
        names[0], names[-1] = names[-1], names[0]
    b = Blocks()
    form = c.pick(["lines", "list", "mixed"])
    at = len(b.l) + 1
    if form == "lines":
        b.add([("type", x) for x in names])
    else:
        t = "type %s;" % ", ".join(names)
        if form == "mixed":
            t = "\n\t".join("type %s;" % ", ".join(names[j:j + 3]) for j in range(0, len(names), 3))
        b.l += ("gen_require(`\n\t%s\n')" % t).split("\n")
        if swap != "none":
            b.exp.append((b.name, at, "C-006"))
    return b.case()


# ---------------------------------------------------------------- S-004, S-005, S-008
ENVIF = """# c
interface(`oth_if',`
	allow $1 self:file a;
')
# c
template(`oth_tmpl',`
	allow $1 self:file a;
')
# c
template(`oth_tmpl2',`
	type $1_t2;
')
"""
DECLS = ["type %s;", "type %s, at;", "type %s alias %s_al;", "attribute %s;", "role %s;", "attribute_role %s;", "bool %s;",
         "gen_bool(%s, true)", "gen_tunable(`%s', false)", "gen_tunable(%s, false)", "class %s { a b };"]
S_LEAF = {"T": ["oth_tmpl($1)"], "I": ["oth_if($1)"], "D": ["type new_t;"], "F": ["allow $1 self:file a;"],
          "R": ["gen_require(`", "\ttype r_t;", "')"], "Q": ["gen_require(", "\ttype r_t;", ")"]}


def style(size, depth, blocks, two, leaves):
    def body(c):
        f = tree(c, leaves, blocks, size, depth, two)
        nodes = list(walk(f))
        where = c.pick(["interface", "template", "te"])
        lines = {"interface": ["# c", "interface(`own_i',`"], "template": ["# c", "template(`own_i',`"],
                 "te": ["policy_module(own,1.0)", "type own_t;"]}[where]
        emit(f, lambda n: S_LEAF[n.kind] if where != "te" else [l.replace("$1", "own_t") for l in S_LEAF[n.kind]], lines)
        if where != "te":
            lines += ["')"]
        name = "own.te" if where == "te" else "own.if"
        exp = []
        for n in nodes:
            if n.kind == "Q":
                exp.append((name, n.line, "S-008"))
            if where == "interface" and n.kind == "T":
                exp.append((name, n.line, "S-004"))
            if where == "interface" and n.kind == "D":
                exp.append((name, n.line, "S-005"))
        lines2 = ["# c", "interface(`z_i',`", "oth_tmpl2(x)", "')"]
        exp.append(("z.if", 3, "S-004"))
        return Case({name: "\n".join(lines) + "\n", "oth.if": ENVIF, "z.if": "\n".join(lines2) + "\n"},
                    [only("S-004", "S-005", "S-008") + [name, "oth.if", "z.if"]], exact(exp))
    return body


def declared_forms(c):
    """every declaration form x place"""
    d = c.pick(DECLS).replace("%s", "new_x")
    place = c.pick(["interface", "template", "require", "gen_require", "te", "optional", "tunable", "ifelse", "cond-require"])
    lines = ["# c", "%s(`own_i',`" % ("template" if place == "template" else "interface")]
    exp = []
    if place in ("require", "gen_require", "cond-require"):
        if "(" in d or "alias" in d or ", at" in d:
            return None
        lines += {"require": ["require {", d, "}"], "gen_require": ["gen_require(`", d, "')"],
                  "cond-require": ["gen_require(`", "ifdef(`b',`", d, "')", "')"]}[place]
    elif place in BLOCKS:
        lines += BLOCKS[place][0] + [d] + BLOCKS[place][2]
        exp.append(("own.if", 4, "S-005"))
    else:
        lines.append(d)
        if place == "interface":
            exp.append(("own.if", 3, "S-005"))
    lines += ["allow $1 self:file a;", "')"]
    files = {"own.if": "\n".join(lines) + "\n"}
    if place == "te":
        files["own.te"] = "policy_module(own,1.0)\n%s\n" % d
        files["own.if"] = "# c\ninterface(`own_i',`\nallow $1 self:file a;\n')\n"
        exp = []
    return Case(files, [only("S-005") + sorted(files)], exact(exp))


def called_templates(c):
    """where the template is defined does not matter"""
    where = c.pick(["same-before", "same-after", "file-before", "file-after", "context", "interface-same-name", "nowhere"])
    args = c.pick(["($1)", "()", "($1, $2)", "(`a b')", "({ a b })"])
    name = c.pick(["t", "own_t", "own_template", "x" * 80])
    tm = "# c\ntemplate(`%s',`\n\tallow $1 self:file a;\n')\n" % name
    call = "# c\ninterface(`own_i',`\n\t%s%s\n')\n" % (name, args)
    files = {"own.if": call}
    order = ["own.if"]
    argv = only("S-004")
    bad = where not in ("nowhere", "interface-same-name")
    at = 3
    if where == "same-before":
        files["own.if"] = tm + call
        at = 7
    elif where == "same-after":
        files["own.if"] = call + tm
    elif where == "file-before":
        files["aa.if"] = tm
        order = ["aa.if", "own.if"]
    elif where == "file-after":
        files["zz.if"] = tm
        order = ["own.if", "zz.if"]
    elif where == "context":
        files["ctx/zz.if"] = tm
        argv = argv[1:] + ["--context=ctx"]
    elif where == "interface-same-name":
        files["zz.if"] = tm.replace("template(", "interface(")
        order = ["own.if", "zz.if"]
    return Case(files, [argv + order], exact([("own.if", at, "S-004")] if bad else []))


# ---------------------------------------------------------------- E-009
E_LEAF = {"c": ["# note"], "s": [";"], "x": ["allow $1 self:file a;"], "o": ["optional_policy(`", "')"],
          "r": ["require {", "# note", "}"], "g": ["gen_require(`", "# one", "# two", "')"], "u": ["gen_require(", "# one", ")"],
          "R": ["require {", "# note", "type a;", "}"], "G": ["gen_require(`class file a;')"],
          "i": ["ifdef(`b',`')"]}


def content(n):
    """does the node count as a statement of the block it is in?"""
    if n.branches is None:
        return n.kind not in ("c", "s")
    if n.kind == "debug":
        return any(content(x) for b in n.branches for x in b)
    return True


def empty(size, depth, blocks, two, leaves):
    def body(c):
        f = tree(c, leaves, blocks, size, depth, two)
        nodes = list(walk(f))
        if not any(n.kind in ("optional", "o", "r", "g", "u", "R", "G") for n in nodes):
            return None
        te = c.flag()
        lines = ["policy_module(own,1.0)", "type own_t;"] if te else ["# c", "interface(`own_i',`"]
        emit(f, lambda n: E_LEAF[n.kind] if not te else [l.replace("$1", "own_t") for l in E_LEAF[n.kind]], lines)
        name = "own.te" if te else "own.if"
        if not te:
            lines += ["')"]
        exp = []
        for n in nodes:
            if n.kind in ("o", "r", "g", "u"):
                exp.append((name, n.line, "E-009"))
            if n.kind == "optional" and not any(content(x) for x in n.branches[0]):
                exp.append((name, n.line, "E-009"))
        return Case({name: "\n".join(lines) + "\n"}, [only("E-009") + [name]], exact(exp))
    return body


STATEMENTS = ["allow own_t own_t:file a;", "type x_t;", "attribute a;", "role r;", "typeattribute own_t a;", "bool b;",
              "roleattribute r a;", "typealias own_t alias b;", "allowxperm own_t self:file ioctl 1;", "allow r_r s_r;",
              "role r types own_t;", "type_transition own_t own_t:file own_t;", "range_transition own_t own_t:process s0;",
              "role_transition r own_t s;", "call(own_t)", "call()", "require { type a; }", "gen_require(`type a;')", "word",
              "ifdef(`b',`')", "ifelse(`b',`c',`')", "tunable_policy(`b',`call(own_t)')", "if (b) { call(own_t) }",
              "define(`x',`y')", "permissive own_t;", "typebounds own_t own_t;", "gen_bool(b, true)",
              "gen_tunable(`b', true)", "optional_policy(`call(own_t)')", "userdebug_or_eng(`call(own_t)')",
              "neverallow own_t self:file a;", "class c { a };"]


def statements(c):
    """every statement kind makes a block non-empty, at every position among comments and semicolons"""
    s = c.pick(STATEMENTS)
    pre = c.seq(["# c", ";"], 2)
    post = c.seq(["# c", ";"], 2)
    te = c.flag()
    n = c.pick([1, 2, 9])
    lines = ["policy_module(own,1.0)", "type own_t;"] if te else ["# c", "interface(`own_i',`"]
    exp = []
    name = "own.te" if te else "own.if"
    for k in range(n):
        lines += ["optional_policy(`"] + pre + [s] + post + ["')"]
        exp.append((name, len(lines) + 1, "E-009"))
        lines += ["optional_policy(`"] + pre + post + ["')"]
    if not te:
        lines += ["')"]
    return Case({name: "\n".join(lines) + "\n"}, [only("E-009") + [name]], exact(exp))


def spaces(tier):
    deep = tier == "thorough"
    every = ["optional", "ifdef", "tunable", "bool", "ifelse", "debug"]
    two = ("optional", "ifdef", "tunable", "ifelse", "bool")
    return [
        Space("comments", comments, "all sequences up to 5 of comments, blank lines and definitions"),
        Space("comment-bodies", comment_bodies, "11 bodies x 2-3 definitions x comments x blank lines"),
        Space("order-permutations", permutations, "720 configured orders x 3 same-flavour settings x 72 pairs each"),
        Space("order-flavours", flavour_sequences(5 if deep else 4), "4 configurations x all sequences of 2-4 flavours (5 thorough)"),
        Space("order-names", name_pairs, "40 x 40 names x 6 flavours x 2 forms x same-flavour setting"),
        Space("order-sequences", name_sequences, "all sequences of 2-4 of 5 names"),
        Space("conditional", conditional, "sequences of up to 4 requirements and ifdefs with 1-2 requirements x 4 contents x 3 kinds of block"),
        Space("order-long", long_requires, "6 lengths to 300 x 7 disorders x 3 forms"),
        Space("style", style(4 if deep else 3, 2, every, two, ["T", "I", "D", "F", "R", "Q"]),
              "all forests of up to 3 (4 thorough) of 6 leaves and 6 blocks, depth 2 x interface/template/te"),
        Space("style-deep", style(6 if deep else 5, 3, ["optional", "ifdef"], (), ["T", "D", "Q"]),
              "all forests of up to 5 (6 thorough) of 3 leaves and 2 blocks, depth 3"),
        Space("declarations", declared_forms, "11 declaration forms x 9 places"),
        Space("templates", called_templates, "7 places of the template x 5 argument lists x 4 names"),
        Space("empty", empty(4 if deep else 3, 2, every, two, list(E_LEAF)),
              "all forests of up to 3 (4 thorough) of 10 leaves and 6 blocks, depth 2"),
        Space("empty-deep", empty(7 if deep else 6, 3, ["optional"], ("optional",), ["c", "s", "x"]),
              "all forests of up to 6 (7 thorough) comments, semicolons, statements and optional blocks, depth 3"),
        Space("empty-statements", statements, "32 statement kinds x comments and semicolons around x numbers of blocks"),
    ]
