"""Blocks are transparent: what holds for a statement holds for it at any depth of any blocks."""
import re

from core import Case, Space
from props.C21 import CFG, STATEMENTS
from stmts import FORM

RULE = ("Every statement form in every nesting of 19 kinds of blocks and branches to depth 2 (3 thorough), in te files, interfaces and "
        "templates; every pair of forms in two branches of one block, or next to each other in one; every kind of declaration in every "
        "nesting to depth 3 (4 thorough) and its uses in other files; blocks of all kinds nested up to 200 deep.")
ASSUMPTIONS = ["the order of statements (C-001) is property C06's, whether a call needs an optional block (W-005) is property C09's "
               "inside optional blocks",
               "a require block in the first branch of an if (not legal policy) also counts for its else branch",
               "the comparison words of an ifelse are macro arguments for bare word findings (E-010)"]

# block kinds: lines before and after the statement; the inert statement I takes the other branches
I = "allow own_t self:file ioctl;"
W = {
    "optional": (["optional_policy(`"], ["')"]),
    "optional-first": (["optional_policy(`"], ["', `", I, "')"]),
    "optional-else": (["optional_policy(`", I, "',`"], ["')"]),
    "ifdef": (["ifdef(`b',`"], ["')"]),
    "ifdef-first": (["ifdef(`b',`"], ["',`", I, "')"]),
    "ifdef-else": (["ifdef(`b', `", I, "', `"], ["')"]),
    "ifdef-empty-else": (["ifdef(`b',`',`"], ["')"]),
    "ifndef": (["ifndef(`b',`"], ["')"]),
    "ifndef-else": (["ifndef(`b',`", I, "',`"], ["')"]),
    "tunable": (["tunable_policy(`b',`"], ["')"]),
    "tunable-else": (["tunable_policy(`b && !c', `", I, "', `"], ["')"]),
    "tunable-bare": (["tunable_policy(b,`"], ["',`", I, "')"]),
    "if": (["if (b) {"], ["}"]),
    "if-else": (["if (b && !c) {", I, "} else {"], ["}"]),
    "if-first": (["if (b == c) {"], ["}", "else", "{", I, "}"]),
    "ifelse": (["ifelse(`b',`c',`"], ["')"]),
    "ifelse-default": (["ifelse(`b', `c', `", I, "', `"], ["')"]),
    "ifelse-later": (["ifelse(`b',`c',`", I, "',`b',`d',`"], ["',`", I, "')"]),
    "debug": (["userdebug_or_eng(`"], ["')"]),
}
KINDS = sorted(W)
OPTIONAL = ("optional", "optional-first")

# violations of the checks that the forms leave out
STATEMENTS = STATEMENTS + [
    "allow own_t own_t:file { write read };", "allow own_t self:file { read read };", "allow own_t own_t:dir { getattr search open };", "allow own_t self:dir read_file_perms;",
    "allow own_t self:{ dir file } search_dir_perms;", "allow own_t self:file { getattr nosuch };", "allow own_t self:nosuchclass getattr;",
    "dontaudit own_t other_t:dir { getattr search open };", "other_none(own_t)", "other_tmpl(own)", "other_tmpl(new)\nallow new_x_t self:file read;", "other_call(other_call)", "type other_call;",
    "allow $1 own_t:file { write read };", "other_tmpl($1)", "type $1_t;"]
ENV = {"cfg": CFG, "o/access_vectors": "class file { read write open getattr append lock ioctl map execute }\nclass dir { search getattr open read }\nclass process { signal }\n",
       "o/obj_perm_sets.spt": "define(`read_file_perms',`{ getattr open read lock ioctl }')\ndefine(`search_dir_perms',`{ getattr search open }')\n",
       "o/modules.conf": "other = module\nuser = module\n",
       "o/other.te": "policy_module(other,1.0)\ntype other_t;\ntype second_t;\ntype third_t;\nattribute other_a;\nrole other_r;\n",
       "o/other.if": "## <summary>x</summary>\n## <summary>x</summary>\ninterface(`other_call',`\n\tallow $1 self:file read;\n')\n## <summary>x</summary>\ntemplate(`other_tmpl',`\n\ttype $1_x_t;\n')\n",
       # makes use of everything a statement may declare
       "o/user.te": "policy_module(user,1.0)\nrequire {\n\ttype new_t, n1_t;\n\tattribute new_a;\n\trole new_r;\n\tbool new_b;\n\tclass newc { a b };\n}\n"
                    "allow new_t n1_t:newc { a b };\nallow new_a self:file read;\nrole new_r types new_t;\nif (new_b) {\nallow new_t n2_t:file read;\n}\n"
                    "new_macro\nnew_macro(new_t)\nattribute_of(new_ra)\n",
       "o/user.if": "## <summary>x</summary>\n## <summary>x</summary>\ninterface(`user_call',`\n\tgen_require(`\n\t\ttype new_t;\n\t')\n\tallow $1 new_t:newc a;\n"
                    "\tallow $1 n1_t:newc b;\n')\n",
       "o/user.fc": "/a\t--\tgen_context(system_u:object_r:new_t,s0)\n/b\tgen_context(new_u:new_r:n1_t,s0)\n"}
HEAD = ["policy_module(m,1.0)", "type own_t, own2_t;", "attribute own_a;", "role own_r;"]
INNER = ["allow other_t own_t:file read;", "unknown_word"]
TAIL = ["allow third_t own_t:file { read };", "allow new_t own_t:file read;", "other_call(own_t)", "unknown_word2"]


def wrap(nest, lines, table=W):
    """lines with blocks around them and the number of lines before them"""
    n = 0
    for k in reversed(nest):
        o, e = table[k]
        lines = o + lines + e
        n += len(o)
    return lines, n


def nesting(c, depth, mindepth=1):
    return c.seq(KINDS, depth, mindepth)


def norm(rs, lines, skip=("C-001",)):
    """findings as comparable items, lines of the module's own file looked up in `lines`"""
    out = []
    for f, l, _, msg, i in rs.findings:
        if i in skip:
            continue
        if f.startswith("m."):
            if l not in lines:
                out.append((f, "line %d" % l, i, msg))
                continue
            l = lines[l]
        out.append((f, l, i, re.sub(r"line \d+", "line N", msg)))
    return sorted(out, key=repr)


def compare(name, before, mid, after, nest, inner=True, table=W, skip=("C-001",)):
    """a/: before mid after, b/: the same with mid in blocks"""
    body = mid + (INNER if inner else [])
    deep, n = wrap(nest, body, table)
    fa = before + body + after
    fb = before + deep + after
    nb = len(before)
    ma = {i + 1: i for i in range(len(fa))}
    mb = {i + 1: i for i in range(nb)}
    mb.update({nb + n + i + 1: nb + i for i in range(len(body))})
    mb.update({nb + len(deep) + i + 1: nb + len(body) + i for i in range(len(after))})
    files = dict(ENV)
    files["a/" + name] = "\n".join(fa) + "\n"
    files["b/" + name] = "\n".join(fb) + "\n"
    inside = range(nb, nb + len(body))

    def judge(rs):
        if rs[0].code or rs[1].code:
            return "exit status %d and %d: %s" % (rs[0].code, rs[1].code, (rs[0].err + rs[1].err + rs[1].out)[:160])
        a, b = norm(rs[0], ma, skip), norm(rs[1], mb, skip)
        if any(k in OPTIONAL for k in nest):
            # inside an optional block calls need no further one
            if any(x[2] == "W-005" and x[1] in inside and x[0] == name for x in b):
                return "call in an optional block reported: %s" % [x for x in b if x[2] == "W-005"]
            a = [x for x in a if not (x[2] == "W-005" and x[0] == name and x[1] in inside)]
        if any(k.startswith("ifelse") for k in nest):
            b = [x for x in b if not (x[2] == "E-010" and str(x[1]).startswith("line"))]
        if a != b:
            return ("findings differ: alone %s, in blocks %s" % ([x for x in a if x not in b][:4], [x for x in b if x not in a][:4]),
                    repr(sorted({x[2] for x in a if x not in b} | {x[2] for x in b if x not in a})))
        return None
    return Case(files, [["-c", "cfg", "-s", "-r", "o", d] for d in "ab"], judge, " ".join(nest))


def te(depth, kinds=KINDS, mindepth=1):
    def body(c):
        s = c.pick(STATEMENTS)
        nest = c.seq(kinds, depth, mindepth)
        return compare("m.te", HEAD, s.split("\n"), TAIL, nest)
    return body


def in_if(depth):
    def body(c):
        kind = c.pick(["interface", "template"])
        s = c.pick(STATEMENTS + [FORM[k] % "$1" for k in sorted(FORM)])
        nest = nesting(c, depth)
        req = c.flag()
        before = ["## <summary>x</summary>", "## <param name=\"a\">", "## <summary>x</summary>", "## </param>", kind + "(`m_x',`"]
        if req:
            before += ["gen_require(`", "type own_t, other_t;", "')"]
        return compare("m.if", before, s.split("\n"), ["')"], nest)
    return body


# blocks with room for two statements
TWO = {
    "optional": (["optional_policy(`"], ["', `"], ["')"]), "ifdef": (["ifdef(`b',`"], ["', `"], ["')"]), "ifndef": (["ifndef(`b',`"], ["',`"], ["')"]),
    "tunable": (["tunable_policy(`b',`"], ["', `"], ["')"]), "if": (["if (b) {"], ["} else {"], ["}"]), "ifelse": (["ifelse(`b',`c',`"], ["', `"], ["')"]),
    "ifelse-later": (["ifelse(`b',`c',`"], ["', `b', `d', `"], ["')"]), "two-blocks": (["ifdef(`b',`"], ["')", "ifndef(`b',`"], ["')"]),
}


def branches(kinds):
    def body(c):
        """the branches of a block do not change what holds for one another"""
        kind = c.pick(kinds)
        s1, s2 = c.pick(STATEMENTS), c.pick(STATEMENTS)
        if kind == "if" and "require" in s1:
            return None
        o, m, e = TWO[kind]
        maps, files = [], dict(ENV)
        for d, (x, y) in zip("abc", [(s1, I), (I, s2), (s1, s2)]):
            x, y = x.split("\n"), y.split("\n")
            lines = HEAD + o + x + m + y + e + TAIL
            files[d + "/m.te"] = "\n".join(lines) + "\n"
            mp, k = {}, 0
            for part, ls in (("head", HEAD), ("open", o), ("first", x), ("mid", m), ("second", y), ("close", e), ("tail", TAIL)):
                for j in range(len(ls)):
                    k += 1
                    mp[k] = (part, j)
            maps.append(mp)

        def judge(rs):
            if any(r.code for r in rs):
                return "exit status %s" % [r.code for r in rs]
            a, b, z = [norm(r, mp) for r, mp in zip(rs, maps)]

            def at(fs, part, there=True):
                return [x for x in fs if (x[1][0] == part if isinstance(x[1], tuple) else False) == there]
            for part, want in (("first", a), ("second", b)):
                w, g = at(want, part), at(z, part)
                if w != g:
                    return ("findings of the %s branch differ: with an inert other branch %s, with this one %s" % (
                        part, [x for x in w if x not in g][:3], [x for x in g if x not in w][:3]),
                        repr(sorted({x[2] for x in w if x not in g} | {x[2] for x in g if x not in w})))
            return None
        return Case(files, [["-c", "cfg", "-s", "-r", "o", d] for d in "abc"], judge, kind)
    return body


def together(kinds):
    def body(c):
        """two statements in one block"""
        s1, s2 = c.pick(STATEMENTS), c.pick(STATEMENTS)
        return compare("m.te", HEAD, (s1 + "\n" + s2).split("\n"), TAIL, [c.pick(kinds)], inner=False)
    return body


def declared(depth):
    def body(c):
        """declarations in blocks count for statements outside of them"""
        s = c.pick(STATEMENTS)
        return compare("m.te", HEAD[:1], HEAD[1:], s.split("\n") + TAIL, nesting(c, depth), inner=False)
    return body


def deep_(depths):
    def body(c):
        s = c.pick(STATEMENTS)
        k, n = c.pick(KINDS), c.pick(depths)
        return compare("m.te", HEAD, s.split("\n"), TAIL, [k] * n)
    return body


REQ = {"gen": (["gen_require(`"], ["')"]), "bare": (["gen_require("], [")"]), "require": (["require {"], ["}"])}
REQW = {"ifdef": (["ifdef(`b',`"], ["')"]), "ifndef": (["ifndef(`b',`"], ["')"]), "unquoted": (["ifdef(`b',"], [")"])}
REQUIRED = ["type other_t;", "type second_t, new_t;", "attribute other_a;", "role other_r;", "bool x;", "class file { read write };", "attribute_role ra;",
            "type $1_t;"]
USE = [FORM[k] % "other_t" for k in ("allow-source", "role_types-type", "type_transition-default", "call-2")] + [
    "allow second_t new_t:file read;", "allow other_a own_t:file write;", "role other_r types other_t;", "other_call(second_t)"]


def required(depth, count):
    def body(c):
        """what is required inside ifdefs of a require block is required"""
        where = c.pick(["te", "if", "template"])
        k = c.pick(sorted(REQ))
        names = c.seq(REQUIRED, count, 1)
        if where == "te" and REQUIRED[-1] in names:
            return None
        at = c.choose(len(names))
        nest = c.seq(sorted(REQW), depth, 1)
        use = c.pick(USE)
        o, e = REQ[k]
        if where == "te":
            before, after, name = HEAD + o, e + [use] + TAIL, "m.te"
        else:
            before = ["## <summary>x</summary>", "## <param name=\"a\">", "## <summary>x</summary>", "## </param>",
                      ("interface" if where == "if" else "template") + "(`m_x',`"] + o
            after, name = e + [use, "allow $1 self:file read;", "')"], "m.if"
        mid = names[at:at + 1]
        before, after = before + names[:at], names[at + 1:] + after
        return compare(name, before, mid, after, nest, inner=False, table=REQW, skip=("C-001", "C-006", "S-001"))
    return body


DISABLED = [("allow other_t own_t:file read;", "W-001"), ("type_transition own_t other_t:file own_t;", "W-001"), ("other_call(other_t)", "W-001"),
            ("other_call(own_t)", "W-005"), ("allow own_t own_t:file read;", "C-007"), ("allow own_t self:file { write read };", "C-005"),
            ("allow own_t self:file read;;", "S-003"), ("role own_r types other_t;", "W-001")]


def disabled(c):
    """a comment disables a check on its line, and nowhere else, at every depth"""
    s, i = c.pick(DISABLED)
    which = c.pick([i, "E-005", "E-005," + i, None])
    nest = nesting(c, 2)
    mid = [s + (" #selint-disable:" + which if which else ""), s]
    case = compare("m.te", HEAD, mid, TAIL, nest)
    judge = case.judge
    o, n = wrap(nest, [""])

    def both(rs):
        m = judge(rs)
        if m:
            return m
        got = [f[1] for f in rs[1].findings if f[0] == "m.te" and f[4] == i]
        line = len(HEAD) + n + 1
        lost = i == "W-005" and any(k in OPTIONAL for k in nest)
        if line + 1 not in got and not lost:
            return "%s not reported" % i
        if (line in got) != (which in ("E-005", None)) and not lost:
            return "%s with %s disabled: %s" % (i, which, got)
        return None
    case.judge = both
    return case


def spaces(tier):
    deep = tier == "thorough"
    few = ["debug", "if-else", "ifdef-empty-else", "ifelse-later", "ifndef", "optional", "optional-else", "tunable-else"]
    return [
        Space("te", te(3 if deep else 2), "%d statement forms x all nestings of depth 2 (3 thorough) of %d kinds of blocks and branches" % (len(STATEMENTS), len(KINDS))),
        Space("te-3", te(4 if deep else 3, few[::2] if deep else few, 3), "%d statement forms x all nestings of depth 3 of 8 (thorough: 4 of 4) kinds" % len(STATEMENTS)),
        Space("if", in_if(2 if deep else 1), "%d statement forms in interfaces and templates, with or without a require block, x all nestings of depth 1 (2 thorough)" % (len(STATEMENTS) + len(FORM))),
        Space("declared", declared(2), "every nesting of depth 2 around the declarations x %d statement forms outside" % len(STATEMENTS)),
        Space("deep", deep_([4, 16, 60, 200] if deep else [5, 60]), "%d kinds nested 5 and 60 (4, 16, 60, 200 thorough) times x all statement forms" % len(KINDS)),
        Space("branches", branches(sorted(TWO)), "all pairs of statement forms in the two branches of %d kinds of blocks" % len(TWO)),
        Space("together", together(KINDS if deep else ["debug", "if", "ifdef-else", "optional-else"]), "all pairs of statement forms in one block of 4 (thorough: all) kinds"),
        Space("required", required(3 if deep else 2, 2), "3 kinds of require blocks in te files, interfaces and templates x up to 2 of %d lines x nestings of depth 2 (3 thorough) of ifdef and ifndef around one x %d uses" % (len(REQUIRED), len(USE))),
        Space("disabled", disabled, "%d statements x 4 disable comments x all nestings of depth 2" % len(DISABLED)),
    ]
