"""The language of policy files: exactly the files of that language are accepted, errors are reported where they are."""
import re

from core import Case, Space
import syntax
import fixture as F
from props.C21 import STATEMENTS

RULE = ("Every statement form with every token deleted, swapped, replaced by and preceded by every other token, or the file ending "
        "there; the same for interface, permission macro and class files; all short token sequences; all short texts over 34 characters; "
        "each against a general parser for the grammar in mc/syntax.py.")
ASSUMPTIONS = ["the grammar in mc/syntax.py is the intended one: it was checked by hand against the statements of the reference policy"]

TEXT = {"VERSION": "1.0", "NUMBER": "7", "STRING": "a_t", "NUMSTRING": "0x1", "IPV4": "1.2.3.4", "IPV6": "::1", "QUOTED": '"q"', "KIND": "-d ",
        "COMMAND": "#selint-disable:W-999", "COMMENT": "# c", "UNKNOWN": "%"}
T = [t for t in syntax.TERMINALS] + ["UNKNOWN"]
CFG = "assume_users = { system_u }\nassume_roles = { object_r }\n"
OTHER = {"cfg": CFG, "other.te": "policy_module(other,1.0)\nunknown_word\n", "other.fc": "broken\n"}


def kinds(text):
    return [x[0] for x in syntax.lex(text)]


def check(text, kind="te", name=None):
    """one file of the kind against the model"""
    lexed = syntax.lex(text)
    terms = [x[0] for x in lexed]
    bad = syntax.first_error(kind, terms)
    name = name or "m." + kind
    f = dict(OTHER)
    f[name] = text
    lines = [x[1] for x in lexed] + [text.count("\n") + 1]

    def judge(rs):
        r = rs[0]
        f001 = [x for x in r.findings if x[4] == "F-001"]
        if bad is None:
            if r.code != 0 or f001:
                return "rejected: exit status %d, %s" % (r.code, f001[:1])
            return None if ("other.te", 2, "E-010") in r.locs() else "findings in another file lost"
        if r.code != 70:
            return "accepted, expected a syntax error at line %d (%s); exit status %d" % (
                lines[bad], "kind of file" if bad < 0 else terms[bad] if bad < len(terms) else "end", r.code)
        if len(f001) != len(r.findings) or r.summary is not None:
            return "findings in spite of a syntax error"
        if not f001 or any(x[0] != name or x[2] != "F" for x in f001):
            return "error not reported for the file: %s" % f001
        if bad == -1:
            return None
        if any(x[1] > lines[bad] for x in f001) or all(x[1] != lines[bad] for x in f001) and not (
                bad == len(terms) and any(x[1] == lines[bad - 1] for x in f001)):
            # an access vector rule that ends early is an error of the whole statement
            if not any("Incomplete AV rule" in x[3] for x in f001):
                return "error at line %s, expected %d" % ([x[1] for x in f001], lines[bad])
        return quoted(r.out, text, lexed[bad] if bad < len(lexed) else None)
    return Case(f, [["-c", "cfg", "-s", "-r", "."]], judge)


def quoted(out, text, token):
    """the lines quoted with an error are those of the file, and the mark is under the offending token"""
    src = text.split("\n")
    lines = out.split("\n")
    marked = token is None
    for i, l in enumerate(lines):
        m = re.match(r" +(\d+) \|(?: (.*))?$", l)
        if not m or l.endswith("...  [truncated]"):
            continue
        n = int(m.group(1))
        have = src[n - 1].rstrip() if n <= len(src) else ""
        if n == len(src) and not m.group(2):
            continue  # a last line without newline is not always quoted
        odd = re.search(r"[^\x20-\x7e\s]", have)
        if odd:
            return None if (m.group(2) or "") == have[:odd.start()].replace("\t", "    ") + "!" else "line %d is quoted as '%s'" % (n, m.group(2))
        if (m.group(2) or "").replace("\r", "") != have.replace("\t", "    ").replace("\r", ""):
            return "line %d is quoted as '%s'" % (n, m.group(2))
        if not marked:
            marked = True
            _, at, col, tok = token
            want = "      | " + " " * len(have[:col].replace("\t", "    ")) + "^" + "~" * (len(tok) - 1)
            if n == at > 1 and "\t" not in have and lines[i + 1] != want:
                return "token '%s' is marked as '%s'" % (tok, lines[i + 1])
    return None


def write(terms):
    """every token on a line of its own, so that lines identify tokens"""
    return "".join(TEXT.get(t, t) + "\n" for t in terms)


HEAD = kinds("policy_module(m,1.0)")
BIG = "# c\npolicy_module(m, 1.0) #selint-disable:W-999\n# c\n"
FORMS = []
for _s in STATEMENTS + ["tunable_policy(x,`\nf(a)\n')", "gen_require(\ntype a;\n)", "gen_require(`\nifdef(`x',`\ntype a;\n')\nifndef(`x',\nrole a;\n)\n')",
                        "define(`x',`a b ; { } : - . , ( )')", "define(x,y)", "refpolicywarn(`a is `b'')", "ifdef(`x',a,`')", "ifelse(a,`b',,`c;\n')",
                        "allow a b:c d; #selint-disable:W-001", "optional_policy(` #selint-disable:W-001\na(b)\n',`\nc\n')", "f(0x1, ~{ a 7 }, `a b', `', \"q\")",
                        "require { #selint-disable:W-001\nclass a { b c };\nattribute_role x, y;\n}", "role_transition a b:c d;", "sid a u:r:t:s0.x:c0.c1 - s1:c2",
                        "portcon tcp 1 - 2 u:r:t", "genfscon 9p / u:r:t", "portcon tcp 1-2 gen_context(u:r:t, s0 - s1, x)", "if ( #selint-disable:W-001\na ^ b != c) {\n;\n}",
                        "gen_user(u, p, { a b }, s0, s0:c0.c1 - s1, c0)" if False else "gen_user(u, p, a b, s0, s0:c0.c1 - s1, c0)"]:
    _k = kinds(_s)
    if _k not in FORMS:
        FORMS.append(_k)


def edited(c, terms, alphabet):
    """one edit of a token sequence"""
    how = c.pick(["none", "delete", "swap", "end", "replace", "insert", "repeat"])
    if how == "none":
        return terms
    i = c.choose(len(terms) + (how == "insert"))
    t = list(terms)
    if how == "delete":
        del t[i]
    elif how == "swap":
        if i + 1 >= len(t) or t[i] == t[i + 1]:
            return None
        t[i], t[i + 1] = t[i + 1], t[i]
    elif how == "end":
        t = t[:i]
    elif how == "repeat":
        t.insert(i, t[i])
    else:
        x = c.pick(alphabet)
        if how == "insert":
            t.insert(i, x)
        elif t[i] == x:
            return None
        else:
            t[i] = x
    return t


NAMES = [t for t in T if t.isupper() or not t.isalpha() and "_" not in t] + ["type", "allow", "class", "require", "gen_context", "else", "alias", "types", "define",
                                                                              "interface", "ifdef", "optional_policy", "self"][:-1]


def forms(alphabet):
    def body(c):
        form = c.pick(FORMS)
        t = edited(c, form, alphabet)
        if t is None:
            return None
        # what follows must be seen as well: a type declaration
        return check(write(HEAD + t + ["type", "STRING", ";"]))
    return body


def last(c):
    """the edited form at the end of the file"""
    form = c.pick(FORMS)
    t = edited(c, form, ["STRING", ";", "}", ")", "'", "COMMENT", "COMMAND"])
    return check(write(HEAD + t)) if t else None


def double(c):
    form = c.pick(FORMS)
    t = edited(c, form, ["STRING", ";", ",", "`"])
    t = t and edited(c, t, ["STRING", ";", ",", "'"])
    return check(write(HEAD + t + ["type", "STRING", ";"])) if t else None


def nested(c):
    """the edited form inside an interface or a block"""
    form = c.pick(FORMS)
    o, e, kind = c.pick([("interface(`m_a',`", "')", "if"), ("template(`m_a',` #selint-disable:W-999", "')", "if"), ("optional_policy(`", "')", "te"),
                         ("if (a) {", "}", "te"), ("ifdef(`a',`", "')", "te"), ("ifelse(`a',`b',`", "')", "te"), ("tunable_policy(`a',`\n','`", "')", "te"),
                         ("userdebug_or_eng(`", "')", "te"), ("require {", "}", "te"), ("gen_require(`", "')", "te"), ("define(`a',`", "')", "te")])
    t = edited(c, form, ["STRING", ";", "'", "COMMENT"])
    if t is None:
        return None
    return check(write((HEAD if kind == "te" else []) + kinds(o) + t + kinds(e) + (["COMMENT"] if kind == "if" else ["type", "STRING", ";"])), kind)


SMALL = {
    "te": [BIG + "type a;\n", "module m 1.0;\n;\n", "# x\n# y\npolicy_module(m,7)\n"],
    "if": ["interface(`a',`\nallow a b:c d;\n')\n# c\ntemplate(`b_c',` #selint-disable:W-999\n')\n", "# c\n# d\ninterface(`a',`\n')\n# c\n# d\n"],
    "spt": ["define(`a_perms',`{ a b }')\n# c\ndefine(`b',`{ a } refpolicywarn(`a is b')')\n", "define(`a_perms',`a')\ndefine(`b_perms',`~{ a b -c }')\n# c\n",
            "# c\ndefine(`x',`{ a } refpolicywarn(`a')')\n"],
    "av": ["class a { b c # c\n}\n# c\nclass b inherits a\ncommon c { d }\nclass d inherits c { e f }\n", "common c { # c\nd }\nclass a inherits c\n", "# c\nclass a { b }\n"],
}
SUPPORT = {"spt": "obj_perm_sets.spt", "av": "access_vectors"}


def whole(kind, alphabet, n=1):
    """small complete files with one or two edits"""
    def body(c):
        t = kinds(c.pick(SMALL[kind]))
        for _ in range(n):
            t = t and edited(c, t, alphabet)
        if t is None:
            return None
        return check(write(t), kind) if kind not in SUPPORT else support(kind, write(t))
    return body


def support(kind, text):
    """a support file that does not parse must not pass for one that does"""
    terms = kinds(text)
    bad = syntax.first_error(kind, terms)
    f = dict(OTHER)
    f[SUPPORT[kind]] = text
    lines = [x[1] for x in syntax.lex(text)] + [text.count("\n") + 1]

    def judge(rs):
        r = rs[0]
        f001 = [x for x in r.findings if x[4] == "F-001"]
        if bad is None:
            return None if r.code == 0 and not f001 and ("other.te", 2, "E-010") in r.locs() else "rejected: %s" % f001
        if not f001:
            return "accepted, expected a syntax error at line %d" % lines[bad]
        if any(x[0] != SUPPORT[kind] for x in f001):
            return "error reported for %s" % f001
        return None
    return Case(f, [["-c", "cfg", "-s", "-r", "."]], judge)


def sequences(alphabet, n, prefix="policy_module(m,1.0)", suffix="", kind="te"):
    def body(c):
        return check(write(kinds(prefix) + list(c.seq(alphabet, n, 0)) + kinds(suffix)), kind)
    return body


CHARS = "a 1$/*-.:;,(){}~!&|^=\"'`#\n_@%\\\t\r<é"
PLACES = ["policy_module(m,1.0)\ntype %s;\ntype z;\n", "policy_module(m,1.0)\nallow a b:c { %s };\n", "policy_module(m,1.0)\nf(%s)\ng(a)\n",
          "policy_module(m,1.0)\n%s", "%s", "policy_module(m%s,1.0)\n", "policy_module(m,1.0)\nportcon tcp %s u:r:t\n"]


def chars(n):
    def body(c):
        p = c.pick(PLACES)
        x = "".join(c.seq(CHARS, n, 1))
        return check(p % x)
    return body


LEXEMES = [
    ("te", "policy_module(m,1.0)\ntype_transition a b:c d %s;\ntype z;\n", '"a.b-c:d~e$1_F9"'), ("te", "policy_module(m,1.0)\nf(%s)\ntype z;\n", '"aZ"'),
    ("te", "policy_module(m,1.0)\nf(a, %s)\ntype z;\n", "a_Z-9*/$b"), ("te", "policy_module(m,%s)\ntype z;\n", "12.34.56"),
    ("te", "policy_module(m,1.0)\ntype %s;\ntype z;\n", "$1_t"), ("te", "policy_module(m,1.0)\nallow %s b:c { d };\ntype z;\n", "-a9_t"),
    ("te", "policy_module(m,1.0)\nallowxperm a b:c ioctl { %s };\ntype z;\n", "0x12-0xFf"), ("te", "policy_module(m,1.0)\nportcon tcp %s u:r:t\ntype z;\n", "80-90"),
    ("te", "policy_module(m,1.0)\nnodecon %s 255.255.0.0 u:r:t\ntype z;\n", "1.22.133.4"), ("te", "policy_module(m,1.0)\nnodecon %s ffff:: u:r:t\ntype z;\n", "aF:0::9b"),
    ("te", "policy_module(m,1.0)\ngenfscon nfs %s u:r:t:s0\ntype z;\n", "/a/b-c_1"), ("te", "policy_module(m,1.0)\ngenfscon nfs / %s u:r:t:s0\ntype z;\n", "-d"),
    ("te", "policy_module(m,1.0)\nrange_transition a b:c %s;\ntype z;\n", "s0:c0.c9 - s1"), ("te", "policy_module(m,1.0)\nif (%s) { ; }\ntype z;\n", "a&&!b||c^d==e!=f"),
    ("te", "policy_module(m,1.0)\ntype a; %s\ntype z;\n", "#selint-disable: C-001, W-002"), ("te", "policy_module(m,1.0)\n%s\ntype z;\n", "dnl type b"),
    ("te", "policy_module(m,1.0)\nallow a b:c %s;\ntype z;\n", "~{ d *}"), ("if", "interface(%s,`\n')\n", "`a_b9'"), ("spt", "define(%s,`{ a }')\n", "`a_b9'"),
    ("av", "class %s { a }\n", "a_9"), ("te", "%s(m,1.0)\ntype z;\n", "policy_module"), ("te", "policy_module(m,1.0)\n%s(`\n;\n')\ntype z;\n", "optional_policy"),
    ("te", "policy_module(m,1.0)\n%s a b:c d;\ntype z;\n", "neverallowxperm"),
]
ALLCHARS = [chr(i) for i in range(9, 127) if i not in (11, 12) and (i > 31 or i in (9, 10, 13))] + ["\x01", "\x7f", "\x0b", "\x0c"]


def lexemes(c):
    """every character put into or in place of every character of every kind of token"""
    kind, place, text = c.pick(LEXEMES)
    i = c.choose(len(text) + 1)
    how = c.pick(["insert", "replace"] if i < len(text) else ["insert"])
    x = c.pick(ALLCHARS + [""])
    if x == "" and how == "insert":
        return None
    new = place % (text[:i] + x + text[i + (how == "replace"):])
    return support(kind, new) if kind in ("spt", "av") else check(new, kind)


WORDS = ["dnl", "dnlx", "dnl x", "dnl-x", "dnl_x", "dnl9", "dnl/x", "dnl(x", "dnl\tx", "dnldnl", "Dnl", "xdnl", "dn", "self", "types", "type1", "type_", "alias-x", "-d", "--", "-d ", "-d\t", "- d", "1.2.3", "1.2.3.4", "1.2.3.4.5", "1..2", "::", ":::",
         "a::", "::a", "ab:cd:ef", "s0:c0", "01", "0x1f", "1-2", "1 - 2", '""', '"a b"', '"a', "'", "`", "`'", "``", "$1", "$1_t", "$", "$*", "a$1b", "/", "/a/b", "//", "a*", "*",
         "&&", "&", "||", "|", "!=", "=", "==", "#", "#x", "#selint-disable:W-001", "#selint-disable: W-001, E-002", "#selint-disable:W-001 x", "#selint-disable:", "\n", "\r\n", "é", "\\"]


def words(c):
    p = c.pick(PLACES)
    a, b = c.pick(WORDS), c.pick([""] + WORDS)
    return check(p % (a + c.pick(["", " ", "\n"] if b else [""]) + b))


def pairs(c):
    """two files, one or both of which are broken: every error is reported for the right one, whichever order"""
    broken = {"te": "policy_module(m,1.0)\n\ntype a\ntype b;\n", "if": "interface(`a',`\n\n\n", "ok-te": "policy_module(m,1.0)\n;\n", "ok-if": "# c\ninterface(`a',`\n')\n"}
    a, b = c.pick(sorted(broken)), c.pick(sorted(broken))
    rev = c.flag()
    where = c.pick(["both", "context-first", "context-second"])
    na, nb = "x/aa." + a[-2:], "y/bb." + b[-2:]
    f = dict(OTHER)
    f[na], f[nb] = broken[a], broken[b]
    argv = {"both": ["x", "y"], "context-first": ["--context=x", "y"], "context-second": ["--context=y", "x"]}[where]
    if rev:
        argv.reverse()
    bad = [n.split("/")[1] for n, k in ((na, a), (nb, b)) if not k.startswith("ok")]

    def judge(rs):
        r = rs[0]
        if not bad:
            return None if r.code == 0 else "exit status %d" % r.code
        if r.code != 70 or not r.findings or r.summary is not None:
            return "exit status %d with a broken file" % r.code
        if any(x[4] != "F-001" or x[0] not in bad for x in r.findings):
            return "findings %s, broken %s" % (r.findings, bad)
        return None
    return Case(f, [["-c", "cfg", "-s", "-r"] + argv], judge)


def spaces(tier):
    deep = tier == "thorough"
    few = ["STRING", ";", ",", ":", "{", "}", "(", ")", "`", "'", "-", "~", "*", "COMMENT", "allow", "type"]
    tops = ["STRING", ";", "COMMENT", "COMMAND", "(", ")", ",", "`", "'", "type", "{", "}"]
    return [
        Space("forms", forms(T if deep else NAMES), "%d statement forms x every edit with %d tokens (all %d thorough)" % (len(FORMS), len(NAMES), len(T))),
        Space("forms-last", last, "%d forms x every edit with 7 tokens, at the end of the file" % len(FORMS)),
        Space("nested", nested, "%d forms in 11 blocks x every edit with 4 tokens" % len(FORMS)),
        Space("te-files", whole("te", T), "3 small te files x every edit with %d tokens" % len(T)),
        Space("if-files", whole("if", T), "2 small if files x every edit with %d tokens" % len(T)),
        Space("if-files-2", whole("if", ["STRING", "'", "COMMENT"], 2), "2 small if files x every two edits with 3 tokens"),
        Space("permission-macros", whole("spt", T), "3 small permission macro files x every edit"),
        Space("classes", whole("av", T), "3 small class files x every edit"),
        Space("statements-2", sequences(T, 2), "all sequences of up to 2 of %d tokens behind the header" % len(T)),
        Space("statements-4", sequences(few[:13], 4 if deep else 3, "policy_module(m,1.0) allow"), "all sequences of up to 3 (4 thorough) of 13 tokens behind 'allow'"),
        Space("statements-3", sequences(few, 4 if deep else 3), "all sequences of up to 3 (4 thorough) of 16 tokens behind the header"),
        Space("lists", sequences(few[:13], 4 if deep else 3, "policy_module(m,1.0) allow a b : c", "; type a;"), "all permission sets of up to 3 (4 thorough) of 13 tokens"),
        Space("arguments", sequences(few[:13] + ["NUMBER", "QUOTED"], 4 if deep else 3, "policy_module(m,1.0) f(", ") type a;"),
              "all argument lists of up to 3 (4 thorough) of 15 tokens"),
        Space("conditions", sequences(["STRING", "!", "&&", "==", "(", ")", "^", "COMMAND"], 5 if deep else 4, "policy_module(m,1.0) if (", ") { ; } else { ; }"),
              "all conditions of up to 4 (5 thorough) of 8 tokens"),
        Space("if-tops", sequences(tops, 4 if deep else 3, "interface(`a',`')", "", "if"), "all sequences of up to 3 (4 thorough) of 12 tokens behind an interface"),
        Space("if-heads", sequences(tops + ["interface"], 4 if deep else 3, "", "", "if"), "all beginnings of up to 3 (4 thorough) of 13 tokens"),
        Space("te-heads", sequences(tops + ["module", "VERSION", "policy_module"], 4 if deep else 3), "all beginnings of up to 3 (4 thorough) of 15 tokens"),
        Space("characters", chars(3 if deep else 2), "all texts of up to 2 (3 thorough) of 34 characters in 7 places"),
        Space("lexemes", lexemes, "every character inserted and replaced at every place of %d tokens" % len(LEXEMES)),
        Space("words", words, "all pairs of %d words, joined or apart, in 7 places" % len(WORDS)),
        Space("pairs", pairs, "two files, broken or not, scanned or context, both orders"),
    ] + ([Space("double", double, "every form x two edits with 4 tokens each")] if deep else [])
