"""The configuration file: every setting has exactly its documented effect, anything invalid is refused."""
import itertools
import os
import re

import build
from core import Case, Space
from stmts import near, only

RULE = ("Every set of up to 3 settings x every value; every invalid value in every place; all orders and all sequences with one wrong "
        "word of ordering_requires; every word form of every boolean; every spelling of lists, comments and quotes; repeated settings; "
        "texts of up to 3 (4 thorough) tokens; long lists and words.")
ASSUMPTIONS = ["what the syntax of the configuration library accepts beyond the forms in selint.conf is only required not to crash"]

OWN_IF = """## <summary>x</summary>
## <summary>x</summary>
interface(`own_flavor',`
	gen_require(`
		type b_t;
		attribute a_a;
	')
	allow $1 { a_a b_t }:file getattr;
')
## <summary>x</summary>
interface(`own_alpha',`
	gen_require(`
		type b_t;
		type a_t;
	')
	allow $1 { a_t b_t }:file getattr;
')
"""
FILES = {
    "own.te": "policy_module(own,1.0)\ntype own_t;\nzz_macro\nallow own_t own_t:file getattr;\nyy_macro\n",
    "own.if": OWN_IF,
    "own.fc": ("/a\tgen_context(system_u:object_r:own_t,s0)\n/b\tgen_context(uu:object_r:own_t,s0)\n/c\tgen_context(system_u:rr:own_t,s0)\n"
               "zz_fc(x)\nyy_fc(x,y)\n"),
    "base.fc": "/d\tgen_context(system_u:object_r:own_t,s0)\n",
    "order/own2.te": ("policy_module(own2,1.0)\ntype own2_t;\naa_a(own2_t)\nbb_a(own2_t)\nbb_b(own2_t)\noptional_policy(`\n\tbb_b(own2_t)\n')\n"
                      "tunable_policy(`xx',`\n\tbb_b(own2_t)\n')\ntunable_policy(`xx',`\n\tbb_a(own2_t)\n')\n"),
    "apps/aa.if": "## <summary>x</summary>\n## <summary>x</summary>\ninterface(`aa_a',`\n\tallow $1 self:file getattr;\n')\n",
    "system/bb.if": "## <summary>x</summary>\n" + "".join(
        "## <summary>x</summary>\ninterface(`bb_%s',`\n\tallow $1 self:file getattr;\n')\n" % x for x in "ab"),
}
LEVELS = {"convention": "C", "style": "S", "warning": "W", "error": "E", "fatal": "F"}
FLAVORS = ["bool", "class", "role", "attribute_role", "attribute", "type"]
DEFAULT = {
    "severity": "convention", "disable": [], "enable_normal": [], "enable_source": [], "assume_users": [], "assume_roles": [],
    "custom_fc_macros": [], "custom_te_simple_macros": [], "ordering_rules": "refpolicy-lax", "ordering_requires": FLAVORS,
    "ordering_requires_same_flavor": "true", "skip_checking_generated_fcs": "true",
}
LISTS = [k for k, v in DEFAULT.items() if isinstance(v, list)]
YES = ["true", "True", "TRUE", "yes", "Yes", "YES"]
NO = ["false", "False", "FALSE", "no", "No", "NO"]
VALUES = {
    "severity": list(LEVELS), "disable": [["S-002"], ["C-006", "E-010"], ["C-001", "E-003"]],
    "enable_normal": [["E-010"], ["C-006", "S-002"]], "enable_source": [["E-010"], ["C-006", "S-002"], ["E-003", "C-001"]],
    "assume_users": [["system_u"], ["uu"], ["uu", "system_u"], ["vv", "u"]], "assume_roles": [["object_r"], ["rr", "object_r"], ["r"]],
    "custom_fc_macros": [["zz_fc"], ["yy_fc", "zz_fc"], ["xx", "zz"]], "custom_te_simple_macros": [["zz_macro"], ["yy_macro", "zz_macro"], ["zz"]],
    "ordering_rules": ["refpolicy", "refpolicy-light", "refpolicy-lax"],
    "ordering_requires": [FLAVORS[::-1], ["type", "attribute", "bool", "class", "role", "attribute_role"]],
    "ordering_requires_same_flavor": ["true", "false"], "skip_checking_generated_fcs": ["true", "false"],
}
# C-001 findings of order/own2.te by ordering_rules, from the style guide: the system layer comes before other layers
# (refpolicy only) and tunable blocks before optional blocks (not with the lax rules)
OWN2 = {"refpolicy-lax": [], "refpolicy-light": [7], "refpolicy": [3, 7]}
CHECKS = ["C-001", "C-006", "S-002", "E-002", "E-003", "E-004", "E-010"]


def expected(s, source=True):
    """s: complete settings -> findings among CHECKS"""
    x = []
    users, roles = s["assume_users"], s["assume_roles"]
    for f, l, u, r in (("own.fc", 1, "system_u", "object_r"), ("own.fc", 2, "uu", "object_r"), ("own.fc", 3, "system_u", "rr"),
                       ("base.fc", 1, "system_u", "object_r")):
        if u not in users:
            x.append((f, l, "E-003"))
        if r not in roles:
            x.append((f, l, "E-004"))
    for l, m in ((4, "zz_fc"), (5, "yy_fc")):
        if m not in s["custom_fc_macros"]:
            x.append(("own.fc", l, "E-002"))
    for l, m in ((3, "zz_macro"), (5, "yy_macro")):
        if m not in s["custom_te_simple_macros"]:
            x.append(("own.te", l, "E-010"))
    if s["skip_checking_generated_fcs"] in NO:
        x.append(("base.fc", 1, "S-002"))
    o = s["ordering_requires"]
    if o.index("attribute") < o.index("type"):
        x.append(("own.if", 4, "C-006"))
    if s["ordering_requires_same_flavor"] in YES:
        x.append(("own.if", 12, "C-006"))
    x += [("own2.te", l, "C-001") for l in OWN2[s["ordering_rules"]]]
    lvl = "CSWEF".index(LEVELS[s["severity"]])
    on = s["enable_source"] if source else s["enable_normal"]
    return sorted(f for f in x if "CSWEF".index(f[2][0]) >= lvl and (f[2] in on or f[2] not in s["disable"]))


def render(k, v, style=0):
    if isinstance(v, list):
        q = ['"%s"', "%s", "'%s'", '"%s"', "%s"][style]
        return k + [" = { %s }", "={%s}", " =\n{\n\t%s\n}", " = {%s}", "  =  {  %s  }"][style] % [", ", ",", ",\n\t", " , ", ","][style].join(
            q % x for x in v)
    return k + [' = "%s"', "=%s", " =\n'%s'", '  =  "%s"  ', "\t=\t%s"][style] % v


def case(text, settings, argv=None, source=True, code=0, judge=None, files=None):
    f = dict(FILES)
    f["cfg"] = text
    f.update(files or {})
    exp = expected(settings, source) if settings is not None else None

    def default_judge(rs):
        r = rs[0]
        if r.code != code:
            return "exit status %d, expected %d" % (r.code, code)
        got = [x for x in r.locs() if x[2] in CHECKS]
        if code:
            return "findings with an invalid configuration" if r.findings or r.summary is not None else None
        if got != exp:
            return "unexpected %s, missing %s" % ([x for x in got if x not in exp][:5], [x for x in exp if x not in got][:5])
        return None
    return Case(f, [["-c", "cfg"] + (["-s"] if source else []) + (argv or ["-r", "."])], judge or default_judge)


def settings(k):
    def body(c):
        keys = sorted(VALUES)
        n = 1 + c.choose(k)
        s, text, i = dict(DEFAULT), [], 0
        for _ in range(n):
            j = i + c.choose(len(keys) - i)
            key = keys[j]
            s[key] = c.pick(VALUES[key])
            text.append(render(key, s[key]))
            i = j + 1
            if i >= len(keys):
                break
        source = c.flag() if n < 3 else True
        order = c.pick([1, -1])
        return case("\n".join(text[::order]) + "\n", s, source=source)
    return body


BAD = {
    "severity": ["", "Convention", "warn", "C", "W", "warnings", "conventio", "0", "error "],
    "ordering_rules": ["", "refpolicy-", "lax", "refpolicy-strict", "Refpolicy", "refpolicy-lax2", "refpolic"],
    "ordering_requires_same_flavor": ["", "tRUE", "1", "0", "on", "y", "truee", "tru", "TRue", "nope", " true"],
    "skip_checking_generated_fcs": ["", "tRUE", "1", "off", "n", "FALSe", "falsee", "fals"],
    "ordering_requires": [[], FLAVORS[:5], FLAVORS + ["type"], FLAVORS[:5] + ["bool"], FLAVORS[:5] + ["perm"], FLAVORS[:5] + ["Type"],
                          [""] + FLAVORS[1:], FLAVORS + ["role"], ["type"] * 6, FLAVORS[:5] + ["types"], FLAVORS + [""]],
}


def invalid(c):
    key = c.pick(sorted(BAD))
    v = c.pick(BAD[key])
    other = c.pick([None] + sorted(k for k in VALUES if k != key))
    pos = c.pick(["before", "after"]) if other else "before"
    style = c.pick([0, 3])
    opts = c.pick([[], ["-S"], ["-F"], ["-l", "F"], ["-E", "-e", "E-010"], ["-l", "C"]])
    text = [render(key, v, style)]
    if other:
        text.insert(0 if pos == "before" else 1, render(other, VALUES[other][0]))
    return case("\n".join(text) + "\n", None, argv=opts + ["-r", "."], code=78)


def bools(c):
    a, b = c.pick(YES + NO), c.pick(YES + NO)
    style = c.choose(5)
    s = dict(DEFAULT, ordering_requires_same_flavor=a, skip_checking_generated_fcs=b)
    return case(render("ordering_requires_same_flavor", a, style) + "\n" + render("skip_checking_generated_fcs", b, style) + "\n", s)


WORDS = {"severity": sorted(LEVELS), "ordering_rules": ["refpolicy", "refpolicy-light", "refpolicy-lax"], "ordering_requires_same_flavor": YES + NO, "skip_checking_generated_fcs": YES + NO,
         "ordering_requires": FLAVORS}


def close(word):
    v = near(word) + [word + s for s in ("s", "-", ".", " ", "!", "0", "-x", "-light", "-lax", "_role", "_", "\\t", "e", "off", "ing")] + [" " + word, "un" + word, "'" + word + "'", word[0], word[:2], word[:3], word[-2:]]
    if len(word) < 6:
        v += ["".join(x) for x in itertools.product(*[(ch.lower(), ch.upper()) for ch in word])]
    else:
        v += [word[:i] + word[i].upper() + word[i + 1:] for i in range(len(word))]
    return [x for i, x in enumerate(v) if x not in v[:i] and x]


def close_words(c):
    """each setting takes its own words and no others that are close to them"""
    key = c.pick(sorted(WORDS))
    word = c.pick(WORDS[key])
    w = c.pick([word] + [x for x in close(word) if x not in WORDS[key]])
    style = c.pick([0, 3])
    if key != "ordering_requires":
        ok = w == word
        if ok:
            s = dict(DEFAULT)
            s[key] = w
            return case(render(key, w, style) + "\n", s)
        return case(render(key, w, style) + "\n", None, code=78)
    if w == word:
        return None
    o = list(FLAVORS)
    how = c.pick(["reversed", "plain", "others"])
    if how == "reversed":
        o.reverse()
    o[o.index(word)] = w
    if how == "others":
        o = [w] * 6
    return case(render(key, o, style) + "\n", None, code=78)


def orders(c):
    o = list(c.perm(FLAVORS))
    same = c.pick(["true", "false"])
    return case("%s\n%s\n" % (render("ordering_requires", o), render("ordering_requires_same_flavor", same)),
                dict(DEFAULT, ordering_requires=o, ordering_requires_same_flavor=same))


def one_wrong(c):
    """every order with one word replaced, left out or added"""
    o = list(c.pick(list(itertools.permutations(FLAVORS))[::30]))
    how = c.pick(["replace", "drop", "add"])
    i = c.choose(6)
    w = c.pick(FLAVORS + ["", "user", "perm", "attribute_", "rol", "roles"])
    if how == "replace":
        if o[i] == w:
            return None
        o[i] = w
    elif how == "drop":
        if w != "bool":
            return None
        del o[i]
    else:
        o.insert(i, w)
    return case(render("ordering_requires", o) + "\n", None, code=78)


def spellings(c):
    key = c.pick(sorted(VALUES))
    v = c.pick(VALUES[key])
    style = c.choose(5)
    pre = c.pick(["", "# comment\n", "// comment\n", "/* severity = \"fatal\" */\n", "\n\n\t ", "# severity = \"fatal\"\n#disable = { E-010 }\n"])
    post = c.pick(["", "\n", "\n# end", " # end\n", "\n\n"])
    return case(pre + render(key, v, style) + post, dict(DEFAULT, **{key: v}))


def repeated(c):
    """a setting given several times: the last one counts, += adds to a list"""
    key = c.pick(sorted(VALUES))
    n = 2 + c.choose(2)
    text, val = [], None
    for _ in range(n):
        v = c.pick(VALUES[key])
        if key in LISTS and key != "ordering_requires" and c.flag():
            text.append(render(key, v).replace("=", "+=", 1))
            val = (val or []) + v
        else:
            text.append(render(key, v))
            val = v
    between = c.pick(["", "assume_users = { system_u }\n"])
    s = dict(DEFAULT, **{key: val})
    if between and key == "assume_users":
        return None
    if between:
        s["assume_users"] = ["system_u"]
    return case(("\n" + between).join(text) + "\n", s)


TOKENS = ["disable", "severity", "=", "{", "}", ",", '"style"', "E-010", "#x\n", "ordering_requires", "modules", "+=", '"', "(", "\n", "'", "\\"]
GOOD = {("disable", "=", "{", "}"), ("disable", "=", "E-010")}


def tokens(n):
    def body(c):
        t = c.seq(TOKENS, n, 1)
        sep = c.pick([" ", ""])

        def judge(rs):
            r = rs[0]
            if r.code not in (0, 78):
                return "exit status %d" % r.code
            if r.code == 78 and (r.findings or r.summary is not None):
                return "findings with an invalid configuration"
            if r.code == 0 and len(r.locs("E-002")) != 2 and "style" not in "".join(t):
                return "findings lost"
            return None
        return case(sep.join(t), None, judge=judge)
    return body


UNKNOWN = ["severit", "severity2", "disabled", "enable", "Disable", "assume_user", "modules_conf_path", "custom_fc_macro", "x", "ordering",
           "skip_checking_generated_fc", "enable_sourc"]


def unknown(c):
    k = c.pick(UNKNOWN)
    v = c.pick([' = "style"', " = { S-003 }", " = {}", " = true", "", " =", " { }", " { x = 1 }"])
    other = c.pick([None, "disable = { E-010 }", 'severity = "error"', "assume_roles = { rr }"])
    pos = c.pick([0, 1])
    text = [k + v]
    if other:
        text.insert(pos, other)
    return case("\n".join(text) + "\n", None, code=78)


def long_lists(c):
    key = c.pick(["assume_users", "assume_roles", "custom_fc_macros", "custom_te_simple_macros", "disable", "enable_source"])
    n = c.pick([1, 2, 33, 64, 65, 129, 300, 1000])
    at = c.pick(["first", "second", "middle", "last", "none", "only"])
    wlen = c.pick([0, 60, 300])
    if key in ("disable", "enable_source"):
        fill = ["S-003", "W-004", "S-005", "W-006", "E-009"]
        words = [fill[i % 5] for i in range(n)]
        if wlen:
            return None
    else:
        words = ["w%d%s" % (i, "x" * wlen) for i in range(n)]
    special = {"assume_users": "uu", "assume_roles": "rr", "custom_fc_macros": "zz_fc", "custom_te_simple_macros": "zz_macro",
               "disable": "E-010", "enable_source": "E-010"}[key]
    if at == "only":
        words = [special] * n
    elif at != "none":
        words.insert({"first": 0, "second": 1, "middle": n // 2, "last": n}[at], special)
    s = dict(DEFAULT)
    s[key] = words
    text = render(key, words) + "\n"
    if key == "enable_source":
        s["disable"] = ["E-010"]
        text += "disable = { E-010 }\n"
    return case(text, s)


def files(c):
    """the file itself: missing, empty, no newline, directory, given twice"""
    k = c.pick(["missing", "empty", "comment", "no-newline", "directory", "twice", "twice-reverse", "none", "link", "dangling"])
    opts = c.pick([[], ["-S"], ["-F"], ["-l", "C"]])
    src = c.flag()
    bad = None
    text, argv, s, extra = "", ["-c", "cfg"], dict(DEFAULT), {}
    if k == "missing":
        argv, bad = ["-c", "nowhere"], "any"
    elif k == "comment":
        text = "# nothing\n"
    elif k == "no-newline":
        text, s = "disable = { E-010 }", dict(DEFAULT, disable=["E-010"])
    elif k == "directory":
        extra, argv, bad = {"dir/x": ""}, ["-c", "dir"], "any"
    elif k == "twice":
        extra, argv, s = {"cfg2": "disable = { E-010 }\n"}, ["-c", "cfg", "-c", "cfg2"], dict(DEFAULT, disable=["E-010"])
    elif k == "twice-reverse":
        extra, argv, text = {"cfg2": ""}, ["-c", "cfg", "--config=cfg2"], "disable = { E-010 }\n"
    elif k == "none":
        argv, s = [], dict(DEFAULT, assume_users=["system_u"], assume_roles=["object_r"])
    elif k == "link":
        extra, argv = {"l": (2, "cfg")}, ["--config", "l"]
        text, s = "disable = { E-010 }", dict(DEFAULT, disable=["E-010"])
    elif k == "dangling":
        extra, argv, bad = {"l": (2, "nowhere")}, ["-c", "l"], "any"
    f = dict(FILES)
    f["cfg"] = text
    f.update(extra)
    exp = expected(s, src)

    def judge(rs):
        r = rs[0]
        if bad:
            return None if r.code not in (0, 65) and r.code > 0 and not r.findings and r.summary is None else "%s: exit status %d" % (k, r.code)
        if r.code != (65 if "-F" in opts else 0):
            return "%s: exit status %d" % (k, r.code)
        got = [x for x in r.locs() if x[2] in CHECKS]
        return None if got == exp else "%s: unexpected %s missing %s" % (k, [x for x in got if x not in exp], [x for x in exp if x not in got])
    return Case(f, [argv + opts + (["-s"] if src else []) + ["-r", "."]], judge)


def installed(c):
    """the installed configuration: read when no -c is given, and then exactly as -c would read it; otherwise not looked at"""
    where = build.SYSCONFDIR + "/selint.conf"
    k = c.pick(["good", "invalid", "syntax", "unknown", "empty", "missing", "dangling", "link", "directory", "dir-only", "other-name"])
    src = c.flag()
    over = c.pick([None, "", "disable = { E-010 }\n", "bad"])
    opts = c.pick([[], ["-S"], ["-v"], ["-l", "C"], ["-e", "E-010", "-d", "E-003"]])
    s, text, f, bad = dict(DEFAULT), "", dict(FILES), False
    if k == "good":
        keys = [c.pick(sorted(VALUES))]
        if c.flag():
            keys.append(c.pick([x for x in sorted(VALUES) if x > keys[0]] or [keys[0]]))
        for x in sorted(set(keys)):
            s[x] = c.pick(VALUES[x])
            text += render(x, s[x]) + "\n"
    elif k == "invalid":
        key = c.pick(sorted(BAD))
        text, bad = render(key, BAD[key][0]) + "\n", True
    elif k == "syntax":
        text, bad = c.pick(["disable = {\n", "disable\n", "= x\n", 'severity = "style\n', "}\n"]), True
    elif k == "unknown":
        text, bad = UNKNOWN[0] + " = x\n", True
    if k in ("missing", "dangling", "dir-only", "other-name"):
        s = dict(DEFAULT, assume_users=["system_u"], assume_roles=["object_r"])
        if k == "dangling":
            f[where] = (2, "nowhere")
        elif k == "dir-only":
            f[build.SYSCONFDIR + "/x"] = ""
        elif k == "other-name":
            f[build.SYSCONFDIR + "/selint.config"] = f["selint.conf"] = "disable = { E-010 }\n"
    elif k == "link":
        f["real"], s = "disable = { C-006 }\n", dict(DEFAULT, disable=["C-006"])
        f[where] = (2, "../real")
    elif k == "directory":
        f[where + "/x"], bad = "", True
    else:
        f[where] = text
    argv = []
    if over is not None:
        argv, bad, s = ["-c", "cfg"], over == "bad", dict(DEFAULT)
        f["cfg"] = "severity = x\n" if bad else over
        if "E-010" in over:
            s = dict(DEFAULT, disable=["E-010"])
    exp = expected(s, src)
    if "-l" in opts:
        exp = expected(dict(s, severity="convention"), src)
    if "-e" in opts:
        # the command line overrides the configuration, whichever it is
        exp = expected(dict(s, disable=[x for x in s["disable"] if x != "E-010"] + ["E-003"], **{
            "enable_normal": [x for x in s["enable_normal"] if x != "E-003"], "enable_source": [x for x in s["enable_source"] if x != "E-003"]}), src)

    def judge(rs):
        r = rs[0]
        if bad:
            refused = r.code == 78 or (k == "directory" and r.code not in (0, 65))
            return None if refused and not r.findings and r.summary is None else "%s: exit status %d" % (k, r.code)
        if r.code != 0:
            return "%s: exit status %d" % (k, r.code)
        got = [x for x in r.locs() if x[2] in CHECKS]
        return None if got == exp else "%s: unexpected %s missing %s" % (k, [x for x in got if x not in exp], [x for x in exp if x not in got])
    return Case(f, [argv + opts + (["-s"] if src else []) + ["-r", "."]], judge)


def shipped(c):
    """the selint.conf of the repository, installed or given with -c, is accepted and means what its text says"""
    try:
        text = open(os.path.join(build.REPO, "selint.conf")).read()
    except OSError:
        return None
    how = c.pick(["installed", "-c"])
    src = c.flag()
    extra = c.pick([[], ["-l", "S"], ["-e", "C-006"], ["-d", "E-010"]])
    lines = text.split("\n")
    # what the file says, as far as this reads the plain one-line form
    s = dict(DEFAULT)
    for l in lines:
        m = re.match(r"(\w+)\s*=\s*(?:\{([^}]*)\}|\"?([\w-]+)\"?)\s*$", l)
        if m and m.group(1) in s:
            s[m.group(1)] = m.group(3) if m.group(2) is None else [w.strip() for w in m.group(2).split(",") if w.strip()]
    f = dict(FILES)
    argv = []
    if how == "installed":
        f[build.SYSCONFDIR + "/selint.conf"] = text
    else:
        f["cfg"], argv = text, ["-c", "cfg"]
    if "-l" in extra:
        s["severity"] = "style"
    if extra[:1] == ["-e"]:
        s["disable"] = [x for x in s["disable"] if x != "C-006"]
    if extra[:1] == ["-d"]:
        s["disable"] = s["disable"] + ["E-010"]
    exp = expected(s, src)

    def judge(rs):
        r = rs[0]
        got = [x for x in r.locs() if x[2] in CHECKS]
        if r.code != 0:
            return "exit status %d" % r.code
        return None if got == exp else "unexpected %s missing %s" % ([x for x in got if x not in exp], [x for x in exp if x not in got])
    return Case(f, [argv + extra + (["-s"] if src else []) + ["-r", "."]], judge)


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("settings", settings(3), "all sets of up to 3 settings x all values x source mode x both orders"),
        Space("invalid", invalid, "46 invalid values x 11 other settings before or after x 2 spellings x 6 options"),
        Space("booleans", bools, "12 x 12 words x 5 spellings"),
        Space("close-words", close_words, "each of 38 words of the settings and some 40-60 close to it x 2 spellings"),
        Space("requires-orders", orders, "all 720 orders x 2"),
        Space("requires-wrong", one_wrong, "24 orders x one word replaced by, left out or added out of 12"),
        Space("spellings", spellings, "all settings and values x 5 spellings x 6 prefixes x 5 ends"),
        Space("repeated", repeated, "all sequences of 2-3 assignments or additions to each setting"),
        Space("tokens", tokens(4 if deep else 3), "all texts of up to 3 (4 thorough) of 17 tokens"),
        Space("tokens-sanitized", tokens(3 if deep else 2), "texts of up to 2 (3 thorough) tokens under sanitizers", "san"),
        Space("unknown", unknown, "12 unknown names x 8 values x 4 other settings"),
        Space("long-lists", long_lists, "6 lists of up to 1000 words of up to 300 characters, one of interest"),
        Space("installed", installed, "12 kinds of installed configuration x settings x given -c x 5 options x source mode"),
        Space("shipped", shipped, "the selint.conf of the repository x installed or given x source mode x 4 options"),
        Space("files", files, "10 kinds of file x 4 options x source mode"),
    ]
