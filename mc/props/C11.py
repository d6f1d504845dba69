"""File context lines: which are entries, which are skipped, which are malformed (E-002)."""
from core import Case, Space
from stmts import exact, only

RULE = ("Every combination of path, separator, file type, context form and line end for well-formed entries; every single "
        "omission and corruption of them; every sequence of up to 5 (6 thorough) lines of 12 kinds; every sequence of "
        "characters up to 5 (6 thorough) as the file type and context part; all custom_fc_macros lists of up to 3 of 6 "
        "names x 20 lines; long lines and files.")
ASSUMPTIONS = ["lines do not begin with white space, have no doubled or leading colon in a context and nothing behind "
               "gen_context(...)", "the first character of a path is a slash"]

ARGV = only("E-002")
PATHS = ["/", "/a", "/usr/bin(/.*)?", "/usr/bin/a\\.b", "/a-b", "/dev/[^/]+", "/a#b", "/a,b", "/a:b", "/(a|b)", "/a`b",
         "/-d", "HOME_DIR/\\.a", "/" + "x" * 300]
SEPS = [" ", "\t", "   ", "\t\t", " \t "]
OBJ = ["", "--", "-d", "-l", "-c", "-b", "-p", "-s"]
CTX = ["gen_context(u:r:t,s0)", "gen_context(u:r:t)", "gen_context(u:r:t, s0)", "gen_context(u:r:t,\ts0)",
       "gen_context(u:r:t,s0,c0)", "gen_context(u:r:t,s0, c0)", "gen_context(u:r:t,mls_systemhigh,mcs_allcats)",
       "gen_context(u:r:t,s0 - mls_systemhigh)", "gen_context(u:r:t,s0 - mls_systemhigh,mcs_allcats)", "u:r:t", "u:r:t:s0",
       "u:r:t:s0-s15", "u:r:t:s0:c0", "u:r:t:s0:c0.c1023", "u:r:t:s0-s15:c0.c1023", "u:r:t:s0:c1,c3", "u:r:t:s0:c1-s1:c1",
       "<<none>>", "gen_context(system_u:object_r:a_t,s0)", "system_u:object_r:a_t:s0"]
END = ["\n", "", " \n", "\t\n", " \t \n", "\r\n", "   "]


def fc(text, exp, argv=None, files=None, order=None, name="own.fc", what=""):
    f = {name: text}
    f.update(files or {})
    return Case(f, [(argv or ARGV) + (order or [name])], exact([(name, n, "E-002") for n in exp], what))


def wellformed(c):
    p, s1, o, ctx, e = c.pick(PATHS), c.pick(SEPS), c.pick(OBJ), c.pick(CTX), c.pick(END)
    s2 = c.pick(SEPS) if o and s1 in (" ", "\t\t") else s1
    return fc(p + s1 + (o + s2 if o else "") + ctx + e, [], what=ctx)


# corrupted entries: parts of the line and what is wrong
BADOBJ = ["-", "-x", "-D", "-dd", "---", "--d", "d", "-d-", "-f", "-0", "_d"]
BADCTX = ["", "u", "u:r", "u:", "u:r:", "gen_context(", "gen_context()", "gen_context(u)", "gen_context(u:r)", "gen_context(u:r,s0)",
          "gen_context(u:r:t", "gen_context(u:r:t,", "gen_context(u:r:t,s0", "gen_context(u:r:t,s0,c0", "gen_context(u,s0)",
          "macro(u:r:t)", "macro(u:r:t,s0)", "gen_contex(u:r:t,s0)", "gen_context2(u:r:t,s0)", "Gen_context(u:r:t,s0)",
          "<<none", "<none>", "<<NONE>>", "<<none>>x", "none", "u:r:t:s0:c0-s0:c1:x", "gen_context((u:r:t),s0)", "u:r:t(x)", "u:r:t)", "u:r):t:s0", "u):r:t", "u:r:t:s0)", "gen_context(u:r:t),s0)", "gen_context(u):r:t,s0)", "u:r:t:s0)x"]


def malformed(c):
    p = c.pick(["/a", "/usr/bin(/.*)?", "/a\\.b", "/x:y:z"])
    s = c.pick([" ", "\t", "  \t"])
    kind = c.pick(["obj", "ctx", "path"])
    e = c.pick(["\n", "", " \n", "\r\n"])
    if kind == "obj":
        o, ctx = c.pick(BADOBJ), c.pick(CTX)
        if not o.startswith("-") and not ctx.startswith(("<<", "gen_context")):
            # "d u:r:t" is a context with a blank in it
            return None
        line = p + s + o + s + ctx
    elif kind == "ctx":
        o, ctx = c.pick(OBJ), c.pick(BADCTX)
        line = p + s + (o + s if o else "") + ctx
    else:
        line = p
        s2 = c.pick(["", " ", "\t\t"])
        line += s2
    pre = c.pick([[], ["# c"], ["", "/b -- u:r:t"]])
    text = "\n".join(pre + [line]) + e
    return fc(text, [len(pre) + 1], what=line)


LINES = {"ok": ("/a -- gen_context(u:r:t,s0)", 0), "raw": ("/b u:r:t:s0", 0), "none": ("/c -d <<none>>", 0), "comment": ("# /a -- x", 0),
         "empty": ("", 0), "ifdef": ("ifdef(`distro_x',`", 0), "ifndef": ("ifndef(`x',`", 0), "close": ("')", 0),
         "closec": ("') # distro_x", 0), "else": ("',`", 0), "else2": ("', `", 0), "bad": ("/a --", 1), "bad2": ("mymacro(`x')", 1),
         "bad3": ("/a -- u:r", 1), "longok": ("/" + "y" * 5000 + " u:r:t", 0)}


def sequences(n):
    def body(c):
        ks = c.seq(sorted(LINES), n, 1) if n <= 3 else c.seq(["ok", "comment", "empty", "ifdef", "close", "else", "bad", "bad2"], n, n)
        end = c.pick(["\n", ""]) if n <= 3 else "\n"
        if ks[-1] == "empty" and not end:
            return None
        text = "\n".join(LINES[k][0] for k in ks) + end
        return fc(text, [i + 1 for i, k in enumerate(ks) if LINES[k][1]])
    return body


BLANKS = {"cr": "\r", "blank": " ", "tab": "\t", "mix": " \t \r", "crcr": "\r\r", "vt": "\t\t", "longblank": " " * 300}


def blanks(c):
    """lines of blanks only, whatever is said about themselves, do not move the findings of other lines"""
    ks = c.seq(sorted(BLANKS) + ["ok", "empty", "comment", "bad", "bad3"], 3, 1)
    crlf = c.flag()
    text = "".join((BLANKS.get(k) or LINES[k][0]) + ("\r\n" if crlf else "\n") for k in ks) + "/z --\n/y u:r:t\n"
    own = {i + 1 for i, k in enumerate(ks) if k in BLANKS or crlf and k == "empty"}
    exp = [("own.fc", i + 1, "E-002") for i, k in enumerate(ks) if k in LINES and LINES[k][1]] + [("own.fc", len(ks) + 1, "E-002")]

    def judge(rs):
        r = rs[0]
        got = [x for x in r.locs() if x[1] not in own]
        if r.code != 0 or got != exp:
            return "exit status %d, findings %s instead of %s" % (r.code, got, exp)
        return None
    return Case({"own.fc": text}, [ARGV + ["own.fc"]], judge)


# words close to those of m4 and of the contexts: the lines are entries or malformed ones, whatever stands around them
M4 = ["ifdef", "ifndef", "')", "',`", "', `"]
CLOSE = {
    "ifdef": ["ifde", "ifd", "if", "xifdef", "IFDEF", "Ifdef", "ifDef", "i", "fdef", "_ifdef", "(ifdef", "`ifdef", "iffdef", "ifefd", "ifxdef", "elifdef", "if_def"],
    "ifndef": ["ifnde", "ifnd", "ifn", "xifndef", "IFNDEF", "Ifndef", "ifNdef", "ifn_def", "nifdef", "_ifndef", "ifnnef", "ifmdef"],
    "')": ["'", ")", "x')", "''", "'x)", "(')", "`')", ")'", "\")", "' )", "`)", "/')", "'("],
    "',`": ["'", "',", "'`", ",`", "x',`", "',x`", "'x,`", "'.`", "`,'", "\",`", "',\"", "','", "/',`", "',(", "';`"],
    "', `": ["', ", "' `", ", `", "x', `", "',  `", "' , `", "', '", "', x`", "'; `", "`, '"],
}


def m4words(c):
    w = c.pick(M4)
    kind = c.pick(["close", "inside"])
    bad = True
    if kind == "close":
        x = c.pick(CLOSE[w])
        line = x + c.pick(["", "(`x',`", " # c", "x"])
        if any(line.startswith(m) for m in M4):
            return None
    else:
        form = c.pick(["/a %s", "/a%s", "/a %s x", "/a -- %s", "macro(`x', %s", "/a -- u:r %s", "/a u:r:t(%s)"])
        line = form % w
    after = c.pick(["/b u:r:t", "/b --"])
    text = "/c u:r:t\n" + line + "\n" + after + "\n"
    return fc(text, ([2] if bad else []) + ([3] if after == "/b --" else []), what=line)


GC = ["gen_contex", "gen_contextx", "gen_context_", "gen_context[", "gen_context{", "gen_context:", "gen_context,", "gen_context`", "xgen_context", "x_gen_context", "_gen_context", "(gen_context",
      "GEN_CONTEXT", "Gen_context", "gen_Context", "gen_contexT", "gencontext", "gen-context", "gen__context", "en_context", "context", "gen", "gen_context.", "u:gen_context", "gen_context(gen_context", "macro", "other_macro", "ten_letters", "twelvechars1"]
GCTAIL = ["(u:r:t,s0)", "(u:r:t)", "u:r:t,s0)", "u:r:t)", "(u:r:t,s0) gen_context(u:r:t,s0)", "(u:r:t,gen_context(s0))", "(u:r:t,s0 - mls_systemhigh,mcs_allcats)"]


def contextwords(c):
    """only gen_context( opens a macro: any other word with parentheses behind it is malformed"""
    w = c.pick(GC)
    tail = c.pick(GCTAIL)
    if "(" in w and tail[0] != "(":
        return None
    line = c.pick(["/a ", "/a\t-- ", "/a -d\t"]) + w + tail
    after = c.pick(["/b u:r:t", "/b --"])
    return fc("/c u:r:t\n" + line + "\n" + after + "\n", [2] + ([3] if after == "/b --" else []), what=line)


# ---------------------------------------------------------------- generated context strings
def valid_tail(s):
    """reference parser of what stands behind the path; None: not covered"""
    if "::" in s or ":" == s[:1] or " :" in s:
        return None
    parts = s.split()
    if not parts:
        return False
    if parts[0].startswith("-"):
        if len(parts[0]) != 2 or parts[0][1] not in "-bcdlps":
            return False
        parts = parts[1:]
        if not parts:
            return False
    if len(parts) > 1:
        return None
    f = parts[0].split(":")
    if len(f) < 3 or f[2] == "":
        return False
    if len(f) > 3 and f[-1] == "":
        return None
    return True


def tails(n):
    def body(c):
        first = c.pick("-du: ")
        second = c.pick("-du: ")
        lines, exp = [], []
        # all continuations in one file
        import itertools
        for k in range(0, n - 1):
            for rest in itertools.product("-du: ", repeat=k):
                s = first + second + "".join(rest)
                v = valid_tail(s)
                if v is None:
                    continue
                lines.append("/a " + s)
                if not v:
                    exp.append(len(lines))
        if not lines:
            return None
        return fc("\n".join(lines) + "\n", exp)
    return body


# ---------------------------------------------------------------- custom macros
MACS = ["mymacro", "mymacr", "mymacrox", "m", "other_macro", "Mymacro"]
MLINES = ["mymacro(`x')", "mymacro()", "mymacro(", "mymacro (x)", "mymacro", "mymacrox(x)", "mymacr(x)", "m(x)", "other_macro(a, b)",
          " mymacro(x)", "xmymacro(x)", "Mymacro(x)", "MYMACRO(x)", "/a -- mymacro(x)", "/a mymacro(x)", "mymacro_(x)",
          "other_macro", "other_macro(x) # c", "m/a -- u:r:t"]


def custom(c):
    ms = c.seq(MACS, 3)
    form = c.pick(["{ %s }", "{%s}", "{ \"%s\" }"]) if ms else "{ %s }"
    cfg = c.pick(["set", "unset", "other-key"])
    sep = "\", \"" if '"' in form else ", "
    if cfg != "set" and len(ms) > 1:
        return None
    key = {"set": "custom_fc_macros", "other-key": "custom_te_simple_macros"}.get(cfg)
    conf = "severity = convention\n" + ("%s = %s\n" % (key, form % sep.join(ms)) if key and ms else "")
    lines, exp = [], []
    for l in MLINES:
        lines.append(l)
        ok = l == "m/a -- u:r:t" or cfg == "set" and any(l.startswith(m + "(") for m in ms)
        if not ok:
            exp.append(len(lines))
    noconf = c.flag() if cfg == "unset" and not ms else False
    return fc("\n".join(lines) + "\n", exp, argv=ARGV + ([] if noconf else ["-c", "cfg"]), files={"cfg": conf})


def custom_many(c):
    n = c.pick([1, 2, 64, 300])
    i = c.pick(["first", "middle", "last", "none"])
    L = c.pick([1, 10, 200])
    ms = ["m%0*d" % (L, k) for k in range(n)]
    use = {"first": ms[0], "middle": ms[n // 2], "last": ms[-1], "none": "m%0*d" % (L, n)}[i]
    text = "%s(x)\n%sx(x)\n%s(x)\n" % (use, use, use[:-1] or "y")
    exp = [k + 1 for k, x in enumerate((use, use + "x", use[:-1] or "y")) if x not in ms]
    return fc(text, exp, argv=ARGV + ["-c", "cfg"], files={"cfg": "custom_fc_macros = { %s }\n" % ", ".join(ms)})


def large(c):
    """long files and lines: each malformed line is reported with its own number"""
    n = c.pick([1, 2, 99, 1000, 12000])
    bad = c.pick(["first", "second", "last", "middle", "none", "every-100th"])
    fill = c.pick(["ok", "comment", "empty", "ifdef"])
    width = c.pick([0, 100, 4090, 70000]) if n <= 99 else 0
    line = LINES[fill][0]
    if fill in ("ok", "comment") and width:
        line = ("/" if fill == "ok" else "#") + "z" * width + " -- u:r:t"
    at = {"first": [1], "second": [2], "last": [n], "middle": [n // 2 + 1], "none": [], "every-100th": list(range(1, n + 1, 100))}[bad]
    at = [x for x in at if x <= n]
    ls = [line] * n
    for x in at:
        ls[x - 1] = "/a" + "b" * width
    return fc("\n".join(ls) + "\n", at)


def several_files(c):
    """one file's lines never change another's"""
    kinds = ["ok", "bad", "comment", "empty", "none"]
    a, b, d = c.pick(kinds), c.pick(kinds), c.pick(kinds)
    order = c.perm(["a.fc", "b.fc", "d/c.fc"])
    files = {"a.fc": LINES[a][0] + "\n" + LINES["bad"][0] + "\n", "b.fc": LINES[b][0] + "\n", "d/c.fc": LINES[d][0] + "\n" + LINES["ok"][0]}
    exp = [("a.fc", 2, "E-002")]
    for n, k in (("a.fc", a), ("b.fc", b), ("c.fc", d)):
        if LINES[k][1]:
            exp.append((n, 1, "E-002"))
    return Case(files, [ARGV + order], exact(exp))


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("wellformed", wellformed, "14 paths x 5 separators x 8 file types x 20 contexts x 7 line ends"),
        Space("malformed", malformed, "11 file types, 35 contexts and bare paths, each otherwise well-formed"),
        Space("m4words", m4words, "67 words close to 5 of m4 and 7 places for those themselves, each between other lines"),
        Space("contextwords", contextwords, "29 words close to gen_context x 7 tails x 3 heads x 2"),
        Space("sequences", sequences(3), "all sequences of up to 3 of 15 line kinds"),
        Space("blanks", blanks, "all sequences of up to 3 of 12 lines, 7 of them blank, with both line ends"),
        Space("sequences-deep", sequences(6 if deep else 5), "all sequences of 5 (6 thorough) of 8 line kinds"),
        Space("tails", tails(9 if deep else 7), "all strings up to 7 (9 thorough) over -, d, u, colon, blank behind a path"),
        Space("custom-macros", custom, "all lists of up to 3 of 6 macro names x 3 spellings, 20 lines each"),
        Space("custom-macros-many", custom_many, "lists of up to 300 names x lengths x position"),
        Space("large", large, "5 numbers of lines to 12000 x 6 positions x 4 fillings x line lengths to 70000"),
        Space("several-files", several_files, "3 files x 5 kinds x 6 orders"),
    ]
