"""Normal mode: classes come from the running kernel and interfaces from the installed headers, and nothing else of the system counts."""
from core import Case, Space
from fixture import FILES, FINDINGS
from props.C16 import CHECKS, DEFS, OTH_IF, OTH_TE, OWN_FC, OWN_IF, OWN_TE, BROKEN, TRANS, expected
from props.C19 import failed
from stmts import exact, only

RULE = ("Every set of 3 kernel classes with every set of 3 of their permissions x 3 kinds of rule with every sequence of up to 2 of 9 class names; every place "
        "of two installed interface files and of misleading files x 4 modes; every partition of a policy with a violation of every "
        "check into scanned and installed; 19 kinds of broken header; every failing open and read of the headers; up to 300 headers and classes.")
ASSUMPTIONS = ["the system's directories are replaced by ones below the scratch directory (link time wrappers of the file system calls)",
               "every name is declared once over all files, except that a module may be both scanned and installed"]

DEVEL = "_root/usr/share/selinux/devel/"
CLASSDIR = "_root/sys/fs/selinux/class/"
PERMS = {"file": ["read", "getattr", "open"], "dir": ["search", "read"], "process": ["signal"]}


def kernel(f, classes):
    """classes: {class: perms}"""
    for i, (k, ps) in enumerate(sorted(classes.items())):
        f[CLASSDIR + k + "/index"] = "%d\n" % (i + 1)
        f[CLASSDIR + k + "/perms"] = (1, "")
        for j, p in enumerate(ps):
            f[CLASSDIR + k + "/perms/" + p] = "%d\n" % (j + 1)


RULES = {
    "allow": ("allow own_t own_t:%s read;", True),
    "type_transition": ("type_transition own_t own_t:%s own_t;", True),
    "role_transition": ("role_transition own_r own_t:%s own_r;", True),
}
NAMES = ["file", "dir", "process", "read", "search", "index", "perms", "nosuch", "any_class_set"]


def classes(c):
    have = c.subset(sorted(PERMS))
    known = {k: [p for i, p in enumerate(PERMS[k]) if c.flag()] for k in have}
    form = c.pick(sorted(RULES))
    names = c.seq(NAMES, 2, 1)
    if len(names) == 2 and names[0] == names[1]:
        return None
    source = c.pick(["none", "all", "other"])
    text = names[0] if len(names) == 1 else "{ %s }" % " ".join(names)
    f = {"src/own.te": "policy_module(own,1.0)\ntype own_t;\nrole own_r;\n%s\nallow own_t own_t:process signal;\n" % (RULES[form][0] % text)}
    kernel(f, known)
    if source == "all":
        f["src/access_vectors"] = "class file { read }\nclass dir { read }\nclass process { read }\nclass nosuch { read }\n"
    elif source == "other":
        f["src/access_vectors"] = "class nosuch { read }\n"
        f["src/obj_perm_sets.spt"] = "define(`read_perms',`{ getattr }')\n"
    exp = []
    if known:
        if any(n not in known and n != "any_class_set" for n in names):
            exp.append(("own.te", 4, "E-008"))
        if "process" not in known:
            exp.append(("own.te", 5, "E-008"))
    return Case(f, [["-E", "-e", "E-008", "-e", "E-007", "-r", "src"]], exact(exp))


KNAMES = ["perms", "perms2", "perm", "xperms", "perms_x", "permsperms", "PERMS", "index", "index2", "indexes", "class", "file", "x", "a.b", "long" * 30, "file2"]


def classnames(c):
    """every name of a directory is the name of a class, only perms inside of them is none"""
    have = c.pick(KNAMES[1:])
    use = c.pick([n for n in KNAMES if "." not in n and n != "class"])
    more = c.flag()
    f = {"src/own.te": "policy_module(own,1.0)\ntype own_t;\nallow own_t own_t:%s read;\n" % use}
    known = {have: ["read"]}
    if more:
        known["dir"] = ["search", "index2", "perms", "perms2"]
    kernel(f, known)
    return Case(f, [["-E", "-e", "E-008", "-e", "E-007", "-r", "src"]], exact([] if use in known else [("own.te", 3, "E-008")]))


HNAMES = ["oth", "oth.b", "a.b.c", ".oth", "oth.if", "kernel.x", "o", "if", "x.te", "oth-2", "..", "oth_i"]


def headernames(c):
    """a header's module is its name without .if, and is in the layer of its directory, whatever the name"""
    n = c.pick(HNAMES)
    layer = c.pick(["kernel", "system", "apps", "a.b", "kernel.if", "system2"])
    other = c.pick(["kernel", "system", "apps"])
    f = {"src/apps/own.te": "policy_module(own,1.0)\ntype own_t;\n%s\n", "ctx/x": (1, ""), "cfg": 'ordering_rules = "refpolicy"\n'}
    text = "## <summary>x</summary>\n## <summary>x</summary>\ninterface(`%s',`\n\tallow $1 self:file getattr;\n')\n"
    for d in (DEVEL + "include/", "ctx/"):
        f[d + layer + "/" + n + ".if"] = text % "near_i"
        f[d + other + "/zz.if"] = text % "zz_i"
    calls = ["near_i(own_t)", "zz_i(own_t)"]
    if c.flag():
        calls.reverse()
    f["src/apps/own.te"] %= "\n".join(calls)
    rank = {"kernel": 0, "system": 1}
    keys = {"n": (rank.get(layer, 2), n), "z": (rank.get(other, 2), "zz")}
    order = [keys[x[0]] for x in calls]
    exp = [("apps/own.te", 3, "C-001")] if order[0] > order[1] else []
    got = exact([("own.te", l, i) for _, l, i in exp])

    def judge(rs):
        return got(rs[:1]) or got(rs[1:])
    return Case(f, [only("C-001")[1:] + ["-c", "cfg", "-r", "src"], only("C-001") + ["-c", "cfg", "-r", "--context=ctx", "src"]], judge)


PLACES = {"layer": DEVEL + "include/kernel/", "include": DEVEL + "include/", "top": DEVEL, "deep": DEVEL + "include/a/b/c/d/e/",
          "hidden": DEVEL + "include/.hidden/", "packages": "_root/usr/share/selinux/packages/", "targeted": "_root/usr/share/selinux/targeted/",
          "scan": "src/o/", "none": None}
INSTALLED = ("layer", "include", "top", "deep", "hidden")
TMPL = OTH_IF[OTH_IF.index("## <summary>x</summary>\ntemplate"):]
IFS = OTH_IF[:OTH_IF.index("## <summary>x</summary>\ntemplate")]
assert IFS + TMPL == OTH_IF
MODES = {"normal": [], "source": ["-s"], "context": ["--context=ctx"], "both": ["-s", "--context=ctx"]}
JUNK = {
    "te": ("oth.te", OTH_TE), "fc": ("oth.fc", "/x broken\n"), "mods": ("modules.conf", DEFS["modules.conf"]),
    "spt": ("support/obj_perm_sets.spt", DEFS["obj_perm_sets.spt"]), "av": ("access_vectors", DEFS["access_vectors"]),
    "bak": ("bad.if.bak", "allow x;\n"), "upper": ("bad.IF", "allow x;\n"), "xml": ("policy.xml", "<x/>\n"), "dir": ("bad.if", (1, "")),
    "dirx": ("badx.if/file", "allow x;\n"), "short": ("if", "allow x;\n"),
}


def header_expected(have):
    """what C16 expects, with the E-005, E-003 and E-004 of absent te files"""
    x = []
    for f, l, i in expected(set()):
        if not (f == "own.fc" and l == 4 and "tmpl" in have):
            x.append((f, l, i))
    if "tmpl" in have:
        x.append(("own.if", 5, "S-004"))
    if "if" in have:
        x.append(("own.te", 11, "E-006"))
    return x


def headers(c):
    at = {"if": c.pick(sorted(PLACES)), "tmpl": c.pick(sorted(PLACES))}
    mode = c.pick(sorted(MODES))
    junk = c.pick(["none"] + sorted(JUNK))
    explicit = c.flag()
    f = {"ctx/x.txt": "", "src/own.te": OWN_TE, "src/own.if": OWN_IF, "src/own.fc": OWN_FC}
    have = set()
    for k, p in at.items():
        if PLACES[p] is None:
            continue
        f[PLACES[p] + ("oth.if" if k == "if" else "othtmpl.if")] = IFS if k == "if" else TMPL
        if p == "scan" or (p in INSTALLED and mode == "normal"):
            have.add(k)
    if junk != "none":
        n, t = JUNK[junk]
        f[DEVEL + "include/junk/" + n] = t
    argv = only(*CHECKS)[1:] + MODES[mode]
    argv += sorted(p for p in f if p.startswith("src/")) if explicit else ["-r", "src"]
    return Case(f, [argv], exact(header_expected(have)))


AVCLASSES = {"file": ["read", "write", "open", "getattr"], "dir": ["search"], "process": ["signal"], "unix_stream_socket": ["connectto"]}


def partition(c):
    """interface files scanned, installed or absent: the findings are those with the installed ones as context of source mode"""
    where = {}
    for p in sorted(FILES):
        if "/" not in p:
            continue
        where[p] = c.pick(["scan", "both", "hdr", "none"] if p.endswith(".if") else ["scan", "none"])
    withclasses = c.flag()
    support = c.flag()
    if not any(w in ("scan", "both") for w in where.values()):
        return None
    f = {"src/x": (1, ""), "ctx/x": (1, ""), DEVEL + "include/x": (1, "")}
    for p, w in where.items():
        if w in ("scan", "both"):
            f["src/" + p] = FILES[p]
        if w in ("hdr", "both"):
            f[DEVEL + "include/" + p] = FILES[p]
            f["ctx/" + p] = FILES[p]
    if withclasses:
        kernel(f, AVCLASSES)
        f["av/access_vectors"] = FILES["access_vectors"]
    if support:
        # not for normal mode
        f["src/policy/modules.conf"] = FILES["modules.conf"]
        f["src/policy/obj_perm_sets.spt"] = FILES["obj_perm_sets.spt"]
    everything = all(w != "none" for w in where.values())

    def judge(rs):
        a, b = rs
        if a.code != 0 or b.code != 0:
            return "exit status %s and %s" % (a.code, b.code)
        mod = ("W-005", "W-010", "E-007", "S-009", "S-010", "C-005")
        x = [y for y in a.locs() if y[2] not in ("W-005", "W-010")]
        if x != a.locs():
            return "modules are not known in normal mode: %s" % [y for y in a.locs() if y not in x][:3]
        skip = mod if support else ("W-005", "W-010")
        p, q = [[y for y in r.locs() if y[2] not in skip] for r in (a, b)]
        if p != q:
            return "installed %s, context %s" % ([y for y in p if y not in q][:5], [y for y in q if y not in p][:5])
        if everything:
            scanned = {p.rsplit("/", 1)[1] for p, w in where.items() if w in ("scan", "both")}
            gone = {"W-005", "W-010", "E-007", "S-009", "S-010"} | (set() if withclasses else {"E-008"})
            want = [y for y in FINDINGS if y[0] in scanned and y[2] not in gone]
            got = [y for y in a.locs() if y[2] not in gone]
            if got != want:
                return "unexpected %s, missing %s" % ([y for y in got if y not in want][:5], [y for y in want if y not in got][:5])
        return None
    return Case(f, [["-r", "src"], ["-s", "-r", "--context=ctx", "--context=av", "src"]], judge)


def broken(c):
    """an interface file among the headers that cannot be read or parsed fails the run, other files do not matter"""
    k = c.pick(sorted(BROKEN))
    where = c.pick(["include/kernel/", "include/", "", "include/.h/", "html/x/"])
    have = c.pick([[], ["if"], ["if", "tmpl"]])
    mode = c.pick(sorted(MODES))
    name, text, code = BROKEN[k]
    if not name.endswith(".if") or k == "dir-if" or mode != "normal":
        code = 0
    f = {DEVEL + where + name: text, "ctx/x.txt": "", "src/own.te": OWN_TE, "src/own.if": OWN_IF, "src/own.fc": OWN_FC}
    for h in have:
        f[DEVEL + "include/z" + h + "/" + ("oth.if" if h == "if" else "othtmpl.if")] = IFS if h == "if" else TMPL
    exp = sorted(header_expected(set(have) if mode == "normal" else set()))

    def judge(rs):
        r = rs[0]
        if r.code != code:
            return "%s: exit status %d, expected %d" % (k, r.code, code)
        got = [x for x in r.locs() if not x[2].startswith("F-")]
        if got != (exp if code == 0 else []):
            return "%s: findings %s" % (k, got)
        if code == 0 and got != r.locs():
            return "%s: F finding" % k
        return None
    return Case(f, [only(*CHECKS)[1:] + MODES[mode] + ["-r", "src"]], judge)


def transforms(c):
    """installed interfaces take part in the ordering of statements, through each other as well, with the layer they are installed in"""
    k = c.pick(sorted(TRANS))
    call, text, trans = TRANS[k]
    depth = c.choose(4)
    where = [c.pick(["src/", "hdr/"]) for _ in range(depth + 1)]
    layer = [c.pick(["kernel", "system", "apps"]) for _ in range(depth + 1)] if depth < 2 else ["apps"] * (depth + 1)
    suffix = c.pick(["", "z"])
    after = c.pick(["allow own_t self:file getattr;", "own_x(own_t)", "optional_policy(`\n\town_x(own_t)\n')"])
    f = {"src/x": (1, ""), "ctx/x": (1, ""), DEVEL + "include/x": (1, "")}

    def put(w, l, n, t):
        if w == "src/":
            f["src/%s/%s" % (l, n)] = t
        else:
            f["%sinclude/%s/%s" % (DEVEL, l, n)] = t
            f["ctx/%s/%s" % (l, n)] = t
    put(where[0], layer[0], "oth.if", text)
    name = "oth_i"
    for i in range(depth):
        nxt = "w%s%d_i" % (suffix, i)
        put(where[i + 1], layer[i + 1], "w%s%d.if" % (suffix, i),
            "## <summary>x</summary>\n## <summary>x</summary>\ninterface(`%s',`\n\t%s($1)\n')\n" % (nxt, name))
        name = nxt
    own = "policy_module(own,1.0)\ntype own_t;\n%s(own_t)\n%s\n%s(own_t)\n" % (name, after, name)
    f["src/apps/own.te"] = own
    argv = only("C-001")[1:] + ["-r", "src"]
    argv2 = only("C-001") + ["-r", "--context=ctx", "src"]

    def judge(rs):
        a, b = rs
        if a.code or b.code:
            return "exit status %s %s" % (a.code, b.code)
        if a.locs() != b.locs():
            return "installed %s, context %s" % (a.locs(), b.locs())
        return None
    return Case(f, [argv, argv2], judge)


FAULTY = {"src/own.te": OWN_TE, "src/own.if": OWN_IF, DEVEL + "include/a/oth.if": IFS, DEVEL + "include/b/othtmpl.if": TMPL,
          DEVEL + "include/c/kern.if": FILES["kernel/kernel.if"]}


def faults(c):
    """every open and read of a header fails, once or from then on"""
    p = c.pick(["oth.if", "othtmpl.if", "kern.if", ""])
    chunk = c.pick([1, 16, 4096])
    kind = 2 + c.choose(2)
    k = c.choose({1: 420, 16: 60, 4096: 16}[chunk])
    argv = only(*CHECKS)[1:] + ["-r", "src"]
    run = {"argv": argv, "fault_kind": kind, "fault_k": k, "chunk": chunk}
    if p:
        run["fault_path"] = p

    def judge(rs):
        r, ref = rs
        if r.points <= k:
            return None if r.locs() == ref.locs() and r.code == 0 else "no fault, other result"
        return failed(r, "%s, point %d" % (p, k))
    return Case(dict(FAULTY), [run, argv], judge)


def many(c):
    """the one header or class that matters among many"""
    n = c.pick([1, 2, 9, 33, 65, 129, 300])
    at = c.pick(["first", "second", "middle", "last", "none"])
    layout = c.pick(["flat", "nested", "layers"])
    i = {"first": 0, "second": min(1, n - 1), "middle": n // 2, "last": n - 1, "none": -1}[at]
    f = {"src/own.te": OWN_TE, "src/own.if": OWN_IF, "src/own.fc": OWN_FC}
    for j in range(n):
        d = "" if layout == "flat" else "d/" * (j % 7) if layout == "nested" else "p%d/" % j
        f["%sinclude/%sm%d.if" % (DEVEL, d, j)] = "# c\ninterface(`m%d_i',`\n\tallow $1 self:file getattr;\n')\n" % j
        if j == i:
            f["%sinclude/%soth.if" % (DEVEL, d)] = OTH_IF
    ks = {"k%d" % j: ["p%d" % j] for j in range(n)}
    if i >= 0:
        ks["file"] = ["read"]
    if c.flag():
        kernel(f, ks)
    exp = header_expected(set() if i < 0 else {"if", "tmpl"})
    if CLASSDIR + "k0/index" in f:
        # rules with class file, nosuch and file
        exp = exp + [("own.te", 8, "E-008")]
        if i < 0:
            exp += [("own.te", l, "E-008") for l in (4, 7, 9, 10)] + [("own.if", 4, "E-008")]
    return Case(f, [only(*CHECKS)[1:] + ["-r", "src"]], exact(exp))


def spaces(tier):
    return [
        Space("classes", classes, "all sets of 3 kernel classes and 3 permissions x 3 rules with up to 2 of 9 class names x 3 access_vectors files in the tree"),
        Space("classnames", classnames, "15 names of a kernel class x 15 names used x 1 or 2 classes"),
        Space("headernames", headernames, "12 names of a header x 6 layers x 3 layers of another one x both orders, installed and as context"),
        Space("headers", headers, "2 header files in 9 places x 4 modes x 11 misleading files x 2 ways to name the scanned files"),
        Space("partition", partition, "all partitions of 7 files into scanned, installed, both and absent x kernel classes x unused support files"),
        Space("broken", broken, "19 broken or foreign files x 5 directories x 3 sets of headers x 4 modes"),
        Space("transforms", transforms, "3 kinds of interface behind up to 3 others, each scanned or installed, in 3 layers"),
        Space("faults", faults, "every failing open and read of 3 headers, once and from then on, with 3 sizes of reads"),
        Space("many", many, "up to 300 headers and classes, one of them with the definitions, in 3 layouts"),
    ]
