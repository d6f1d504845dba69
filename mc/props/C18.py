"""Which files are scanned: by suffix, below the given paths, hidden directories only on request."""
from core import Case, Space
from stmts import exact, only

RULE = ("Every directory tree of up to 3 (4 thorough) entries of 12 kinds, 4 (5) of 6 kinds and 5 (6) of 4 kinds x -r x --scan-hidden-dirs x root spelling; every "
        "list of up to 3 paths of a fixed tree; every file name of up to 4 (5 thorough) pieces; depths to 40, up to 2000 entries.")
ASSUMPTIONS = ["no file is given twice, and a hidden directory is not itself given as a path",
               "a policy file is a regular file or a symbolic link to one"]

BASE = only("S-003", "S-005", "E-002")
SUFFIX = {"te": ("S-003", 2), "if": ("S-005", 3), "fc": ("E-002", 1)}


def content(name):
    mod = "m"
    suf = name[-3:]
    if suf == ".te":
        return "policy_module(%s,1.0)\n;\n" % mod
    if suf == ".if":
        return "# c\ninterface(`m_%s',`\n\ttype x_t;\n')\n" % "i"
    return "bad\n"


def is_dir(v):
    return isinstance(v, tuple) and v[0] == 1


def policy(name):
    return name[-3:] in (".te", ".if", ".fc")


def norm(p):
    out = []
    for x in p.split("/"):
        if x in ("", "."):
            continue
        if x == "..":
            out.pop()
        else:
            out.append(x)
    return "/".join(out)


def scanned(files, roots, recursive, hidden):
    """the reference: base names of the policy files found"""
    got = []
    for r in roots:
        n = norm(r)
        v = files.get(n)
        if v is not None and not is_dir(v):
            if policy(n):
                got.append(n.rsplit("/", 1)[-1])
            continue
        if not recursive:
            continue
        pre = n + "/" if n else ""
        for p, v in files.items():
            if not p.startswith(pre) or is_dir(v):
                continue
            parts = p[len(pre):].split("/")
            if not hidden and any(d.startswith(".") and not d.startswith("..") for d in parts[:-1]):
                continue
            if not policy(parts[-1]):
                continue
            if isinstance(v, tuple) and norm("/".join(p.split("/")[:-1] + [v[1]])) not in files:
                continue
            got.append(parts[-1])
    return [(b, SUFFIX[b[-2:]][1], SUFFIX[b[-2:]][0]) for b in got]


KINDS = ["te", "if", "fc", "txt", "dotfile", "dir", "hidden", "dotdot", "te-dir", "link", "link-txt", "link-dir"]
HOLDS = {"dir": "d%d", "hidden": ".h%d", "dotdot": "..d%d", "te-dir": "d%d.te"}


def grow(c, files, prefix, budget, depth, kinds):
    while budget[0] > 0:
        ks = [k for k in kinds if depth > 1 or k not in HOLDS]
        k = c.pick(["end"] + ks)
        if k == "end":
            return
        budget[0] -= 1
        n = len(files)
        up = "../" * (prefix.count("/"))
        if k in HOLDS:
            d = prefix + HOLDS[k] % n
            files[d] = (1, "")
            grow(c, files, d + "/", budget, depth - 1, kinds)
        elif k == "link":
            files[prefix + "l%d.te" % n] = (2, up + "store/real.data")
        elif k == "link-txt":
            files[prefix + "l%d.txt" % n] = (2, up + "nowhere")
        elif k == "link-dir":
            files[prefix + "ld%d" % n] = (2, up + "store/dir")
        else:
            name = {"te": "f%d.te", "if": "f%d.if", "fc": "f%d.fc", "txt": "f%d.txt", "dotfile": ".f%d.te"}[k] % n
            files[prefix + name] = content(name)


STORE = {"store/real.data": content("x.te"), "store/dir/inner.te": content("x.te")}


def trees(size, depth, kinds):
    def body(c):
        f = dict(STORE)
        f["root"] = (1, "")
        grow(c, f, "root/", [size], depth, kinds)
        rec = c.flag()
        hid = c.flag()
        root = c.pick(["root", "root/", "./root", "."])
        if not rec and (hid or root == "."):
            return None
        # two interfaces of one name are told apart by nothing: fine, only S-005 is looked at
        argv = BASE + (["-r"] if rec else []) + (["--scan-hidden-dirs"] if hid else []) + [root]
        return Case(f, [argv], exact(scanned(f, [root], rec, hid)))
    return body


FIXED = {p: content(p) for p in ("a.te", "b.if", "c.fc", "d/e.te", "d/f.if", "d/g/h.fc", "d/.i/j.te", "d/g/..k/l.te", "m.te/n.te", "o/p.if.te",
                                 "q/.r.fc", "s t/u v.te", ".w/x.te", ".w/y/z.if")}
FIXED.update({"d/text": "x", "q/notes.txt": "x", "link.te": (2, "a.te"), "linkdir": (2, "d"), "o/te": "x", "o/xte": "x", "o/fc": "x"})
PATHS = ["a.te", "b.if", "c.fc", "d", "d/", "d/e.te", "d/g", "d/g/h.fc", "./d/f.if", "d/../a.te", "d//e.te", "d/.i/j.te", "m.te", "m.te/n.te", "o",
         "q", "q/.r.fc", "s t", "s t/u v.te", "d/text", "link.te", "linkdir", "nowhere", "nowhere/d", ".", "..", "./", "d/.", ".w/x.te", ".w/y"]


def paths(k):
    def body(c):
        n = 1 + c.choose(k)
        ps = [c.pick(PATHS if k < 3 else PATHS[:24]) for _ in range(n)]
        rec = c.flag()
        hid = c.flag() if rec else False
        if ".." in ps:
            return None
        # a file reached through two of the paths is outside the property
        found = []
        for p in ps:
            part = scanned(FIXED, [p], rec, True)
            np = norm(p)
            if np in FIXED and not is_dir(FIXED[np]):
                keys = [np]
            elif rec:
                keys = [x for x in FIXED if x.startswith(np + "/" if np else "")]
            else:
                keys = []
            if any(x in found for x in keys):
                return None
            found += keys
        exp = scanned(FIXED, ps, rec, hid)
        argv = BASE + (["-r"] if rec else []) + (["--scan-hidden-dirs"] if hid else []) + ps
        return Case(dict(FIXED), [argv], exact(exp, str(ps)))
    return body


PIECES = [".", "t", "e", "te", ".te", ".if", ".fc", "i", "f", "c", ".T", "~", "x", " ", "..", "-"]


def names(n):
    def body(c):
        name = "".join(c.pick(PIECES) for _ in range(1 + c.choose(n)))
        if name in (".", "..", ".te", ".if", ".fc") or name.startswith("-"):
            return None
        f = {"root/" + name: content(name) if policy(name) else "garbage (\n"}
        mode = c.pick(["recursive", "given"])
        argv = BASE + (["-r", "root"] if mode == "recursive" else ["root/" + name])
        return Case(f, [argv], exact(scanned(f, ["root"] if mode == "recursive" else ["root/" + name], mode == "recursive", False)))
    return body


def sizes(c):
    kind = c.pick(["depth", "width", "name", "roots"])
    n = c.pick([1, 2, 9, 10, 33, 40, 100, 128, 200, 251, 1000, 2000])
    hidden_at = c.pick([None, "first", "last"])
    f = {}
    roots = ["root"]
    if kind == "depth":
        if n > 40:
            return None
        ds = ["d%d" % i for i in range(n)]
        if hidden_at:
            ds[0 if hidden_at == "first" else -1] = ".hid"
        for i in range(n + 1):
            f["/".join(["root"] + ds[:i] + ["f%d.te" % i])] = content("x.te")
    elif kind == "width":
        for i in range(n):
            s = ("te", "if", "fc")[i % 3]
            f["root/f%d.%s" % (i, s)] = content("x." + s)
        if hidden_at:
            f["root/.hid/x.te"] = content("x.te")
    elif kind == "name":
        if n > 251:
            return None
        for s in SUFFIX:
            f["root/" + "n" * n + "." + s] = content("x." + s)
            f["root/" + "n" * n + s] = "garbage ("
        if hidden_at:
            f["root/." + "h" * n + "/x.te"] = content("x.te")
    else:
        if n > 1000:
            return None
        roots = []
        for i in range(n):
            f["r%d/f%d.te" % (i, i)] = content("x.te")
            roots.append("r%d" % i if i % 2 else "r%d/f%d.te" % (i, i))
    hid = c.flag()
    argv = BASE + ["-r"] + (["--scan-hidden-dirs"] if hid else []) + roots
    return Case(f, [argv], exact(scanned(f, roots, True, hid), "%s %d" % (kind, n)))


def options(c):
    """the options of a scan, in any place and spelling"""
    opts = [c.pick([[], ["-r"], ["--recursive"]]), c.pick([[], ["--scan-hidden-dirs"]]), c.pick([[], ["-s"], ["--source"]]),
            c.pick([[], ["-v"], ["-S"], ["-F"]])]
    order = c.perm(range(4))
    rec, hid = bool(opts[0]), bool(opts[1])
    fail = opts[3] == ["-F"]
    target = c.pick(["root", "root/d.te", "root/.h/x.te"])
    pos = c.pick(["before", "after"])
    f = {"root/a.te": content("x.te"), "root/.h/x.te": content("x.te"), "root/d.te/y.if": content("x.if"), "root/z/t.fc": content("x.fc")}
    o = [x for i in order for x in opts[i]]
    exp = scanned(f, [target], rec, hid)
    # an explicitly given file is scanned wherever it lies
    argv = BASE[1:] + (o + [target] if pos == "before" else [target] + o)
    return Case(f, [argv], exact(exp, "", 65 if fail and exp else 0))


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("trees", trees(4 if deep else 3, 3, KINDS), "all trees of up to 3 (4 thorough) entries of 12 kinds, depth 3 x 6 commands"),
        Space("some-trees", trees(5 if deep else 4, 3, ["te", "dir", "hidden", "link", "dotdot", "te-dir"]),
              "all trees of up to 4 (5 thorough) entries of 6 kinds, depth 3 x 6 commands"),
        Space("deep-trees", trees(6 if deep else 5, 5, ["te", "dir", "hidden", "fc"]), "all trees of up to 5 (6 thorough) entries of 4 kinds, depth 5"),
        Space("paths", paths(2), "all pairs of 30 paths x -r x --scan-hidden-dirs"),
        Space("paths-3", paths(3), "all triples of 24 paths x -r x --scan-hidden-dirs"),
        Space("names", names(5 if deep else 4), "all names of up to 4 (5 thorough) of 16 pieces, found and given"),
        Space("sizes", sizes, "depths to 40, up to 2000 files, names to 254 characters, 1000 paths"),
        Space("options", options, "4 options in all orders and spellings before and after 3 paths"),
    ]
