"""Permission macros: S-009 (macro of another class) and S-010 (a macro could be used)."""
import itertools

from core import Case, Space
from stmts import exact, near, only

RULE = ("S-010: every set of up to 4 (5 thorough) of 25 permissions and 12 macros x 8 classes in a refpolicy-like environment, "
        "every subset of 9 macros, every order and nesting of definitions, every kind of rule and place.  S-009: every class "
        "list of up to 3 of 18 classes x 40 permission words, every position in longer lists.")
ASSUMPTIONS = ["S-010 is not judged when a used macro and an unused one fit equally well, nor under ~",
               "S-009 is not judged on lists with a class set behind another class"]

# ---------------------------------------------------------------- S-010
# permission -> permissions that usually go along with it (besides itself)
ALONG = {
    "ioctl": "", "getattr": "", "read": "ioctl getattr search lock", "lock": "getattr", "append": "getattr",
    "write": "ioctl getattr append lock", "create": "getattr link", "setattr": "getattr", "map": "ioctl getattr",
    "unlink": "getattr rmdir", "link": "getattr", "rename": "getattr", "open": "getattr", "execute": "read getattr map",
    "relabelfrom": "getattr", "relabelto": "getattr", "mounton": "getattr", "watch": "read",
    "add_name": "write ioctl getattr append lock", "remove_name": "write ioctl getattr append lock", "reparent": "getattr",
    "search": "getattr", "rmdir": "unlink getattr", "execute_no_trans": "execute read getattr map", "entrypoint": ""}
PERMS = list(ALONG)
ALONG = {k: set(v.split()) | {k} for k, v in ALONG.items()}
ALONG["rmdir"] |= {"unlink", "getattr", "rmdir"}
ALONG["entrypoint"] = {"entrypoint"}
CLASSES = {"dir": ["_dir_perms"], "file": ["_file_perms"], "lnk_file": ["_lnk_file_perms"], "chr_file": ["_chr_file_perms", "_term_perms"],
           "blk_file": ["_blk_file_perms"], "sock_file": ["_sock_file_perms"], "fifo_file": ["_fifo_file_perms"]}
SPECIAL = ["_lnk_file_perms", "_chr_file_perms", "_term_perms", "_blk_file_perms", "_sock_file_perms", "_fifo_file_perms"]


def macro_class(name):
    if name.endswith("_dir_perms"):
        return "dir"
    for s in SPECIAL:
        if name.endswith(s):
            return "chr_file" if s == "_term_perms" else s[1:-6]
    return "file" if name.endswith("_file_perms") else None


class Env:
    """macros: list of (name, [permission or macro]); the permissions of names without a definition are unknown"""

    def __init__(self, macros):
        self.defs = {}
        for n, ps in macros:
            self.defs.setdefault(n, ps)
        self.cat = {}
        self.memo = {}
        for n in self.defs:
            cl = macro_class(n)
            raw, ok = self.expand(n)
            if cl and ok:
                self.cat.setdefault(cl, []).append((n, raw))

    def expand(self, p, seen=()):
        """(known permissions, everything known)"""
        if p in ALONG:
            return frozenset([p]), True
        if p in seen or p not in self.defs:
            return frozenset(), False
        if not seen and p in self.memo:
            return self.memo[p]
        out, ok = set(), True
        for q in self.defs[p]:
            r, o = self.expand(q, seen + (p,))
            out |= r
            ok = ok and o
        if not seen:
            self.memo[p] = (frozenset(out), ok)
        return frozenset(out), ok

    def suggests(self, cls, words):
        """True / False / None (not covered)"""
        if cls not in CLASSES:
            return False
        exp = [self.expand(w) for w in words]
        used = set().union(*[e for e, _ in exp]) if exp else set()
        if len(used) < 2:
            return False
        ext = set()
        for u in used:
            ext |= ALONG[u]
        if ext & {"create", "write"}:
            ext |= {"setattr", "getattr"}
        if ext & {"create", "unlink"}:
            ext |= {"rename", "reparent", "getattr"}
        best = []
        key = None
        for name, raw in self.cat.get(cls, ()):
            if raw - ext:
                continue
            cov = len(raw & used)
            if cov < 2:
                continue
            if sum(1 for e, o in exp if o and e <= (raw & used)) < 2:
                continue
            k = (cov, -len(raw - used))
            if key is None or k > key:
                key, best = k, [name]
            elif k == key:
                best.append(name)
        if not best:
            return False
        in_use = [b in words for b in best]
        if all(in_use):
            return False
        if any(in_use):
            return None
        return True


def spt(macros, style=0):
    out = []
    for n, ps in macros:
        if style == 1:
            out += ["# about %s" % n, "define(`%s',`{ %s }')" % (n, " ".join(ps)), ""]
        elif style == 2:
            out.append("define(`%s',\t`{\n\t%s\n}')" % (n, "\n\t".join(ps)))
        else:
            out.append("define(`%s',`{ %s }')" % (n, " ".join(ps)))
    return "\n".join(out) + "\n"


def family(x, d=False):
    """a refpolicy-like family for the class suffix x"""
    if d:
        return [("getattr_dir_perms", ["getattr"]), ("search_dir_perms", ["getattr", "search", "open"]),
                ("list_dir_perms", ["getattr", "search", "open", "read", "lock", "ioctl"]),
                ("add_entry_dir_perms", ["getattr", "search", "open", "lock", "ioctl", "write", "add_name"]),
                ("del_entry_dir_perms", ["getattr", "search", "open", "lock", "ioctl", "write", "remove_name"]),
                ("rw_dir_perms", ["open", "read", "getattr", "lock", "search", "ioctl", "add_name", "remove_name", "write"]),
                ("create_dir_perms", ["getattr", "create"]), ("rename_dir_perms", ["getattr", "rename"]),
                ("delete_dir_perms", ["getattr", "rmdir"]),
                ("manage_dir_perms", ["create", "open", "getattr", "setattr", "read", "write", "link", "rename", "search", "add_name",
                                      "remove_name", "reparent", "rmdir", "lock", "ioctl", "unlink"]),
                ("relabel_dir_perms", ["getattr", "relabelfrom", "relabelto"]), ("setattr_dir_perms", ["setattr"])]
    return [(n % x, [p % x if "%" in p else p for p in ps]) for n, ps in [
        ("getattr_%s_perms", ["getattr"]), ("setattr_%s_perms", ["setattr"]), ("read_inherited_%s_perms", ["getattr", "read", "lock", "ioctl"]),
        ("read_%s_perms", ["open", "read_inherited_%s_perms"]), ("mmap_read_%s_perms", ["getattr", "open", "map", "read", "ioctl"]),
        ("exec_%s_perms", ["getattr", "open", "map", "read", "execute", "ioctl", "execute_no_trans"]),
        ("append_%s_perms", ["open", "getattr", "append", "lock", "ioctl"]), ("write_%s_perms", ["open", "getattr", "write", "append", "lock", "ioctl"]),
        ("rw_inherited_%s_perms", ["getattr", "read", "write", "append", "ioctl", "lock"]), ("rw_%s_perms", ["open", "rw_inherited_%s_perms"]),
        ("create_%s_perms", ["getattr", "create", "open"]), ("rename_%s_perms", ["getattr", "rename"]),
        ("delete_%s_perms", ["getattr", "unlink"]),
        ("manage_%s_perms", ["create", "open", "getattr", "setattr", "read", "write", "append", "rename", "link", "unlink", "ioctl", "lock"]),
        ("relabel_%s_perms", ["getattr", "relabelfrom", "relabelto"]), ("odd_%s_perms", ["getattr", "open", "execmod"])]]


REF = family("file") + family("dir", True) + family("lnk_file") + family("chr_file") + [("rw_term_perms", ["getattr", "open", "read", "write", "ioctl"])] \
    + family("fifo_file") + [("read_blk_file_perms", ["getattr", "open", "read", "lock", "ioctl"]),
                             ("write_sock_file_perms", ["getattr", "write", "open", "append"])]
REFENV = Env(REF)
AV = "class file { getattr }\n"


def s010(env, macros, rules, files=None, fmt=None, style=0, tail=(), head=("policy_module(own,1.0)", "type own_t;"), name="own.te"):
    """rules: (class text, [classes], words)"""
    lines, exp = list(head), []
    for ctext, classes, words in rules:
        f = fmt or "allow own_t own_t:%s { %s };"
        v = env.suggests(classes[0], words) if len(classes) == 1 and f.startswith("allow") else False
        if v is None:
            continue
        lines.append(f % (ctext, " ".join(words)))
        if v:
            exp.append((name, len(lines), "S-010"))
    lines += list(tail)
    fs = {"access_vectors": AV, "obj_perm_sets.spt": spt(macros, style), name: "\n".join(lines) + "\n"}
    fs.update(files or {})
    return Case(fs, [only("S-010") + ["-r", "."]], exact(exp))


def subsets(n):
    """all sets of up to n permissions of a class"""
    def body(c):
        cls = c.pick(["file", "dir", "chr_file", "lnk_file"] if n > 3 else sorted(CLASSES) + ["process", "files"])
        pool = PERMS + [m for m, _ in REF if macro_class(m) == cls][:12] + ["nosuch"]
        first = c.pick(pool)
        rest = pool[pool.index(first) + 1:]
        second = c.pick([None] + rest)
        if second is None:
            combos = [[first]]
        else:
            r2 = rest[rest.index(second) + 1:]
            combos = [[first, second] + list(x) for k in range(0, n - 1) for x in itertools.combinations(r2, k)]
        return s010(REFENV, REF, [(cls, [cls], w) for w in combos])
    return body


SMALL = [("getattr_file_perms", ["getattr"]), ("read_file_perms", ["getattr", "open", "read", "lock", "ioctl"]),
         ("write_file_perms", ["getattr", "open", "write", "append", "lock", "ioctl"]), ("r_file_perms", ["open", "read"]),
         ("rw_file_perms", ["read_file_perms", "write_file_perms"]), ("exec_file_perms", ["read_file_perms", "map", "execute"]),
         ("create_file_perms", ["create", "getattr"]), ("mixed_file_perms", ["open", "create", "nosuch"]),
         ("loop_file_perms", ["read", "open", "loop_file_perms"])]
SMALLRULES = [w for k in (2, 3, 4) for w in itertools.combinations(
    ["getattr", "open", "read", "write", "execute", "create", "read_file_perms", "write_file_perms", "getattr_file_perms"], k)]


def macro_sets(c):
    """every subset of the macros; the suggestion depends on exactly the defined ones"""
    ms = c.subset(SMALL)
    order = c.flag()
    if order:
        ms = ms[::-1]
    ms = ms + [("other_thing_perms", ["read", "open"])]
    style = c.pick([0, 1]) if len(ms) < 4 else 0
    return s010(Env(ms), ms, [("file", ["file"], list(w)) for w in SMALLRULES], style=style)


def definition_orders(c):
    """nested macros in every order"""
    ms = c.perm([("a_file_perms", ["getattr", "open"]), ("b_file_perms", ["a_file_perms", "read"]), ("c_file_perms", ["b_file_perms", "write"]),
                 ("d_file_perms", ["c_file_perms", "b_file_perms", "lock"]), ("e_file_perms", ["d_file_perms", "create", "x_file_perms"])])
    x = c.pick([None, "first", "last"])
    if x:
        m = ("x_file_perms", ["setattr"])
        ms = [m] + ms if x == "first" else ms + [m]
    style = c.choose(3)
    return s010(Env(ms), ms, [("file", ["file"], list(w)) for k in (2, 3) for w in itertools.combinations(
        ["getattr", "open", "read", "write", "lock", "create", "setattr", "a_file_perms", "b_file_perms", "c_file_perms"], k)], style=style)


NAMES = ["x_dir_perms", "x_file_perms", "x_lnk_file_perms", "x_chr_file_perms", "x_blk_file_perms", "x_sock_file_perms", "x_fifo_file_perms",
         "x_term_perms", "file_perms", "dir_perms", "xfile_perms", "x_file_perm", "x_file_permss", "x_dirs_perms", "x_process_perms",
         "x_y_file_perms", "x_y_dir_perms", "_file_perms", "x_file_socket_perms", "X_file_perms"]


def macro_names(c):
    """which class a macro is for"""
    name = c.pick(NAMES)
    other = c.pick([None, "y_file_perms", "y_dir_perms", "y_term_perms"])
    ms = [(name, ["open", "read"])] + ([(other, ["open", "write"])] if other else [])
    if name.startswith("_") or not name.endswith("_perms"):
        # not a word of the language / not a permission macro
        if name.startswith("_"):
            return None
        ms = ms[1:] + [(name, ["open", "read"])]
        env = Env([m for m in ms if m[0].endswith("_perms")])
    else:
        env = Env(ms)
    cls = sorted(CLASSES) + ["process", "socket", "files", "File"]
    return s010(env, ms, [(k, [k], w) for k in cls for w in (["open", "read"], ["open", "write"], ["read", "write"], ["read"],
                                                             ["open", "read", "write"])])


FMT = ["allow own_t own_t:%s { %s };", "allow own_t self:%s { %s };", "allow { own_t own_t } { own_t -own_t }:%s { %s };",
       "dontaudit own_t own_t:%s { %s };", "auditallow own_t own_t:%s { %s };", "neverallow own_t own_t:%s { %s };",
       "allow $1 own_t:%s { %s };"]


def places(c):
    """kind of rule, class lists, place of the rule, place of the definitions"""
    fmt = c.pick(FMT)
    place = c.pick(["te", "optional", "if", "template", "tunable"])
    sptplace = c.pick([".", "support", "a/b/c"])
    ctext = c.pick([("file", ["file"]), ("{ file }", ["file"]), ("{ file dir }", ["file", "dir"]), ("file_class_set", ["file_class_set"]),
                    ("{ file file }", ["file", "file"]), ("dir", ["dir"]), ("$2", ["$2"])])
    av = c.flag()
    words = [["open", "read"], ["open", "read", "getattr", "lock", "ioctl"], ["read_file_perms"], ["read_file_perms", "open"],
             ["getattr_file_perms", "open", "read"], ["read"], ["read_file_perms", "write_file_perms"], ["search", "open"]]
    if place in ("te", "optional", "tunable"):
        fmt = fmt.replace("$1", "own_t")
    head = {"te": ["policy_module(own,1.0)", "type own_t;"], "optional": ["policy_module(own,1.0)", "optional_policy(`"],
            "tunable": ["policy_module(own,1.0)", "tunable_policy(`b',`"], "if": ["# c", "interface(`own_i',`"],
            "template": ["# c", "template(`own_i',`"]}[place]
    tail = ["')"] if place != "te" else []
    case = s010(REFENV, REF, [ctext + (w,) for w in words], fmt=fmt, head=head, tail=tail, name="own.if" if place in ("if", "template") else "own.te")
    if sptplace != ".":
        case.files[sptplace + "/obj_perm_sets.spt"] = case.files.pop("obj_perm_sets.spt")
    if not av:
        del case.files["access_vectors"]
    return case


def list_forms(c):
    """single permissions, repeated and ordered differently, long lists"""
    ws = c.pick([["open", "read"], ["getattr", "open", "read", "lock", "ioctl"], ["open", "write", "append"], ["create", "open", "getattr"]])
    perms = list(itertools.permutations(ws)) if len(ws) < 5 else list(itertools.permutations(ws))[::7]
    pad = c.pick([[], ["nosuch"], ["nosuch"] * 40, ws[:1] * 3, ["execmod", "quotaon"], ["audit_access"]])
    at = c.pick(["front", "back"])
    rules = []
    for p in perms:
        w = list(pad) + list(p) if at == "front" else list(p) + list(pad)
        rules.append(("file", ["file"], w))
    return s010(REFENV, REF, rules)


def names(xs):
    """those that are words of the policy language"""
    return [x for i, x in enumerate(xs) if x and x not in xs[:i] and (x[0].isalpha()) and all(ch.isalnum() or ch in "_-." for ch in x)]


SUFFIXES = ["_dir_perms"] + SPECIAL + ["_file_perms"]


def close_names(c):
    """macros with a name close to that of a macro for a class are for no class or for another one"""
    suf = c.pick(SUFFIXES)
    ms = names([p + s for p in ("x", "rw", "x_y") for s in near(suf) + [suf[1:], suf[:-6] + "perms", suf[:-6] + "_perm", suf[:-6] + "s_perms", suf[:-6] + "_perms_x", suf[:-6], "_perms" + suf[:-6], suf[:-6] + "_xperms"]
                + [o + s for o in SUFFIXES for s in (suf, "_perms", "_x_perms")]])
    name = c.pick(ms)
    pos = c.pick(["alone", "first", "last"])
    m = [(name, ["open", "read"])]
    o = [("y" + suf, ["open", "write"])]
    m = m if pos == "alone" else m + o if pos == "first" else o + m
    # another macro with this one in it is for all of its permissions, or unknown
    m.append(("zz_file_perms", [name, "map"]))
    env = Env([x for x in m if x[0].endswith("_perms")])
    return s010(env, m, [("file", ["file"], ["open", "read", "map"]), ("file", ["file"], ["open", "map"])] + [(k, [k], w) for k in sorted(CLASSES) for w in (["open", "read"], ["open", "write"], ["read", "write"], ["open", "read", "write"], [name, "open"])])


def close_classes(c):
    """the macros of a class are suggested for this class only"""
    k = c.pick(sorted(CLASSES))
    x = c.pick(names(near(k) + [k + "s", "my" + k, "not_" + k, k + "_socket", k[:2], k + k]))
    if x in CLASSES and x != k:
        return None
    ms = c.pick([REF, [("x" + s, ["open", "read"]) for s in SUFFIXES]])
    fmt = c.pick(FMT[:3])
    return s010(Env(ms), ms, [(x, [x], w) for w in (["open", "read"], ["open", "write"], ["open", "read", "getattr", "lock", "ioctl"], ["getattr", "search", "open"], ["open", "read", "write"])], fmt=fmt)


# ---------------------------------------------------------------- S-009
CL = ["file", "dir", "lnk_file", "chr_file", "blk_file", "sock_file", "fifo_file", "process", "socket", "tcp_socket", "unix_stream_socket",
      "netlink_route_socket", "netlink_audit_socket", "capability", "dbus", "filesystem", "key_socket", "term"]
WORDS = ["read_file_perms", "read_dir_perms", "read_lnk_file_perms", "rw_chr_file_perms", "rw_term_perms", "rw_blk_file_perms",
         "write_sock_file_perms", "rw_fifo_file_perms", "signal_perms", "all_process_perms", "rw_socket_perms", "create_stream_socket_perms",
         "create_netlink_socket_perms", "r_netlink_route_socket_perms", "rw_tcp_socket_perms", "all_dbus_perms", "all_capability_perms",
         "read", "getattr", "read_file_perm", "perms_read", "read_files_pattern", "send_msg", "x_filesystem_perms", "read_inherited_file_perms"]


def fits(word, classes):
    """does the macro's suffix name (a class comprising) every class of the rule"""
    if not word.endswith("_perms"):
        return True
    stem = word[:-len("_perms")]

    def ends(x):
        return stem == x or stem.endswith("_" + x)
    alias = {"chr_file": "term", "process": "signal"}
    if all(ends(k) or k in alias and ends(alias[k]) for k in classes):
        return not ("file" in classes and any(ends(x) for x in ("lnk_file", "chr_file", "blk_file", "sock_file", "fifo_file")))
    if all(k.startswith("netlink_") for k in classes):
        return stem.endswith("_socket")
    if all(k.endswith("_socket") for k in classes):
        return stem.endswith("_socket") and not stem.endswith("netlink_socket")
    return False


def tricky(word, classes):
    """suffix matches that do not begin at a word boundary"""
    stem = word[:-len("_perms")]
    return word.endswith("_perms") and any(stem.endswith(k) and stem != k and not stem.endswith("_" + k) for k in list(classes) + ["term", "signal", "lnk_file", "chr_file", "blk_file", "sock_file", "fifo_file"])


def s009(rules, fmt="allow own_t own_t:%s %s;"):
    lines, exp = ["policy_module(own,1.0)", "type own_t;"], []
    for classes, words in rules:
        if any(tricky(w, classes) for w in words):
            continue
        ct = classes[0] if len(classes) == 1 else "{ %s }" % " ".join(classes)
        wt = words[0] if len(words) == 1 else "{ %s }" % " ".join(words)
        lines.append(fmt % (ct, wt))
        if not classes[0].endswith("_class_set") and any(not fits(w, classes) for w in words):
            exp.append(("own.te", len(lines), "S-009"))
    return Case({"own.te": "\n".join(lines) + "\n"}, [only("S-009") + ["own.te"]], exact(exp))


def class_lists(n):
    def body(c):
        a = c.pick(CL)
        b = c.pick([None] + CL)
        if b is None:
            return s009([([a], [w]) for w in WORDS])
        more = [[]] if n < 3 else [[]] + [[x] for x in CL]
        return s009([([a, b] + m, [w]) for m in more for w in WORDS])
    return body


def word_lists(c):
    """one unfitting macro anywhere in a list is enough, and is reported once"""
    classes = c.pick([["file"], ["dir"], ["tcp_socket"], ["netlink_route_socket"], ["chr_file"], ["process"], ["file", "dir"],
                      ["tcp_socket", "udp_socket"], ["lnk_file", "chr_file"]])
    a = c.pick(WORDS)
    return s009([(classes, [a, b]) for b in WORDS] + [(classes, [a, b, d]) for b in WORDS[::2] for d in WORDS[1::2]])


def long_word_lists(c):
    n = c.pick([1, 2, 33, 200])
    pos = c.pick(["none", "first", "middle", "last"])
    good, bad, cl = c.pick([("read_file_perms", "read_dir_perms", "file"), ("getattr", "rw_fifo_file_perms", "file"),
                            ("rw_socket_perms", "signal_perms", "tcp_socket"), ("r_dir_perms", "r_file_perms", "dir")])
    words = [good] * n
    i = {"first": 0, "middle": n // 2, "last": n - 1}.get(pos)
    if i is not None:
        words[i] = bad
    many = c.pick([1, 30])
    return s009([([cl], words)] * many)


def other_rules(c):
    fmt = c.pick(["dontaudit own_t own_t:%s %s;", "auditallow own_t own_t:%s %s;", "neverallow own_t own_t:%s %s;", "allow own_t self:%s %s;",
                  "allow own_t own_t:%s { getattr %s };", "allow own_t own_t:%s { %s getattr };", "allow own_t own_t:%s { read %s write };"])
    return s009([(k, [w]) for k in [["file"], ["dir"], ["process"], ["file_class_set"], ["socket_class_set"], ["tcp_socket"],
                                     ["chr_file", "blk_file"], ["file", "lnk_file"], ["$1"]] for w in WORDS
                 if k != ["$1"] or "perms" not in w], fmt)


def close_words(c):
    """macro and class names close to each other or to the families of sockets"""
    stem = c.pick(CL + ["netlink_socket", "signal", "x_socket", "stream_socket"])
    how = c.pick(["macro", "class"])
    fmt = c.pick(["allow own_t own_t:%s %s;", "allow own_t own_t:%s { getattr %s };"])
    if how == "macro":
        ws = names([p + x for p in ("rw_", "", "rw") for x in near(stem + "_perms") + [stem + "_perms_x_socket_perms", stem + "_perms_file_perms", "dir_perms_%s_perms" % stem, stem + "_perm", stem + "perms", stem + "_permsx", "perms_" + stem, stem + "_perms_" + stem, stem + "_x_perms", "x" + stem + "_perms",
                                                                                       stem.upper() + "_perms", stem + "s_perms", stem[:-1] + "_perms", stem[1:] + "_perms"]])
        w = c.pick(ws)
        return s009([([k], [w]) for k in CL] + [(["dir", "file"], [w]), (["chr_file", "file"], [w]), (["process", stem], [w]), (["netlink_route_socket", "netlink_audit_socket"], [w]), (["tcp_socket", "udp_socket"], [w])], fmt)
    ks = names(near(stem) + [stem + "s", "my" + stem, "my_" + stem, stem + "_socket", "netlink_" + stem, "netlink" + stem, "xnetlink_" + stem, "netlin_" + stem, "net_" + stem, "Netlink_" + stem + "_socket",
                             "netlink_" + stem + "_socket", "x_netlink_socket", "netlin_x_socket", "x_sockets", "x_socket_x", "xsocket", "x_Socket", "socket_x", "socket", "netlink", "netlinkx_socket",
                             stem + "_class_se", stem + "_class_setx", stem + "class_set", "class_set_" + stem, stem + "_class_set_x", stem + "_Class_set"])
    k = c.pick(ks)
    second = c.pick([None, "file", "tcp_socket", "netlink_route_socket"])
    if k.endswith("_class_set"):
        return None
    ws = WORDS + ["%s_perms" % k, "rw_%s_perms" % k, "rw_%s_perms" % stem]
    cl = [k] if not second else [k, second]
    return s009([(cl, [w]) for w in ws] + ([(cl[::-1], [w]) for w in ws] if second else []), fmt)


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("suggest", subsets(3), "all sets of up to 3 of 38 words x 9 classes, refpolicy-like macros"),
        Space("suggest-deep", subsets(5 if deep else 4), "all sets of up to 4 (5 thorough) of 38 words x 4 classes"),
        Space("suggest-macro-sets", macro_sets, "all subsets of 9 macros in 2 orders, 246 rules each"),
        Space("suggest-definition-orders", definition_orders, "all 120 orders of 5 nested macros x 3 positions of another x 3 spellings"),
        Space("suggest-macro-names", macro_names, "20 macro names x 4 others, 11 classes x 5 permission sets each"),
        Space("suggest-places", places, "7 rule forms x 7 class forms x 5 places x 3 places of the definitions"),
        Space("suggest-lists", list_forms, "all orders of 4 permission sets x 6 paddings x 2 positions"),
        Space("close-names", close_names, "some 45 macro names close to each of 8 class suffixes x 3 positions, 7 classes x 5 permission sets each"),
        Space("close-classes", close_classes, "some 20 class names close to each of 7 x 2 sets of macros x 3 rule forms"),
        Space("close-words", close_words, "some 60 macro names and 40 class names close to each of 22 x 2 rule forms, 20-50 rules each"),
        Space("classes", class_lists(3 if deep else 2), "all lists of up to 2 (3 thorough) of 18 classes x 25 words"),
        Space("classes-words", word_lists, "9 class lists x all pairs and 4000 triples of 25 words"),
        Space("long-lists", long_word_lists, "4 lengths to 200 x 4 positions x 4 classes x number of rules"),
        Space("rules", other_rules, "7 rule forms x 9 class lists x 25 words"),
    ]
