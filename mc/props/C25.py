"""Every finding names the culprit."""
import re

from core import Case, Space
from props.C06 import ENVFILES, K, NODES, assemble, cfg, rank
from props.C13 import ALONG, CLASSES, Env
from stmts import USES, only

RULE = ("One statement or line per case with every choice of culprits and innocents among its names: 48 statement forms with up to 3 foreign "
        "names of 3 modules and 4 kinds, every subset of them required; all require blocks of up to 4 declarations; all argument lists of up "
        "to 3 arguments; all permission lists of up to 4 words; all file context lines over 3 kinds of path, user, role and type; all "
        "sequences of up to 4 of 9 statement kinds for C-001.")
ASSUMPTIONS = ["policy names start with zz in most cases, so that they can be told from the words of a message; the wording itself is not judged",
               "when several names are culprits in one statement any of them may be named"]

TOKEN = re.compile(r"\$?[A-Za-z0-9_.*+$-]+")


def tokens(msg, words):
    return [t for t in (x.strip(".") for x in TOKEN.findall(msg)) if t.startswith("zz") or t.lower() in words]


def said(expected, words=(), ordered=(), note=""):
    """expected: [(file, line, id, [acceptable token lists])]; the findings have to be these, and the policy names
    (and the words) in the message of each one of the lists"""
    exp = sorted(expected, key=lambda x: (x[:3], sorted(x[3][0])))

    def judge(rs):
        r = rs[0]
        if r.code != 0:
            return "%s: exit status %d" % (note, r.code)
        got = sorted(((f, l, i, m, s) for f, l, s, m, i in r.findings), key=lambda x: (x[:3], sorted(tokens(x[3], words))))
        a, b = [x[:3] for x in got], [x[:3] for x in exp]
        if a != b:
            return "%s: unexpected %s, missing %s" % (note, [x for x in a if x not in b][:4], [x for x in b if x not in a][:4])
        for g, e in zip(got, exp):
            if g[4] != g[2][0]:
                return "%s: severity %s of %s" % (note, g[4], g[2])
            t = [x.lower() if x.lower() in words else x for x in tokens(g[3], words)]
            ok = [list(x) for x in e[3]]
            if g[2] not in ordered:
                t, ok = sorted(t), [sorted(x) for x in ok]
            if t not in ok:
                return "%s: %s line %d names %s in %r, culprits %s" % (note, g[2], g[1], t, g[3], ok[:4])
        return None
    return judge


# ---------------------------------------------------------------- W-001, W-002
DECLS = {"type": "type %s;", "attribute": "attribute %s;", "role": "role %s;", "attribute_role": "attribute_role %s;"}
KINDWORDS = {"type": ["type"], "attribute": ["attribute"], "role": ["role"], "attribute_role": ["role", "attribute"]}
WORDS = {"type", "attribute", "role", "user", "class", "bool", "tunable"}
OWNERS = ["zzmoda", "zzmodb", "zzmodc"]


def slots(form):
    return form.count("%s")


MULTI = [
    ("allow-sets", "allow { %s %s } %s:file a;", 3), ("allow-sets2", "allow %s { own_t %s %s }:file a;", 3),
    ("tt", "type_transition %s %s:file %s;", 3), ("xperm", "allowxperm %s { %s %s }:file ioctl 0x1;", 3), ("call", "some_call(%s, %s, %s)", 3),
    ("call-set", "some_call({ %s %s }, own_t, %s)", 3), ("typeattribute", "typeattribute %s %s, %s;", 3), ("bounds", "typebounds %s %s;", 2),
    ("role-types", "role %s types { %s %s };", 3), ("allow2", "allow %s %s:file a;", 2), ("except", "allow %s { own_a -%s }:file a;", 2),
    ("type_change", "type_change %s %s:file own_t;", 2), ("range", "range_transition %s %s:process s0;", 2),
    ("role_transition", "role_transition %s %s %s;", 3), ("role-allow", "allow %s { own_r %s };", 2), ("roleattribute", "roleattribute %s %s;", 2),
] + [(n, f, 1) for n, f in USES]


def foreign(c):
    """each foreign name in a statement: kinds and owners in any combination, any subset of them required"""
    name, form, n = c.pick(MULTI)
    if name in ("role-types", "role_transition", "role-allow", "roleattribute") or name.startswith("role"):
        kinds = ["role", "attribute_role"] if n < 3 else ["role"]
    else:
        kinds = ["type", "attribute", "role", "attribute_role"] if n == 1 else ["type", "attribute"]
    ks = [c.pick(kinds) for _ in range(n)]
    owners = [c.pick(OWNERS) if n < 3 else OWNERS[i] for i in range(n)]
    swap = n > 1 and c.flag()
    req = [c.flag() for _ in range(n)]
    te = c.flag()
    names = ["zz%s_x" % x for x in ("cba" if swap else "abc")[:n]]
    f = {}
    for o in OWNERS:
        f[o + ".te"] = "policy_module(%s,1.0)\n" % o
    for k, o, x in zip(ks, owners, names):
        f[o + ".te"] += DECLS[k] % x + "\n"
    head = ["policy_module(own,1.0)", "type own_t;", "type own2_t;", "attribute own_a;", "role own_r;", "attribute_role own_ra;"]
    reqs = ["\t" + DECLS[k] % x for k, x, q in zip(ks, names, req) if q]
    stmt = form % tuple(names)
    own = ["\ttype own_t, own2_t;", "\tattribute own_a;", "\trole own_r;", "\tattribute_role own_ra;"]
    left = [(k, o, x) for k, o, x, q in zip(ks, owners, names, req) if not q]
    if te:
        lines = head + (["require {"] + reqs + ["}"] if reqs else []) + [stmt]
        f["own.te"] = "\n".join(lines) + "\n"
        # plain roles are for everyone to use
        left = [x for x in left if x[0] != "role"]
        exp = [("own.te", len(lines), "W-001", [[x, o] for k, o, x in left])] if left else []
        return Case(f, [only("W-001") + sorted(f)], said(exp, note=name))
    lines = ["## <summary>x</summary>", "interface(`own_i',`", "gen_require(`"] + reqs + own + ["')", stmt, "')"]
    f["own.te"] = "\n".join(head) + "\n"
    f["own.if"] = "\n".join(lines) + "\n"
    exp = [("own.if", len(lines) - 1, "W-002", [KINDWORDS[k] + [x] for k, o, x in left])] if left else []
    return Case(f, [only("W-002") + sorted(f)], said(exp, WORDS, note=name))


# ---------------------------------------------------------------- require blocks
ORDER = ["attribute", "type", "attribute_role", "role"]


def require(c):
    """W-003, W-011 on each declaration of a require block, C-006 on the block"""
    n = 1 + c.choose(3)
    entries = []
    for i in range(n):
        k = c.pick(["type", "attribute", "role", "attribute_role"])
        multi = k == "type" and i == 0 and c.flag()
        where = c.pick(["own", "zzmoda", "none"])
        used = c.flag()
        entries.append((k, ["zz%d_x" % i] + (["zz%db_x" % i] if multi else []), where, used))
    gen = c.flag()
    f = {"zzmoda.te": "policy_module(zzmoda,1.0)\ntype zzother_t;\n", "own.te": "policy_module(own,1.0)\ntype own_t;\n"}
    lines = ["## <summary>x</summary>", "interface(`own_i',`", "\tgen_require(`" if gen else "\trequire {"]
    exp, uses = [], []
    for k, xs, where, used in entries:
        lines.append("\t\t" + DECLS[k] % ", ".join(xs))
        if where != "none":
            for x in xs:
                f[where + ".te"] += DECLS[k] % x + "\n"
        u = xs[-1:] if used else []
        uses += [(k, x) for x in u]
        for x in xs:
            if x not in u:
                exp.append(("own.if", len(lines), "W-003", [KINDWORDS[k] + [x]]))
            if where == "zzmoda":
                exp.append(("own.if", len(lines), "W-011", [KINDWORDS[k] + [x, "zzmoda"]]))
            elif where == "none":
                exp.append(("own.if", len(lines), "W-011", [KINDWORDS[k] + [x]]))
    lines.append("\t')" if gen else "\t}")
    for k, x in uses:
        lines.append("\t" + {"type": "allow $1 %s:file a;", "attribute": "allow $1 %s:file a;", "role": "role %s types $1;",
                             "attribute_role": "roleattribute $1 %s;"}[k] % x)
    lines += ["\tallow $1 self:file a;", "')"]
    f["own.if"] = "\n".join(lines) + "\n"
    ids = ["W-003", "W-011"]
    return Case(f, [only(*ids) + sorted(f)], said(exp, WORDS | {"attribute_role"}, note=str(entries)))


def unordered(c):
    """C-006 names two neighbouring declarations in the wrong order, or the repeated one"""
    n = 2 + c.choose(3)
    entries = [(c.pick(["type", "attribute", "role"]), c.pick(["zza_x", "zzb_x", "zzc_x"])) for _ in range(n)]
    lines = ["## <summary>x</summary>", "interface(`own_i',`", "gen_require(`"] + [DECLS[k] % x for k, x in entries]
    lines += ["')", "allow $1 self:file a;", "')"]
    return Case({"own.if": "\n".join(lines) + "\n"}, [only("C-006") + ["own.if"]], c006(entries))


RANK = {"attribute": 5, "type": 3, "role": 8}


def c006(entries):
    def judge(rs):
        r = rs[0]
        if r.code != 0 or len(r.findings) > 1:
            return "exit status %d, %d findings" % (r.code, len(r.findings))
        if not r.findings:
            # whether a block is ordered is the matter of C09
            return None
        t = tokens(r.findings[0][3], {"type", "attribute", "role"})
        pairs = [[x for e in (a, b) for x in e] for a, b in zip(entries, entries[1:]) if a != b]
        rep = [list(a) for a, b in zip(entries, entries[1:]) if a == b]
        ok = [p for p in pairs if p[0] != p[2] or p[1] > p[3]] + rep
        if t not in ok:
            return "C-006 names %s, the declarations are %s" % (t, entries)
        # the reverse order must not be reported with the same pair
        return None
    return judge


# ---------------------------------------------------------------- calls
ARGS = {"a": "zza_t", "set": "{ zzb_t zzc_t }", "sp": "zzd_t zze_t", "sp3": "zzf_t zzg_t zzh_t", "quoted": "`zzi_t zzj_t'", "empty": "", "dollar": "$1"}


def arguments(c):
    """W-007 names the call and the argument by number and first word, W-006 the call, W-005 call and module, W-010 the call, S-004 both names"""
    args = c.seq(sorted(ARGS), 3, 1)
    callee = c.pick(["zzif_one", "zzif_two", "zzgone_if", "zzown_if", "zztmpl"])
    place = c.pick(["te", "if"])
    f = {"zzmoda.if": "# c\ninterface(`zzif_one',`\n\tallow $1 self:file a;\n')\n# c\ntemplate(`zztmpl',`\n\tallow $1 self:file a;\n')\n",
         "zzmodb.if": "# c\ninterface(`zzif_two',`\n\tallow $1 self:file a;\n')\n",
         "own.if": "# c\ninterface(`zzown_if',`\n\tallow $1 self:file a;\n')\n",
         "modules.conf": "zzmoda = module\nzzmodb = module\nown = module\nzzgone = module\n"}
    call = "%s(%s)" % (callee, ", ".join(ARGS[a] for a in args))
    exp = []
    mod = {"zzif_one": "zzmoda", "zztmpl": "zzmoda", "zzif_two": "zzmodb"}.get(callee)
    if place == "te":
        name, line = "own.te", 3
        f[name] = "policy_module(own,1.0)\ntype own_t;\n%s\n" % call
    else:
        name, line = "own.if", 7
        f[name] += "# c\ninterface(`zzown_two',`\n\t%s\n')\n" % call
    if mod:
        exp.append((name, line, "W-005", [[callee, mod]]))
    if callee == "zzgone_if":
        exp.append((name, line, "W-010", [[callee]]))
    if callee == "zztmpl" and place == "if":
        exp.append((name, line, "S-004", [["zzown_two", callee]]))
    if args == ["empty"]:
        exp.append((name, line, "W-006", [[callee]]))
    sp = [i for i, a in enumerate(args) if a in ("sp", "sp3")]
    empty = "empty" in args
    if empty and args != ["empty"]:
        return None
    if sp:
        ok = []
        for i in sp:
            ws = ARGS[args[i]].split()
            ok += [[str(i + 1), w, callee] for w in ws[:-1]]
        exp.append((name, line, "W-007", ok))
    return Case(f, [only("W-005", "W-006", "W-007", "W-010", "S-004") + sorted(f)],
                said(exp, {"1", "2", "3", "4", "5", "6"}, note=call))


def many_arguments(c):
    """the number of the argument, however large"""
    n = c.pick([9, 10, 11, 99, 100, 127, 128, 129, 254, 255, 256, 257, 258, 400, 511, 512, 513, 1000, 1999])
    at = sorted({1, n // 2, n - 1, n})[c.choose(min(4, len({1, n // 2, n - 1, n})))]
    kind = c.pick(["plain", "set", "quoted", "mixed"])
    other = {"plain": ["zza_t"], "set": ["{ zzb_t zzc_t }"], "quoted": ["`zzi_t zzj_t'"], "mixed": ["zza_t", "{ zzb_t zzc_t }", "`zzi_t zzj_t'", "$1"]}[kind]
    args = [other[i % len(other)] for i in range(n)]
    args[at - 1] = "zzd_t zze_t"
    place = c.pick(["te", "if"])
    call = "zzif_one(%s)" % ", ".join(args)
    if place == "te":
        f, exp = {"own.te": "policy_module(own,1.0)\n%s\n" % call}, [("own.te", 2, "W-007", [[str(at), "zzd_t", "zzif_one"]])]
    else:
        f, exp = {"own.if": "# c\ninterface(`own_i',`\n%s\n')\n" % call}, [("own.if", 3, "W-007", [[str(at), "zzd_t", "zzif_one"]])]
    return Case(f, [only("W-007") + sorted(f)], said(exp, {str(i) for i in range(n + 2)}, note="%d of %d" % (at, n)))


# ---------------------------------------------------------------- permissions and classes
PW = ["zza", "zzb", "zzc", "zznone", "zzgone", "zzm_perms"]


def permissions(c):
    """C-005 names two neighbours, E-007 an unknown permission, E-008 an unknown class"""
    ps = c.seq(PW, 4, 1)
    rule = c.pick(["allow", "dontaudit"])
    cls = c.pick([["zzk"], ["zzq"], ["zzk", "zzq"], ["zzq", "zzk", "zzr"], ["zzl", "zzr"]])
    if len(ps) == 4 and len(cls) > 1:
        return None
    f = {"access_vectors": "class zzk { zza zzb }\nclass zzl { zzc }\n", "obj_perm_sets.spt": "define(`zzm_perms',`{ zza }')\n",
         "own.te": "policy_module(own,1.0)\ntype own_t;\n%s own_t own_t:%s %s;\n" % (
             rule, cls[0] if len(cls) == 1 else "{ %s }" % " ".join(cls), ps[0] if len(ps) == 1 else "{ %s }" % " ".join(ps))}
    exp = []
    bad = [[a, b] if a > b else [a] for a, b in zip(ps, ps[1:]) if a >= b]
    if bad:
        exp.append(("own.te", 3, "C-005", bad))
    unknown = [[p] for p in ps if p in ("zznone", "zzgone")]
    if unknown:
        exp.append(("own.te", 3, "E-007", unknown))
    nocls = [[k] for k in cls if k not in ("zzk", "zzl")]
    if nocls:
        exp.append(("own.te", 3, "E-008", nocls))
    return Case(f, [only("C-005", "E-007", "E-008") + sorted(f)], said(exp, ordered=("C-005",), note=" ".join(ps)))


SPT = [("getattr_file_perms", ["getattr"]), ("read_file_perms", ["getattr", "open", "read", "lock", "ioctl"]),
       ("write_file_perms", ["getattr", "open", "write", "append", "lock", "ioctl"]),
       ("rw_file_perms", ["read_file_perms", "write_file_perms"]), ("exec_file_perms", ["getattr", "open", "read", "execute", "map", "ioctl", "execute_no_trans"]),
       ("append_file_perms", ["getattr", "open", "append", "lock", "ioctl"]), ("list_dir_perms", ["getattr", "search", "open", "read", "lock", "ioctl"]),
       ("search_dir_perms", ["getattr", "search", "open"]), ("rw_dir_perms", ["list_dir_perms", "add_name", "remove_name", "write"]),
       ("create_chr_file_perms", ["getattr", "create", "open"]), ("use_term_perms", ["getattr", "open", "read", "write", "append", "ioctl"])]
SPTTEXT = "".join("define(`%s',`{ %s }')\n" % (n, " ".join(p)) for n, p in SPT)
S10 = re.compile(r"([A-Za-z0-9_]+) \(replacing \{ ([^}]*) \}, would add (?:\{ ([^}]*) \}|\(none\))\)")
RULEPERMS = ["append", "execute", "getattr", "ioctl", "lock", "map", "open", "read", "search", "write", "read_file_perms", "list_dir_perms", "getattr_file_perms"]


def suggestion(size):
    def body(c):
        """S-010: the macro is for the class and not used yet, every word it replaces is covered, and it adds what it says and nothing unrelated"""
        n = 2 + c.choose(size - 1)
        words, i = [], 0
        for k in range(n):
            i += c.choose(len(RULEPERMS) - i - (n - k - 1))
            words.append(RULEPERMS[i])
            i += 1
        cls = c.pick(["file", "dir", "chr_file"])
        env = Env(SPT)
        text = "policy_module(own,1.0)\ntype own_t;\nallow own_t own_t:%s { %s };\n" % (cls, " ".join(words))

        def judge(rs):
            r = rs[0]
            if r.code != 0 or len(r.findings) > 1:
                return "exit status %d, %d findings" % (r.code, len(r.findings))
            if not r.findings:
                return None
            m = S10.search(r.findings[0][3])
            if not m:
                return "no macro, replaced and added permissions in %r" % r.findings[0][3]
            name, repl, add = m.group(1), m.group(2).split(), (m.group(3) or "").split()
            raw = dict(env.cat.get(cls, ())).get(name)
            if raw is None:
                return "%s is no macro for class %s" % (name, cls)
            if name in words:
                return "%s is used already" % name
            used = [env.expand(w)[0] for w in words]
            want = [w for w, u in zip(words, used) if u <= raw]
            if sorted(repl) != sorted(want) or len(repl) < 2:
                return "%s replaces %s, said %s" % (name, want, repl)
            missing = raw - frozenset().union(*used)
            if sorted(add) != sorted(missing):
                return "%s would add %s, said %s" % (name, sorted(missing), add)
            return None
        return Case({"own.te": text, "obj_perm_sets.spt": SPTTEXT}, [only("S-010") + ["own.te", "obj_perm_sets.spt"]], judge)
    return body


def suffix(c):
    """S-009 names the macro and the class"""
    macro = c.pick([n for n, _ in SPT] + ["read"])
    cls = c.seq(["file", "dir", "chr_file", "process", "lnk_file"], 2, 1)
    text = "policy_module(own,1.0)\ntype own_t;\nallow own_t own_t:%s %s;\n" % (cls[0] if len(cls) == 1 else "{ %s }" % " ".join(cls), macro)

    def judge(rs):
        r = rs[0]
        if r.code != 0 or len(r.findings) > 1:
            return "exit status %d, %d findings" % (r.code, len(r.findings))
        if r.findings:
            t = re.findall(r"[a-z_]+", r.findings[0][3])
            if macro not in t or (len(cls) == 1 and cls[0] not in t) or any(x in t for x in ("file", "dir", "chr_file", "process", "lnk_file") if x not in cls):
                return "macro %s on %s: %r" % (macro, cls, r.findings[0][3])
        return None
    return Case({"own.te": text, "obj_perm_sets.spt": SPTTEXT}, [only("S-009") + ["own.te", "obj_perm_sets.spt"]], judge)


# ---------------------------------------------------------------- file contexts
FCPATHS = {"plain": ("/zz/a", None), "dot": ("/zz/a.b", [(6, ".")]), "star": ("/zz*x", [(4, "*")]), "two": ("/zza+b.c", [(5, "+"), (7, ".")]),
           "group": ("/zz[.+]x(/.*)?a.b", [(16, ".")]), "escaped": ("/zz\\.x\\+y.z", [(10, ".")]), "first": ("/.*zz", None), "end": ("/zz.", [(4, ".")])}


def fc(c):
    """E-003, E-004, E-005, S-002 and W-004 on lines of any combination"""
    n = 1 + c.choose(2)
    f = {"zzmoda.te": "policy_module(zzmoda,1.0)\ntype zza_t;\nrole zzr_r;\ngen_user(zzu_u,,zzr_r,s0,s0)\n", "own.te": "policy_module(own,1.0)\ntype zzown_t;\n"}
    lines, exp, pos = [], [], []
    for i in range(n):
        p = c.pick(sorted(FCPATHS)) if n == 1 or i == 1 else "dot"
        user = c.pick(["zzu_u", "zznone_u", "system_u"])
        role = c.pick(["zzr_r", "zznone_r", "object_r"])
        type_ = c.pick(["zza_t", "zzown_t", "zznone_t"])
        path, bad = FCPATHS[p]
        lines.append("%s\t--\tgen_context(%s:%s:%s,s0)" % (path, user, role, type_))
        l = len(lines)
        if "none" in user:
            exp.append(("own.fc", l, "E-003", [[user]]))
        if "none" in role:
            exp.append(("own.fc", l, "E-004", [[role]]))
        if "none" in type_:
            exp.append(("own.fc", l, "E-005", [[type_]]))
        if type_ == "zza_t":
            exp.append(("own.fc", l, "S-002", [[type_, "zzmoda"]]))
        if bad:
            exp.append((l, path, bad))
            pos.append(exp.pop())
    f["own.fc"] = "\n".join(lines) + "\n"
    names = said(exp, note=lines[-1])

    def judge(rs):
        r = rs[0]
        w = [x for x in r.findings if x[4] == "W-004"]
        if sorted(x[1] for x in w) != [x[0] for x in pos]:
            return "W-004 on lines %s, expected %s" % ([x[1] for x in w], [x[0] for x in pos])
        for l, path, bad in pos:
            m = [x[3] for x in w if x[1] == l][0]
            if path not in m:
                return "W-004 does not quote the path %s: %r" % (path, m)
            rest = m.replace(path, "")
            if not any(re.search(r"(?<!\d)%d(?!\d)" % k, rest) and ch in rest for k, ch in bad):
                return "W-004 names none of the characters %s of %s: %r" % (bad, path, m)
        r._f = [x for x in r.findings if x[4] != "W-004"]
        return names(rs)
    return Case(f, [only("E-003", "E-004", "E-005", "S-002", "W-004") + sorted(f)], judge)


# ---------------------------------------------------------------- names
def names(c):
    """C-004, S-005, E-006, W-009 and E-010: the interface, the declaration, the module and the file, the word"""
    n = c.choose(3)
    at = c.choose(3)
    doc = [c.flag() for _ in range(3)]
    kind = c.pick(["interface", "template"])
    decl = c.pick([None] + sorted(DECLS))
    lines, exp = [], []
    for i in range(3):
        lines.append("# c" if doc[i] else "")
        lines.append("%s(`zz%d_if',`" % (kind, i))
        if not doc[i]:
            exp.append(("own.if", len(lines), "C-004", [["zz%d_if" % i]]))
        if decl and i == at:
            for j in range(n + 1):
                lines.append(DECLS[decl] % ("zz%d_d" % j))
                if kind == "interface":
                    exp.append(("own.if", len(lines), "S-005", [["zz%d_d" % j]]))
        lines += ["\tallow $1 self:file a;", "')"]
    iff = "\n".join(lines) + "\n"
    mod = c.pick(["own", "zzmod", "zzown", "ow", "own2"])
    word = c.pick([None, "zzword", "zz_other"])
    clash = c.pick([None, 0, 2])
    te = ["policy_module(%s,1.0)" % mod, "type own_t;"]
    if mod != "own":
        exp.append(("own.te", 1, "W-009", [[mod, "own.te"]]))
    if word:
        te.append(word)
        exp.append(("own.te", 3, "E-010", [[word]]))
    if clash is not None:
        te.append("type zz%d_if;" % clash)
        exp.append(("own.te", len(te), "E-006", [["zz%d_if" % clash]]))
    return Case({"own.if": iff, "own.te": "\n".join(te) + "\n"}, [only("C-004", "S-005", "E-006", "W-009", "E-010") + ["own.if", "own.te"]],
                said(exp, {"own", "zzmod", "zzown", "ow", "own2", "own.te"} - {"zzmod", "zzown"}, note="%s %s" % (mod, word)))


# ---------------------------------------------------------------- C-001
CKINDS = ["self", "own", "kmod", "k1", "k2", "s1", "o1", "ifdef", "opt"]
LINE = re.compile(r"\b(before|after) line (\d+)")


def order(c):
    """C-001 names a line standing on the wrong side of the reported one"""
    kinds = c.seq(CKINDS, 4, 2)
    variant = c.pick(["refpolicy", "refpolicy-light", "refpolicy-lax"])
    decl = c.choose(len(kinds) + 1)
    text, nodes = assemble(kinds, variant)
    lines = text.split("\n")
    if decl:
        # a declaration among them
        at = nodes[1 + decl][0] - 1 if decl < len(kinds) else len(lines) - 1
        first = sum(len(K[k][0]) for k in kinds[:decl]) + 3
        at = first
        lines.insert(at, "type z_t;")
        nodes = [(l + (1 if l > at else 0), k) for l, k in nodes]
        nodes = sorted(nodes + [(at + 1, (-1,))], key=lambda x: x[0])
        text = "\n".join(lines)
    key = {l: ((-1,) if k == (0,) else k) for l, k in nodes}
    # a block can also be named by its first line
    for l, k in list(key.items()):
        if lines[l - 2].endswith("`"):
            key.setdefault(l - 1, k)
    f = dict(ENVFILES)
    f["m.te"] = text
    f.update(cfg(variant))

    def judge(rs):
        r = rs[0]
        if r.code != 0:
            return "exit status %d" % r.code
        out = {x[1] for x in r.findings}
        for x in r.findings:
            m = LINE.search(x[3])
            if not m:
                return "no line in %r" % x[3]
            l, o = x[1], int(m.group(2))
            if o not in key or l not in key:
                return "line %d, reported with line %d, is none of the ordered statements" % (l, o)
            if m.group(1) == "before":
                ok = o > l and key[o] < key[l]
            else:
                ok = o < l and key[o] > key[l]
            if not ok or o in out:
                return "%s: line %d (%s) is said to be %s line %d (%s)%s" % (
                    kinds, l, key[l], m.group(1), o, key[o], ", which has to move itself" if o in out else "")
        return None
    return Case(f, [["-s", "-E", "-e", "C-001", "-c", "cfg", "-r", "."]], judge)


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("foreign", foreign, "64 statement forms with up to 3 foreign names of 4 kinds and 3 modules, every subset required, in te and if files"),
        Space("require", require, "require blocks of up to 3 declarations of 4 kinds x 3 owners x used or not"),
        Space("unordered", unordered, "require blocks of up to 4 declarations of 3 kinds and 3 names"),
        Space("arguments", arguments, "argument lists of up to 3 of 7 arguments x 5 callees x te and if"),
        Space("many-arguments", many_arguments, "19 numbers of arguments to 1999 x 4 positions x 4 kinds of other arguments x te and if"),
        Space("permissions", permissions, "permission lists of up to 4 of 6 words x 5 class lists x 2 rules"),
        Space("suggestion", suggestion(6 if deep else 4), "sets of up to %d of 13 permissions and macros x 3 classes" % (6 if deep else 4)),
        Space("suffix", suffix, "12 words x class lists of up to 2 of 5"),
        Space("file-contexts", fc, "lines of 8 paths x 3 users x 3 roles x 3 types, alone and after another"),
        Space("names", names, "3 interfaces documented or not, with up to 3 declarations, 5 module names, 3 words, clashes"),
        Space("order", order, "sequences of up to 4 of 9 statement kinds x 3 variants x place of a declaration"),
    ]
