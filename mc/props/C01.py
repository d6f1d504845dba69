"""Check selection."""
import os

from core import Case, Space
import fixture as F

RULE = ("Every combination of severity source and level, config disable / enable_source / enable_normal, -d, -e and -E "
        "for every check, every ordered pair of checks, and every list length/position in the listed sets, on a policy "
        "with a known violation of every check.")
ASSUMPTIONS = ["the fixture policy's findings (mc/fixture.py) were established by hand",
               "source mode (-s) only; system development files are never read"]

SEV = "CSWEF"
NAMES = {"C": "convention", "S": "style", "W": "warning", "E": "error", "F": "fatal"}


def expected(cl_level, cfg_level, cfgdis, cfgen, cld, cle, only):
    level = cl_level or cfg_level or "C"
    out = []
    for f in F.FINDINGS:
        cid = f[2]
        if SEV.index(cid[0]) < SEV.index(level):
            continue
        if only:
            on = cid in cle
        else:
            on = True
            if cid in cfgdis:
                on = False
            if cid in cfgen:
                on = True
            if cid in cld:
                on = False
            if cid in cle:
                on = True
        if on:
            out.append(f)
    return out


def q(x):
    return x if x.replace("-", "").isalnum() else '"%s"' % x


def case(cl_level=None, cfg_level=None, cfgdis=(), cfgen=(), cfgnormal=(), cld=(), cle=(), only=False, cfg=True,
         style=0, mode="source", note=""):
    files = dict(F.FILES)
    argv = {"source": ["-s", "-r"], "normal": ["-r"], "context": ["-r", "--context=kernel"]}[mode]
    if cfg:
        t = ""
        if cfg_level:
            t += 'severity = "%s"\n' % NAMES[cfg_level]
        if cfgdis:
            t += "disable = { %s }\n" % ", ".join(map(q, cfgdis))
        if cfgen:
            t += "enable_source = { %s }\n" % ", ".join(map(q, cfgen))
        if cfgnormal:
            t += "enable_normal = { %s }\n" % ", ".join(map(q, cfgnormal))
        t += "assume_users = { system_u }\nassume_roles = { object_r }\n"
        files["cfg"] = t
        argv += ["-c", "cfg"]
    if only and style != 1:
        argv.append("-E" if style == 0 else "--only-enabled")
    for x in cld:
        argv += ["-d", x] if style == 0 else (["--disable=" + x] if style == 1 else ["--disable", x])
    for x in cle:
        argv += ["-e", x] if style == 0 else (["--enable=" + x] if style == 1 else ["-e" + x])
    if only and style == 1:
        argv.append("-E")
    if cl_level:
        argv += ["-l", cl_level] if style == 0 else ["--level=" + cl_level]
    argv.append("apps" if mode == "context" else ".")
    exp = expected(cl_level, cfg_level, cfgdis, cfgen if mode != "normal" else cfgnormal, cld, cle, only)
    if mode != "source":
        # without the support files these checks have nothing to work with
        exp = [f for f in exp if f[2] not in ("E-007", "E-008", "W-005", "W-010", "S-010")]

    def judge(rs):
        r = rs[0]
        if only and not cle:
            return None if r.code == 64 and not r.findings else "-E without -e must be refused, exit %d" % r.code
        if r.code != 0:
            return "exit status %d" % r.code
        got = r.locs()
        if got != exp:
            return "selected findings differ: unexpected %s, missing %s" % (
                [x for x in got if x not in exp], [x for x in exp if x not in got] or
                ("duplicates" if len(got) != len(exp) else []))
        return None
    return Case(files, [argv], judge, note)


def single(c):
    x = c.pick(F.IDS)
    lvl = c.pick([None] + list(SEV))
    s = [c.flag() for _ in range(5)]
    only = c.flag()
    w = [x]
    return case(cl_level=lvl, cfgdis=w if s[0] else (), cfgen=w if s[1] else (), cfgnormal=w if s[2] else (),
                cld=w if s[3] else (), cle=w if s[4] else (), only=only, cfg=s[0] or s[1] or s[2])


def levels(c):
    cl = c.pick([None] + list(SEV))
    cf = c.pick([None] + list(SEV))
    style = c.choose(2)
    x = c.pick(["C-001", "S-010", "W-011", "E-010", "E-002"])
    mode = c.choose(4)
    kw = [dict(), dict(cfgen=[x]), dict(cle=[x]), dict(cle=[x], only=True)][mode]
    return case(cl_level=cl, cfg_level=cf, style=style, **kw)


def pairs(c):
    x = c.pick(F.IDS)
    y = c.pick(F.IDS)
    m = c.choose(8)
    kw = [dict(cld=[x, y]), dict(cfgdis=[x], cle=[y]), dict(cle=[x, y], only=True), dict(cfgdis=[x, y], cle=[x]),
          dict(cfgdis=[x, y], cfgen=[y]), dict(cfgdis=[x], cld=[y], cle=[x]), dict(cfgen=[x, y], cld=[x]),
          dict(cle=[x], cld=[x, y], only=True)][m]
    return case(**kw)


DECOY = ["C-00", "C-0011", "c-001", "X-001", "C-1", "S-00", "W-0111", "E-0100", "E-01", "-010", "*", "all"]


def lists(c):
    """the position of an id in a long list does not matter, near misses select nothing"""
    n = c.pick([1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 257])
    pos = c.pick(["first", "middle", "last", "none"])
    which = c.pick(["cfgdis", "cfgen", "cld", "cle", "only"])
    x = c.pick(["C-001", "S-003", "W-005", "E-010"])
    fill = [DECOY[i % len(DECOY)] for i in range(n - 1)]
    if c.flag():
        # fill with a real check instead
        fill = ["W-006"] * (n - 1)
    at = {"first": 0, "middle": len(fill) // 2, "last": len(fill)}.get(pos)
    lst = fill + ([DECOY[0]] if at is None else [])
    if at is not None:
        lst = fill[:at] + [x] + fill[at:]
    kw = {"cfgdis": dict(cfgdis=lst), "cfgen": dict(cfgdis=[x, "W-006"], cfgen=lst), "cld": dict(cld=lst),
          "cle": dict(cld=[x, "W-006"], cle=lst), "only": dict(cle=lst, only=True)}[which]
    return case(**kw)


def style(c):
    x = c.pick(F.IDS)
    st = 1 + c.choose(2)
    m = c.choose(4)
    return case(style=st, **[dict(cld=[x]), dict(cle=[x], only=True), dict(cld=[x], cle=[x]),
                             dict(cl_level="W", cld=[x])][m])


def modes(c):
    """enable_source counts in source mode (-s or implied by --context), enable_normal otherwise"""
    if os.path.exists("/sys/fs/selinux/class") or os.path.exists("/usr/share/selinux/devel"):
        mode = c.pick(["source", "context"])
    else:
        mode = c.pick(["source", "context", "normal"])
    x = c.pick(F.IDS)
    s = [c.flag() for _ in range(3)]
    m = c.choose(3)
    w = [x]
    return case(cfgdis=w if s[0] else (), cfgen=w if s[1] else (), cfgnormal=w if s[2] else (),
                mode=mode, **[dict(), dict(cld=w), dict(cle=w)][m])


def subsets(c):
    """all subsets of a family of checks disabled / solely enabled"""
    fam = c.pick([["C-001", "S-001", "W-001", "E-002"], ["C-005", "C-006", "C-007", "C-004"],
                  ["S-009", "S-010", "S-001", "S-002", "S-003"], ["W-001", "W-010", "W-011", "W-002", "W-009"],
                  ["E-003", "E-004", "E-005", "E-007", "E-008"]])
    sub = c.subset(fam)
    m = c.choose(4)
    if m == 3 and not sub:
        return None
    lvl = c.pick([None, "S", "W", "E"])
    return case(cl_level=lvl, **[dict(cld=sub), dict(cfgdis=sub), dict(cfgdis=fam, cfgen=sub),
                                 dict(cle=sub, only=True)][m])


def spaces(tier):
    return [
        Space("single-check", single, "35 checks x 6 levels x 2^5 list memberships x -E"),
        Space("levels", levels, "6 command line levels x 6 config levels x 5 checks x 4 modes x 2 option spellings"),
        Space("pairs", pairs, "all 35x35 ordered pairs x 8 list combinations"),
        Space("lists", lists, "17 list lengths up to 257 x 4 positions x 5 lists x 4 checks x 2 fillers"),
        Space("spelling", style, "35 checks x 2 option spellings x 4 modes"),
        Space("modes", modes, "35 checks x source / implied source / normal mode x 3 config lists x -d/-e"),
        Space("subsets", subsets, "all subsets of 5 families of checks x 4 modes x 4 levels"),
    ]
