"""The command line: ways of writing it, output options and their order change nothing else."""
import itertools
import re

from core import Case, Space
import fixture as F

RULE = ("Every spelling (short, attached, clustered, long, every abbreviation) of every option at every position among others and the paths; every "
        "order of up to 4 (5 thorough) options; every subset of the output options over 13 scenarios; every flag repeated; help and version at every position; "
        "every prefix of every option as a word; what follows --.")
ASSUMPTIONS = ["POSIXLY_CORRECT is not set; standard output is no terminal", "which lines --verbose adds is not judged, nor what --debug-parser writes to standard error"]

LONG = {"config": "c", "context": None, "debug-parser": None, "disable": "d", "enable": "e", "fail": "F", "only-enabled": "E", "help": "h", "level": "l",
        "modules-conf": "m", "recursive": "r", "source": "s", "summary": "S", "color": None, "scan-hidden-dirs": None, "summary-only": None, "version": "V",
        "verbose": "v"}
ARG = {"config", "context", "disable", "enable", "level", "modules-conf", "color"}


def prefixes(name):
    """unambiguous abbreviations, the full name first"""
    out = [name]
    for n in range(1, len(name)):
        p = name[:n]
        if p not in LONG and [x for x in LONG if x.startswith(p)] == [name]:
            out.append(p)
    return out


def spellings(opt, arg=None, abbrev=True):
    """all ways to write one option: lists of words"""
    out = []
    s = LONG[opt]
    for p in prefixes(opt) if abbrev else [opt]:
        if arg is None:
            out.append(["--" + p])
        else:
            out += [["--" + p, arg], ["--" + p + "=" + arg]]
    if s:
        out += [["-" + s]] if arg is None else [["-" + s, arg], ["-" + s + arg]]
    return out


FILES = dict(F.FILES)
FILES.update({"conf": "severity = style\ndisable = { S-003 }\n", "conf2": "severity = convention\ndisable_normal = { W-004 }\ndisable_source = { W-004 }\n",
              "extra/extra.te": "policy_module(extra,1.0)\ntype extra_t;\n", "extra/extra.if": F.KERNEL_IF.replace("kernel", "extra"),
              ".hidden/h.te": "policy_module(h,1.0)\nallow h_t h_t:file { write read };\n"})

# settings: option, argument; with what else they make a difference
SETTINGS = [("source", None), ("recursive", None), ("fail", None), ("summary", None), ("summary-only", None), ("only-enabled", None),
            ("scan-hidden-dirs", None), ("verbose", None), ("debug-parser", None), ("config", "conf"), ("config", "conf2"), ("context", "extra"), ("disable", "C-001"),
            ("disable", "S-003"), ("enable", "W-001"), ("enable", "E-002"), ("level", "C"), ("level", "W"), ("level", "F"), ("color", "on"),
            ("color", "off"), ("color", "auto")]


def canonical(settings):
    out = []
    for o, a in settings:
        out += ["--" + o] + ([a] if a else [])
    return out


def same(what=""):
    def judge(rs):
        a, b = rs
        if a.code != b.code:
            return "%sexit status %d, expected %d" % (what, b.code, a.code)
        if a.out != b.out:
            la, lb = a.out.split("\n"), b.out.split("\n")
            return "%soutput differs: %s" % (what, [p for p in itertools.zip_longest(lb, la) if p[0] != p[1]][:2])
        return None
    return judge


def spell(c):
    """one option written in every way at every position"""
    opt, arg = c.pick(SETTINGS)
    words = c.pick(spellings(opt, arg))
    base = c.pick([["-s", "-r", "."], ["-s", "-r", "-S", "."], ["-s", "apps/mymod.te", "apps/mymod.if", "apps/mymod.fc"], ["-E", "-e", "C-001", "-r", "-s", "apps", "kernel"]])
    # options of the base that take an argument are not torn apart
    units = []
    for w in base:
        if units and units[-1] == ["-e"]:
            units[-1].append(w)
        else:
            units.append([w])
    at = c.choose(len(units) + 1)
    argv = [w for u in units[:at] for w in u] + words + [w for u in units[at:] for w in u]
    return Case(FILES, [canonical([(opt, arg)]) + base, argv], same("%s: " % " ".join(argv)))


ORDERED = [("source", None), ("recursive", None), ("summary", None), ("fail", None), ("level", "W"), ("disable", "W-001"), ("enable", "C-001"), ("only-enabled", None),
           ("summary-only", None), ("scan-hidden-dirs", None), ("context", "extra"), ("config", "conf"), ("color", "on"), ("verbose", None)]


def orders(n):
    def body(c):
        """every order of every set of options and the path"""
        opts = []
        for _ in range(n):
            rest = [o for o in ORDERED if not opts or ORDERED.index(o) > ORDERED.index(opts[-1])]
            if not rest:
                return None
            opts.append(c.pick(rest))
        perm = c.perm(opts + [None])
        argv = []
        for p in perm:
            argv += ["."] if p is None else c.pick([s for s in spellings(p[0], p[1], False)][-2:] if n < 4 else [spellings(p[0], p[1], False)[0]])
        base = canonical(opts) + ["."]
        return Case(FILES, [base, argv], same("%s: " % " ".join(argv)))
    return body


FLAGS = ["s", "r", "S", "F", "E", "v"]


def clusters(c):
    """short options in one word, the last with its argument in the word or behind it"""
    flags = [f for f in c.perm([f for f in FLAGS if c.flag()])]
    if not flags or len(flags) > 4:
        return None
    o, a = c.pick([(None, None), ("l", "W"), ("d", "S-003"), ("e", "W-001"), ("c", "conf")])
    how = c.choose(3 if o else 1)
    word = "-" + "".join(flags)
    words = [word] if not o else [[word + o + a], [word + o, a], ["-" + flags[0] + o + a] + (["-" + "".join(flags[1:])] if flags[1:] else [])][how]
    base = ["-" + f for f in flags] + (["-" + o, a] if o else [])
    after = c.flag()
    return Case(FILES, [base + ["."], ["."] + words if after else words + ["."]], same("%s: " % " ".join(words)))


def repeated(c):
    """a flag given twice, in two spellings, counts once; of colours and levels the last one counts"""
    opt, arg = c.pick([s for s in SETTINGS if s[0] not in ("config",)])
    other = c.pick([s for s in SETTINGS if s[0] == opt]) if opt in ("color", "level") else (opt, arg)
    w1, w2 = c.pick(spellings(other[0], other[1], False)), c.pick(spellings(opt, arg, False))
    base = c.pick([["-s", "-r", "."], ["-sr", "-e", "C-001", "."]])
    mid = c.flag()
    argv = w1 + base + w2 if mid else w1 + w2 + base
    return Case(FILES, [canonical([(opt, arg)]) + base, argv], same("%s: " % " ".join(argv)))


# trees and paths in which something goes wrong
BAD = dict(FILES)
BAD.update({"bad/parse.te": "policy_module(parse,1.0)\nallow a_t { b_t:file read;\ntype t;\n", "bad/second.if": "interface(`x',`\nallow $1 self:file;\n')\n",
            "bad/conf": "severity = Q\n", "bad/empty.te": "", "plain.txt": "x\n"})
SCENARIOS = [["-s", "-r", "apps", "kernel"], ["-s", "-r", "."], ["-r", "apps"], ["-s", "bad/parse.te", "apps/mymod.te"], ["-s", "-r", "apps", "bad"],
             ["-s", "-r", "nowhere"], ["-s", "-c", "bad/conf", "apps/mymod.te"], ["-s"], ["-s", "-l", "Q", "apps/mymod.te"], ["-s", "-E", "-r", "."],
             ["-s", "-d", "X-001", "-e", "C-100", "-r", "apps"], ["-r", "--context=kernel", "apps"], ["-s", "bad/empty.te", "plain.txt", "apps/mymod.fc"]]
COLOR = re.compile("\x1b\\[[0-9;]*m")


def subsequence(a, b):
    it = iter(b)
    return all(x in it for x in a)


def output(c):
    """verbose, colour and parser debugging over every scenario and reporting option"""
    base = c.pick(SCENARIOS)
    rep = c.pick([[], ["-S"], ["--summary-only"]]) + (["-F"] if c.flag() else [])
    verbose, debug, color = c.flag(), c.flag(), c.pick([None, "on", "off", "auto"])
    after = c.flag()
    opts = (["-v"] if verbose else []) + (["--debug-parser"] if debug else []) + (["--color", color] if color else [])
    if not opts:
        return None
    argv = base + rep + opts if after else opts + base + rep
    plain = base + rep

    def judge(rs):
        a, b = rs
        if a.code != b.code:
            return "%s: exit status %d, without them %d" % (" ".join(opts), b.code, a.code)
        if a.timed_out or b.timed_out:
            return "timeout"
        if color != "on" and "\x1b" in b.out:
            return "escape sequences without colour"
        la, lb = a.out.split("\n"), COLOR.sub("", b.out).split("\n")
        if not verbose:
            if la != lb:
                return "%s changes the output: %s" % (" ".join(opts), [p for p in itertools.zip_longest(lb, la) if p[0] != p[1]][:2])
            return None
        if [l for l in la if l.strip()] != [l for l in lb if l.strip()] and not subsequence(la, lb):
            return "%s loses or reorders output: %s" % (" ".join(opts), [l for l in la if l not in lb][:3])
        if a.findings != type(b)(b.wstatus, False, 0, COLOR.sub("", b.out), b.err).findings:
            return "%s changes the findings" % " ".join(opts)
        return None
    return Case(BAD, [plain, argv], judge)


def info(c):
    """help and version at every position of a command line"""
    words, kind = c.pick([(w, k) for k in ("help", "version") for w in spellings(k)])
    base = c.pick([["-s", "-r", "."], ["."], [], ["-F", "-s", "bad/parse.te"], ["-s", "nowhere"], ["-l", "W", "-s", "apps"], ["-c", "nowhere", "."]])
    units = []
    for w in base:
        if units and units[-1] in (["-l"], ["-c"]):
            units[-1].append(w)
        else:
            units.append([w])
    at = c.choose(len(units) + 1)
    argv = [w for u in units[:at] for w in u] + words + [w for u in units[at:] for w in u]

    def judge(rs):
        a, b = rs
        if b.code != 0 or b.out != a.out:
            return "%s: exit status %d, output %r" % (" ".join(argv), b.code, b.out[:80])
        if kind == "version" and not re.match(r"^SELint \S+\n$", b.out):
            return "version: %r" % b.out[:80]
        if kind == "help" and not (b.out.startswith("Usage: selint [OPTIONS] FILE [...]\n") and all("--" + o in b.out for o in LONG if o != "modules-conf")):
            return "help: %r" % b.out[:80]
        return None
    return Case(BAD, [["--" + kind], argv], judge)


def words(c):
    """every word that starts like an option: known, ambiguous or unknown"""
    name = c.pick(sorted(LONG))
    n = 1 + c.choose(len(name) + 1)
    w = (name + "x")[:n]
    eq = c.pick(["", "=", "=W"])
    match = [x for x in LONG if x.startswith(w)]
    opt = w if w in LONG else match[0] if len(match) == 1 else None
    argv = ["--" + w + eq, "-s", "-r", "."]
    # an option's argument, if it is to be the next word
    if opt is None or (eq and opt not in ARG):
        return Case(FILES, [["--nosuchoption"], argv], lambda rs: None if rs[1].code == 64 and rs[1].out == rs[0].out else
                    "%s: exit status %d, expected 64" % (argv[0], rs[1].code))
    arg = None
    if opt in ARG:
        arg = "W" if eq == "=W" else "" if eq else "-s"
    rest = argv[1:] if not (opt in ARG and not eq) else argv[2:]
    return Case(FILES, [["--" + opt] + ([arg] if arg is not None else []) + rest, argv],
                lambda rs: None if (rs[0].code, rs[0].out) == (rs[1].code, rs[1].out) else "%s differs from --%s" % (argv[0], opt))


def terminator(c):
    """what follows -- is a path"""
    path = c.pick(["-s.te", "-r", "--help", "-l", "--.te", "apps/mymod.te", "-v.te", "--summary"])
    before = c.pick([[], ["-S"], ["apps/mymod.if"], ["-r"]])
    more = c.pick([[], ["apps/mymod.fc"], ["-S.te"]])
    # like ./path
    files = dict(FILES)
    for p in [path] + more:
        if p.startswith("-"):
            files[p + ("" if p.endswith(".te") else "/q.te")] = "policy_module(q,1.0)\nstray\n"
    argv = ["-s"] + before + ["--", path] + more
    base = ["-s"] + before + [p if not p.startswith("-") else "./" + p for p in [path] + more]

    def judge(rs):
        a, b = rs
        if a.code != b.code or a.out.replace("./-", "-") != b.out:
            return "%s differs from %s" % (argv, base)
        if "-r" in before and not any("q.te" in f[0] or f[0] == path for f in b.findings) and path.startswith("-"):
            return "%s not scanned" % path
        return None
    return Case(files, [base, argv], judge)


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("spellings", spell, "every option x every spelling and abbreviation x every position in 4 command lines"),
        Space("orders-2", orders(2), "all pairs of 14 options and a path in every order x 2 spellings each"),
        Space("orders-3", orders(3), "all sets of 3 of 14 options and a path in every order x 2 spellings each"),
        Space("orders-4", orders(4), "all sets of 4 of 14 options and a path in every order"),
        Space("clusters", clusters, "all orders of up to 4 of 6 flags in one word x 4 options with arguments x 3 places"),
        Space("repeated", repeated, "every option twice x 2 spellings x 2 places"),
        Space("output", output, "13 scenarios x 6 reporting modes x all subsets of verbose, debug-parser and colours x 2 places"),
        Space("info", info, "help and version x every spelling x every position in 7 command lines"),
        Space("words", words, "every prefix of every long option x 3 endings"),
        Space("terminator", terminator, "8 x 3 paths behind -- x 4 command lines"),
    ] + ([Space("orders-5", orders(5), "all sets of 5 of 14 options and a path in every order")] if deep else [])
