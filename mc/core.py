"""Stateless explorer: enumerates every choice sequence of a closed driver,
executes each resulting case on the real selint code and compares the
observation with a reference model.

A property module provides spaces(tier) -> [Space].  A Space has a body(c)
function which makes nondeterministic choices through c.pick()/c.choose() and
returns a Case (files, runs, judge) or None (pruned as equivalent to another
choice sequence).  The explorer backtracks over all choice sequences, so the
space is covered completely; there is no sampling and no time cap.
"""
import array
import atexit
import collections
import hashlib
import json
import multiprocessing as mp
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

import build

ROOT = build.ROOT
NPROC = max(2, min(16, os.cpu_count() or 8))


class ProbeStop(Exception):
    def __init__(self, n):
        self.n = n


class Chooser:
    __slots__ = ("prefix", "choices", "sizes", "probe")

    def __init__(self, prefix, probe=False):
        self.prefix = prefix
        self.choices = []
        self.sizes = []
        self.probe = probe

    def choose(self, n):
        if n <= 0:
            raise ValueError("choose(0)")
        i = len(self.choices)
        if i < len(self.prefix):
            v = self.prefix[i]
            if v >= n:
                raise RuntimeError("replay divergence: driver is nondeterministic")
        elif self.probe:
            raise ProbeStop(n)
        else:
            v = 0
        self.choices.append(v)
        self.sizes.append(n)
        return v

    def pick(self, seq):
        return seq[self.choose(len(seq))]

    def flag(self):
        return self.choose(2) == 1

    def seq(self, alphabet, maxlen, minlen=0):
        """every sequence over the alphabet with minlen <= length <= maxlen"""
        n = minlen + self.choose(maxlen - minlen + 1)
        return [self.pick(alphabet) for _ in range(n)]

    def subset(self, items):
        return [x for x in items if self.flag()]

    def perm(self, items):
        items = list(items)
        out = []
        while items:
            out.append(items.pop(self.choose(len(items))))
        return out


class Case:
    """files: {path: content | (kind, content)}; runs: list of argv lists or
    dicts {argv, fault_kind, fault_k, timeout}; judge(results) -> None | str |
    (str, signature)"""
    __slots__ = ("files", "runs", "judge", "note")

    def __init__(self, files, runs, judge, note=""):
        self.files = files
        self.runs = runs
        self.judge = judge
        self.note = note


class Space:
    def __init__(self, name, body, bound, variant="plain"):
        self.name = name
        self.body = body
        self.bound = bound
        self.variant = variant


FINDING = re.compile(r"^(.*?):\s*(\d+): \(([A-Z])\): (.*) \(([A-Z]-\d+)\)$")


class Result:
    __slots__ = ("wstatus", "timed_out", "points", "out", "err", "_f")

    def __init__(self, wstatus, timed_out, points, out, err):
        self.wstatus = wstatus
        self.timed_out = timed_out
        self.points = points
        self.out = out
        self.err = err
        self._f = None

    @property
    def code(self):
        if os.WIFEXITED(self.wstatus):
            return os.WEXITSTATUS(self.wstatus)
        return -os.WTERMSIG(self.wstatus)

    @property
    def findings(self):
        """list of (file, line, sev, msg, id)"""
        if self._f is None:
            f = []
            for l in self.out.split("\n"):
                m = FINDING.match(l)
                if m:
                    f.append((m.group(1), int(m.group(2)), m.group(3), m.group(4), m.group(5)))
            self._f = f
        return self._f

    def ids(self):
        return [f[4] for f in self.findings]

    def locs(self, *ids):
        """sorted (file, line, id), optionally only of these ids"""
        return sorted((f[0], f[1], f[4]) for f in self.findings if not ids or f[4] in ids)

    @property
    def summary(self):
        """dict id -> count of the summary block, or None when there is none; '(none)' gives {}"""
        if "Found the following issue counts:\n" not in self.out:
            return None
        d = {}
        for l in self.out.split("Found the following issue counts:\n", 1)[1].split("\n"):
            m = re.match(r"^([A-Z]-\d+): (\d+)$", l)
            if m:
                d[m.group(1)] = int(m.group(2))
        return d

    def crashed(self):
        return self.code < 0 or self.code == 99

    def brief(self):
        return {"exit": self.code, "stdout": self.out[:4000], "stderr": self.err[:4000]}


def _norm_run(r):
    if isinstance(r, dict):
        return r
    return {"argv": r}


class Server:
    def __init__(self, variant, base):
        self.variant = variant
        self.exe = build.build(variant)
        self.base = base
        self.p = None
        self.n = 0

    def start(self):
        self.dir = tempfile.mkdtemp(prefix="w", dir=self.base)
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LANG": "C", "LC_ALL": "C",
               "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=0:"
                               "max_allocation_size_mb=2048:hard_rss_limit_mb=3000:detect_stack_use_after_return=0:"
                               "handle_abort=0:symbolize=1",
               "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99"}
        self.p = subprocess.Popen([self.exe, self.dir], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  env=env, bufsize=1 << 16)
        self.r = self.p.stdout
        self.w = self.p.stdin

    def stop(self):
        if self.p:
            try:
                self.w.close()
            except OSError:
                pass
            try:
                self.p.wait(5)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
            self.p.stdout.close()
            shutil.rmtree(self.dir, ignore_errors=True)
            self.p = None

    @staticmethod
    def encode(files, runs, timeout):
        S = struct.pack
        b = [S("<I", len(files))]
        for path, content in files.items():
            kind = 0
            if isinstance(content, tuple):
                kind, content = content
            if isinstance(content, str):
                content = content.encode("utf-8", "surrogateescape")
            p = path.encode("utf-8", "surrogateescape")
            b.append(S("<BI", kind, len(p)))
            b.append(p)
            b.append(S("<I", len(content)))
            b.append(content)
        b.append(S("<I", len(runs)))
        for r in runs:
            r = _norm_run(r)
            a = r["argv"]
            fp = r.get("fault_path", "").encode()
            b.append(S("<IIIII", r.get("fault_kind", 0), r.get("fault_k", 0), r.get("timeout", timeout), r.get("chunk", 0), len(fp)))
            b.append(fp)
            b.append(S("<I", len(a)))
            for x in a:
                x = x.encode("utf-8", "surrogateescape") if isinstance(x, str) else x
                b.append(S("<I", len(x)))
                b.append(x)
        return b"".join(b)

    def _rdn(self, n):
        d = self.r.read(n)
        if len(d) != n:
            raise RuntimeError("execution server ended unexpectedly")
        return d

    def run(self, files, runs, timeout=10):
        if self.p is None:
            self.start()
        self.w.write(self.encode(files, runs, timeout))
        self.w.flush()
        res = []
        for _ in runs:
            st, to, pts, n = struct.unpack("<IIII", self._rdn(16))
            out = self._rdn(n)
            (n,) = struct.unpack("<I", self._rdn(4))
            err = self._rdn(n)
            res.append(Result(st, bool(to), pts, out.decode("utf-8", "backslashreplace"),
                              err.decode("utf-8", "backslashreplace")))
        return res


def case_key(case):
    return hashlib.blake2b(Server.encode(case.files, case.runs, 0), digest_size=8).digest()


def judge(case, results):
    """returns None or (message, signature)"""
    for i, r in enumerate(results):
        if r.timed_out:
            return ("run %d did not terminate within its time limit" % i, "hang")
    v = case.judge(results)
    if v is None:
        return None
    if isinstance(v, tuple):
        return v
    return (v, "")


# ---------------------------------------------------------------- workers
_G = {}


def _server(variant):
    s = _G["servers"].get(variant)
    if s is None:
        s = Server(variant, _G["base"])
        _G["servers"][variant] = s
    return s


def _winit(spaces, base):
    _G["spaces"] = spaces
    _G["servers"] = {}
    _G["base"] = base


def outcome(results):
    return tuple((r.code, tuple(sorted(collections.Counter(r.ids()).items()))) for r in results)


def describe(case, results=None):
    files = {}
    for p, c in case.files.items():
        kind = 0
        if isinstance(c, tuple):
            kind, c = c
        if isinstance(c, bytes):
            c = c.decode("utf-8", "backslashreplace")
        if len(c) > 1500:
            c = c[:1500] + "...[%d chars]" % len(c)
        files[p + {0: "", 1: "/ (dir)", 2: " (symlink)"}[kind]] = c
    d = {"files": files,
         "runs": [_norm_run(r) for r in case.runs[:6]]}
    if len(case.runs) > 6:
        d["runs_total"] = len(case.runs)
    if case.note:
        d["note"] = case.note
    if results is not None:
        d["observed"] = [{"exit": r.code, "findings": ["%s:%d %s" % (f[0], f[1], f[4]) for f in r.findings][:20]}
                         for r in results[:6]]
    return d


def _task(arg):
    si, root = arg
    sp = _G["spaces"][si]
    srv = _server(sp.variant)
    prefix = list(root)
    nroot = len(root)
    keys = array.array("Q")
    outcomes = collections.Counter()
    nontrivial = 0
    execs = 0
    edges = 0
    pruned = 0
    cases = 0
    viol = []
    samples = []
    fresh_from = nroot
    while True:
        c = Chooser(prefix)
        case = sp.body(c)
        edges += max(0, len(c.choices) - fresh_from)
        if case is None:
            pruned += 1
        else:
            cases += 1
            key = struct.unpack("<Q", case_key(case))[0]
            res = srv.run(case.files, case.runs)
            execs += len(res)
            v = judge(case, res)
            oc = outcome(res)
            if oc not in outcomes and len(samples) < 2:
                samples.append(describe(case, res))
            outcomes[oc] += 1
            if any(code != 0 or ids for code, ids in oc):
                nontrivial += 1
            keys.append(key)
            if v is not None:
                # replay before report: fresh executions of the same case must fail again
                again = 0
                for _ in range(2):
                    r2 = srv.run(case.files, case.runs, timeout=60)
                    v2 = judge(case, r2)
                    if v2 is not None:
                        again += 1
                        v, res = v2, r2
                viol.append({"space": sp.name, "choices": list(c.choices), "message": v[0], "sig": v[1],
                             "reproduced": again, "size": sum(len(x if not isinstance(x, tuple) else x[1])
                                                              for x in case.files.values())
                             + sum(len(" ".join(map(str, _norm_run(r)["argv"]))) for r in case.runs)})
        # next choice sequence below root
        ch, sz = c.choices, c.sizes
        i = len(ch) - 1
        while i >= nroot and ch[i] + 1 >= sz[i]:
            i -= 1
        if i < nroot:
            break
        prefix = ch[:i] + [ch[i] + 1]
        fresh_from = i
        if len([x for x in viol if x["reproduced"]]) >= 40:
            break
    for s in _G["servers"].values():
        pass
    return {"space": si, "cases": cases, "execs": execs, "edges": edges, "pruned": pruned,
            "nontrivial": nontrivial, "keys": keys.tobytes(), "outcomes": dict(outcomes.most_common(2000)),
            "viol": viol, "samples": samples}


def make_roots(space, want):
    roots = []
    edges = 0
    frontier = collections.deque([[]])
    while frontier and len(frontier) + len(roots) < want:
        p = frontier.popleft()
        try:
            space.body(Chooser(p, probe=True))
            roots.append(p)
        except ProbeStop as e:
            edges += e.n
            for k in range(e.n):
                frontier.append(p + [k])
    roots.extend(frontier)
    return roots, edges


def load_known(pid):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"] if k["property"] == pid and not k.get("fixed")]


def write_replay(pid, n, case, results, v):
    d = os.path.join(ROOT, "replays", pid, "%02d" % n)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "files"))
    import shlex
    for p, c in case.files.items():
        kind = 0
        if isinstance(c, tuple):
            kind, c = c
        fp = os.path.join(d, "files", p)
        os.makedirs(os.path.dirname(fp), exist_ok=True)
        if kind == 1:
            os.makedirs(fp, exist_ok=True)
        elif kind == 2:
            os.symlink(c, fp)
        else:
            if isinstance(c, str):
                c = c.encode("utf-8", "surrogateescape")
            with open(fp, "wb") as f:
                f.write(c)
    with open(os.path.join(d, "violation.txt"), "w") as f:
        f.write("property %s, space %s\nchoices %r\n\n%s\n" % (pid, v["space"], v["choices"], v["message"]))
        for r, res in zip(case.runs, results):
            r = _norm_run(r)
            f.write("\n--- selint %s%s\nexit %d\n%s\n%s\n" % (
                " ".join(shlex.quote(x if isinstance(x, str) else repr(x)) for x in r["argv"]),
                "" if not r.get("fault_kind") else "   [I/O point %s%s of %s fails, %d bytes per read]" % (
                    r.get("fault_k"), " and later ones" if r["fault_kind"] == 3 else "", r.get("fault_path") or "any file",
                    r.get("chunk", 64)),
                res.code, res.out[:20000], res.err[:20000]))
    with open(os.path.join(d, "cmd.sh"), "w") as f:
        f.write("#!/bin/sh\n# runs the built /repo/src/selint on the files of this counterexample\n%s"
                "cd \"$(dirname \"$0\")/files\" || exit 2\n" % (
                    "# (%s is the installed configuration: compile with that as SYSCONFDIR)\n" % build.SYSCONFDIR
                    if any(n.startswith(build.SYSCONFDIR) for n in case.files) else ""))
        for r in case.runs:
            r = _norm_run(r)
            f.write("/repo/src/selint %s; echo \"exit $?\"\n" % " ".join(
                shlex.quote(x if isinstance(x, str) else x.decode("utf-8", "backslashreplace")) for x in r["argv"]))
    os.chmod(os.path.join(d, "cmd.sh"), 0o755)
    return d


def explore(pid, spaces, tier, level, rule, assumptions, only=None):
    t0 = time.time()
    if only:
        spaces = [s for s in spaces if re.search(only, s.name)]
    shm = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    base = tempfile.mkdtemp(prefix="selint-mc-", dir=shm)
    atexit.register(shutil.rmtree, base, True)
    for v in sorted({s.variant for s in spaces}):
        build.build(v)
    t_build = time.time() - t0
    tasks = []
    edges = [0] * len(spaces)
    for i, s in enumerate(spaces):
        roots, e = make_roots(s, NPROC * 12)
        edges[i] += e
        tasks += [(i, r) for r in roots]
    stats = [{"space": s.name, "bound": s.bound, "build": s.variant, "cases": 0, "executions": 0, "pruned": 0,
              "nontrivial": 0} for s in spaces]
    keys = [set() for _ in spaces]
    outcomes = [collections.Counter() for _ in spaces]
    samples = [[] for _ in spaces]
    viol = []
    truncated = False
    ctx = mp.get_context("fork")
    known = load_known(pid)

    def is_known(v):
        return any(k["sig"] and k["sig"] == v["sig"] for k in known)

    with ctx.Pool(NPROC, _winit, (spaces, base)) as pool:
        for r in pool.imap_unordered(_task, tasks, chunksize=1):
            i = r["space"]
            stats[i]["cases"] += r["cases"]
            stats[i]["executions"] += r["execs"]
            stats[i]["pruned"] += r["pruned"]
            stats[i]["nontrivial"] += r["nontrivial"]
            edges[i] += r["edges"]
            a = array.array("Q")
            a.frombytes(r["keys"])
            keys[i].update(a)
            outcomes[i].update(r["outcomes"])
            if len(samples[i]) < 3:
                samples[i] += r["samples"][:1]
            viol += r["viol"]
            if len([v for v in viol if v["reproduced"] and not is_known(v)]) >= 60:
                truncated = True
                pool.terminate()
                break
    flaky = [v for v in viol if not v["reproduced"]]
    real = [v for v in viol if v["reproduced"]]
    knownv = [v for v in real if is_known(v)]
    new = sorted((v for v in real if not is_known(v)), key=lambda v: (v["size"], v["choices"]))
    for k in known:
        hits = [v for v in knownv if v["sig"] == k["sig"]]
        if hits:
            print("KNOWN-FINDING: property=%s %s [%d cases]" % (pid, k["what"], len(hits)))
        else:
            print("note: listed finding not reproduced on this tree: %s" % k["what"])
    rc = 0
    if new:
        rc = 1
        shutil.rmtree(os.path.join(ROOT, "replays", pid), ignore_errors=True)
        seen = set()
        n = 0
        for v in new:
            cls = (v["space"], v["sig"] or v["message"][:60])
            if cls in seen:
                continue
            seen.add(cls)
            sp = [s for s in spaces if s.name == v["space"]][0]
            case = sp.body(Chooser(v["choices"]))
            srv = Server(sp.variant, base)
            res = srv.run(case.files, case.runs, timeout=60)
            srv.stop()
            d = write_replay(pid, n, case, res, v)
            print("VIOLATION property=%s replay=%s" % (pid, d))
            print("    space %s: %s" % (v["space"], v["message"][:1500]))
            n += 1
            if n >= 5:
                break
        print("%d violating cases in total%s" % (len(new), " (exploration stopped early)" if truncated else ""))
    total_cases = sum(len(k) for k in keys)
    all_out = sum(len(o) for o in outcomes)
    for i, s in enumerate(stats):
        s["distinct_cases"] = len(keys[i])
        s["distinct_outcomes"] = len(outcomes[i])
        s["transitions"] = edges[i]
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
        "coverage": {
            "states": total_cases,
            "transitions": sum(edges),
            "traces_validated_against_impl": sum(s["executions"] for s in stats),
            "evaluations": sum(s["cases"] for s in stats),
            "distinct_nontrivial": sum(s["nontrivial"] for s in stats),
            "distinct_outcomes": all_out,
            "rule": rule + "  states = distinct complete cases (input files + command lines); transitions = edges of "
                    "the choice tree; traces = executions of the real selint code, each compared with the reference "
                    "model; non-trivial = at least one run produced a finding or a non-zero exit status.",
            "samples": [x for s in samples for x in s[:2]][:12],
            "spaces": stats,
            "exhaustive": not truncated,
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
        "known_findings_seen": len(knownv),
        "unreproducible": len(flaky),
    }
    if flaky:
        ev["unreproducible_examples"] = flaky[:3]
        print("note: %d observations did not reproduce and were not reported, e.g. %s" % (len(flaky), flaky[0]))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for s in stats:
        print("  %-34s cases %8d (pruned %d)  executions %8d  transitions %8d  nontrivial %8d  outcomes %5d  [%s]" % (
            s["space"], s["distinct_cases"], s["pruned"], s["executions"], s["transitions"], s["nontrivial"],
            s["distinct_outcomes"], s["build"]))
    print("%s %s: %s; %d cases, %d executions, build %.1fs, total %.1fs" % (
        pid, tier, "VIOLATED" if rc else "held on everything explored", total_cases,
        sum(s["executions"] for s in stats), t_build, time.time() - t0))
    return rc
