"""Reference model of the policy syntax: a lexer and a general (Earley) recogniser.

first_error() gives the first token with which no file can begin the way the given one does."""
import re
from functools import lru_cache

KEYWORDS = """policy_module module type typealias alias attribute bool typeattribute roleattribute role types attribute_role allow allowxperm
auditallow auditallowxperm dontaudit dontauditxperm neverallow neverallowxperm type_transition type_member type_change range_transition
role_transition optional_policy gen_require gen_bool gen_tunable require tunable_policy ifelse refpolicywarn class common inherits if else
ifdef ifndef genfscon sid portcon netifcon nodecon fs_use_trans fs_use_xattr fs_use_task define gen_user gen_context permissive typebounds
interface template userdebug_or_eng""".split()

# first longest match wins
_LEX = [
    ("DNL", r"dnl(?:[^a-zA-Z0-9_\n][^\n]*)?"), ("KEY", r"(?:%s)" % "|".join(sorted(KEYWORDS, key=len, reverse=True))),
    ("VERSION", r"[0-9]+\.[0-9]+(?:\.[0-9]+)?"), ("NUMBER", r"[0-9]+"), ("STRING", r"[a-zA-Z$/][a-zA-Z0-9_$*/-]*"),
    ("NUMSTRING", r"[0-9a-zA-Z$/][a-zA-Z0-9_$*/-]*"), ("IPV4", r"[0-9]{1,3}(?:\.[0-9]{1,3}){3}"),
    ("IPV6", r"(?:[0-9A-Fa-f]{1,4})?:[0-9A-Fa-f:]*:(?:[0-9A-Fa-f]{1,4})?"), ("QUOTED", r'"[a-zA-Z0-9_.:~$-]*"'),
    ("KIND", r"-[-ldbcsp][ \t]"), ("PUNCT", r"&&|\|\||!=|==|[(),.{}:;`'~*^!-]"),
    ("COMMAND", r"#selint-disable: ?[CSWEF]-[0-9]+(?:, ?[CSWEF]-[0-9]+)*"), ("COMMENT", r"#[^\n]*"),
    ("SKIP", r"[ \t\n\r]"),
]
_LEX = [(k, re.compile(r)) for k, r in _LEX]


def lex(text):
    """[(terminal, line, column, text)]"""
    out, pos, line, start = [], 0, 1, 0
    while pos < len(text):
        best, kind = 0, "UNKNOWN"
        for k, r in _LEX:
            m = r.match(text, pos)
            if m:
                n = m.end() - pos
                if n > best:
                    best, kind = n, k
        n = best or 1
        t = text[pos:pos + n]
        if kind not in ("SKIP", "DNL"):
            out.append((t if kind in ("KEY", "PUNCT") else kind, line, pos - start, t))
        pos += n
        if "\n" in t:
            line += t.count("\n")
            start = pos
    return out


GRAMMAR = r"""
any_file = te_file
any_file = if_file
any_file = spt_file
any_file = av_file
te_file = comments header command? line*
te_file = comments
if_file = comments interface iflines
if_file = comments
spt_file = comments permdef sptline*
spt_file = comments
av_file = comments avdef avline*
av_file = comments
comments = COMMENT*
command? =
command? = COMMAND
header = policy_module ( STRING , version )
header = module STRING version ;
version = VERSION
version = NUMBER
iflines = ifline*
ifline = interface
ifline = COMMENT
interface = ifword ( ` STRING ' , ` command? line* ' )
ifword = interface
ifword = template
sptline = permdef
sptline = COMMENT
permdef = define ( ` STRING ' , ` list ' )
permdef = define ( ` STRING ' , ` list warn ' )
avline = avdef
avline = COMMENT
avdef = class STRING perms
avdef = class STRING inherits STRING
avdef = class STRING inherits STRING perms
avdef = common STRING perms
perms = { perm perm* }
perm = STRING
perm = COMMENT
line = stmt command?
lines = line line*
stmt = type STRING ;
stmt = type STRING , names ;
stmt = type STRING alias list ;
stmt = type STRING alias list , names ;
stmt = attribute STRING ;
stmt = class STRING list ;
stmt = role STRING ;
stmt = attribute_role STRING ;
stmt = bool STRING ;
stmt = gen_bool ( STRING , STRING )
stmt = gen_tunable ( ` STRING ' , STRING )
stmt = gen_tunable ( STRING , STRING )
stmt = typealias STRING alias list ;
stmt = typeattribute STRING names ;
stmt = roleattribute STRING names ;
stmt = av list list : list list ;
stmt = xav list list : list STRING xlist ;
stmt = allow list list ;
stmt = role STRING types list ;
stmt = type_transition list list : list STRING ;
stmt = type_transition list list : list STRING QUOTED ;
stmt = type_member list list : list STRING ;
stmt = type_change list list : list STRING ;
stmt = range_transition list list : list range ;
stmt = role_transition list list STRING ;
stmt = role_transition list list : list STRING ;
stmt = STRING ( args )
stmt = STRING ( )
stmt = STRING
stmt = optional_policy ( ` command? line* ' )
stmt = optional_policy ( ` command? lines ' , ` lines ' )
stmt = gen_require ( command? ` command? reqs ' )
stmt = gen_require ( command? reqs )
stmt = require { command? reqs }
stmt = ifword2 ( ` STRING ' , margs )
stmt = ifelse ( margs )
stmt = warn
stmt = userdebug_or_eng ( ` lines ' )
stmt = if ( command? cond ) { lines }
stmt = if ( command? cond ) { lines } else { lines }
stmt = tunable_policy ( ` cond ' , margs )
stmt = tunable_policy ( cond , margs )
stmt = genfscon fsname STRING kind? context
stmt = sid STRING context
stmt = portcon STRING ports context
stmt = netifcon STRING context context
stmt = nodecon IPV4 IPV4 context
stmt = nodecon IPV6 IPV6 context
stmt = fsuse STRING context ;
stmt = define ( mname )
stmt = define ( mname , expansion )
stmt = gen_user ( opt opt items , range , range )
stmt = gen_user ( opt opt items , range , range , range )
stmt = permissive STRING ;
stmt = typebounds STRING STRING ;
stmt = ;
stmt = COMMENT
av = allow
av = auditallow
av = dontaudit
av = neverallow
xav = allowxperm
xav = auditallowxperm
xav = dontauditxperm
xav = neverallowxperm
xlist = { xitem xitem* }
xlist = ~ xlist
xlist = xitem
xitem = STRING
xitem = NUMSTRING
xitem = NUMBER
xitem = -
list = { items }
list = ~ list
list = item
list = *
items = item item*
item = STRING
item = - STRING
item = QUOTED
names = STRING
names = names , STRING
reqs = req req*
req = bare command?
bare = type names ;
bare = attribute names ;
bare = role names ;
bare = attribute_role names ;
bare = bool names ;
bare = class STRING list ;
bare = ifword2 ( ` STRING ' , ` reqs ' )
bare = ifword2 ( ` STRING ' , reqs )
bare = COMMENT
ifword2 = ifdef
ifword2 = ifndef
warn = refpolicywarn ( ` text ' )
text = telem telem*
text = telem* ` telem '
telem = STRING
telem = (
telem = )
telem = {
telem = }
telem = ,
telem = .
telem = :
telem = ;
telem = -
cond = STRING
cond = ! cond
cond = cond binop cond
cond = ( cond )
binop = &&
binop = ||
binop = ^
binop = ==
binop = !=
margs = marg
margs = margs , marg
marg =
marg = ` line* '
marg = STRING
args = arg
args = args , arg
args = args item
arg = xlist
arg = QUOTED
arg = ` items '
arg = ` '
range = level
range = level - level
level = cat
level = cat : cat
cat = STRING
cat = STRING . STRING
fsname = STRING
fsname = NUMSTRING
kind? =
kind? = KIND
ports = NUMSTRING
ports = NUMBER
ports = NUMBER - NUMBER
fsuse = fs_use_trans
fsuse = fs_use_xattr
fsuse = fs_use_task
mname = ` STRING '
mname = STRING
expansion =
expansion = ` text '
expansion = STRING
opt = STRING ,
opt = ,
context = raw
context = gen_context ( raw )
context = gen_context ( raw , range )
context = gen_context ( raw , range , range )
context = gen_context ( raw , range , )
raw = STRING : STRING : STRING
raw = STRING : STRING : STRING : range
"""


def _rules():
    rules = {}
    for l in GRAMMAR.strip().split("\n"):
        left, right = l.split(" =", 1)
        rules.setdefault("<" + left, []).append(tuple(right.split()))
    names = {n[1:] for n in rules}
    # words that are both a keyword and the name of a rule (interface, require, ...): a rule only where no keyword of the name exists,
    # except for those given here
    both = {w for w in names if w in KEYWORDS}
    out = {}
    for n, alts in rules.items():
        out[n] = []
        for a in alts:
            syms = []
            for s in a:
                if s.endswith("*") and len(s) > 1:
                    syms.append("<" + s)
                    out["<" + s] = [(), ("<" + s, "<" + s[:-1] if s[:-1] in names else s[:-1])]
                elif s in names and (s not in both or n in ("<if_file", "<ifline")):
                    syms.append("<" + s)
                else:
                    syms.append(s)
            out[n].append(tuple(syms))
    return out


RULES = _rules()
TERMINALS = sorted({s for alts in RULES.values() for a in alts for s in a if not s.startswith("<")})


def _nullable():
    null = set()
    while True:
        new = {n for n, alts in RULES.items() if any(all(s in null for s in a) for a in alts)}
        if new == null:
            return null
        null = new


NULL = _nullable()


class State:
    """Earley column: items (rule, alternative, dot, origin column)"""
    __slots__ = ("items", "wants", "terms")

    def __init__(self, kernel, start=None):
        self.wants, self.terms = {}, {}
        self.items = set()
        work = []

        def add(i):
            if i not in self.items:
                self.items.add(i)
                work.append(i)
        for i in kernel:
            add(i)
        if start:
            for k in range(len(RULES[start])):
                add((start, k, 0, None))
        while work:
            n, k, dot, origin = it = work.pop()
            alt = RULES[n][k]
            if dot == len(alt):
                src = self if origin is None else origin
                for n2, k2, d2, o2 in list(src.wants.get(n, ())):
                    add((n2, k2, d2 + 1, o2 if o2 is not None or src is self else src))
                continue
            s = alt[dot]
            if s[0] == "<" and len(s) > 1:
                self.wants.setdefault(s, []).append(it)
                for k2 in range(len(RULES[s])):
                    add((s, k2, 0, None))
                if s in NULL:
                    add((n, k, dot + 1, origin))
            else:
                self.terms.setdefault(s, []).append(it)

    def step(self, t):
        k = self.terms.get(t)
        if not k:
            return None
        return State([(n, a, d + 1, self if o is None else o) for n, a, d, o in k])

    def accepts(self, start, first):
        return any(n == start and d == len(RULES[n][k]) and (o is first or (o is None and self is first)) for n, k, d, o in self.items)


@lru_cache(maxsize=200000)
def _state(start, prefix):
    if not prefix:
        return State([], "<" + start)
    prev = _state(start, prefix[:-1])
    return prev.step(prefix[-1]) if prev else None


def first_error(start, terms):
    """None when the terminals form a file of kind `start` (te, if, spt, av), the index of the token with which they can no longer
    become a file of any kind (len(terms): the end), or -1 when they form a file of another kind"""
    if not terms:
        return None
    root = "any_file"
    for i in range(len(terms)):
        if _state(root, tuple(terms[:i + 1])) is None:
            return i
    if not _state(root, tuple(terms)).accepts("<" + root, _state(root, ())):
        return len(terms)
    root = start + "_file"
    s = _state(root, tuple(terms))
    return None if s is not None and s.accepts("<" + root, _state(root, ())) else -1
