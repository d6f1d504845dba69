"""Statement forms and block structures shared by the property modules."""

# forms in which a name can stand in a statement; kind t: type/attribute position, r: role position
# %s is the name, own_t/own2_t/own_r/own_a are names of the own module
USES = [
    ("allow-source", "allow %s own_t:file a;"),
    ("allow-target", "allow own_t %s:file a;"),
    ("allow-source-first", "allow { %s own_t } own_t:file a;"),
    ("allow-source-last", "allow { own_t own2_t %s } own_t:file a;"),
    ("allow-target-first", "allow own_t { %s own_t }:file a;"),
    ("allow-target-last", "allow own_t { own2_t own_t %s }:{ file dir } { a b };"),
    ("allow-except", "allow own_t { own_t -%s }:file a;"),
    ("allow-source-except", "allow { own_a -%s -own2_t } own_t:file a;"),
    ("allow-complement", "allow ~%s own_t:file a;"),
    ("allow-complement-set", "allow own_t ~{ own_t %s }:file a;"),
    ("dontaudit", "dontaudit own_t %s:file a;"),
    ("auditallow", "auditallow %s own_t:file a;"),
    ("neverallow", "neverallow own_t %s:file a;"),
    ("allowxperm-source", "allowxperm %s own_t:file ioctl 0x1;"),
    ("allowxperm-target", "allowxperm own_t { own_t %s }:file ioctl { 0x1-0x5 0x7 };"),
    ("dontauditxperm", "dontauditxperm own_t %s:file ioctl ~{ 0x1 };"),
    ("neverallowxperm", "neverallowxperm { %s own_t } own_t:file ioctl 0x1;"),
    ("type_transition-source", "type_transition %s own_t:file own_t;"),
    ("type_transition-target", "type_transition own_t %s:process own_t;"),
    ("type_transition-default", "type_transition own_t own2_t:file %s;"),
    ("type_transition-name", "type_transition own_t own2_t:{ file dir } %s \"name\";"),
    ("type_transition-set", "type_transition { own_t %s } { own2_t own_t }:file own_t;"),
    ("type_change", "type_change own_t own2_t:file %s;"),
    ("type_member", "type_member own_t %s:file own_t;"),
    ("range_transition-source", "range_transition %s own_t:process s0;"),
    ("range_transition-target", "range_transition own_t %s:process s0 - s0:c0.c1;"),
    ("role_transition-source", "role_transition %s own_t own_r;"),
    ("role_transition-type", "role_transition own_r { own_t %s }:file own_r;"),
    ("role_transition-default", "role_transition own_r own_t %s;"),
    ("role_allow-from", "allow %s own_r;"),
    ("role_allow-from-first", "allow { %s own_r } own_r;"),
    ("role_allow-from-last", "allow { own_r %s } { own_r system_r };"),
    ("role_allow-to", "allow own_r { own_r %s };"),
    ("role_transition-roles", "role_transition { own_r %s } own_t own_r;"),
    ("role_types-role", "role %s types own_t;"),
    ("role_types-type", "role own_r types %s;"),
    ("role_types-set", "role own_r types { own_t own2_t %s };"),
    ("typeattribute-type", "typeattribute %s own_a;"),
    ("typeattribute-attr", "typeattribute own_t %s;"),
    ("typeattribute-attrs", "typeattribute own_t own_a, %s;"),
    ("roleattribute-role", "roleattribute %s own_ra;"),
    ("roleattribute-attr", "roleattribute own_r own_ra, %s;"),
    ("permissive", "permissive %s;"),
    ("typebounds-parent", "typebounds %s own_t;"),
    ("typebounds-child", "typebounds own_t %s;"),
    ("call-1", "some_call(%s)"),
    ("call-2", "some_call(own_t, %s)"),
    ("call-3-of-4", "some_call(own_t, own2_t, %s, file)"),
    ("call-set", "some_call(own_t, { own_t %s })"),
    ("call-quoted", "some_call(`own_t %s', own_t)"),
    ("call-except", "some_call({ own_a -%s }, own_t)"),
]
FORM = dict(USES)

# statements that do not name anything foreign
FILLERS = ["allow own_t self:file a;", "allow own_t own_t:file a;", "some_call(own_t)", "# note",
           "type_transition own_t own2_t:process own_t;", "typeattribute own_t own_a;", "role own_r types own_t;"]

# block kinds: opening line, separators between branches, closing line
BLOCKS = {
    "optional": (["optional_policy(`"], ["', `"], ["')"]),
    "ifdef": (["ifdef(`b',`"], ["', `"], ["')"]),
    "ifndef": (["ifndef(`b',`"], ["', `"], ["')"]),
    "tunable": (["tunable_policy(`b',`"], ["', `"], ["')"]),
    "bool": (["if (b) {"], ["} else {"], ["}"]),
    "ifelse": (["ifelse(`b',`c',`"], ["', `"], ["')"]),
    "debug": (["userdebug_or_eng(`"], [], ["')"]),
}


class Node:
    """leaf: kind is a leaf symbol; block: kind is the block kind and branches a list of lists of nodes"""
    __slots__ = ("kind", "branches", "line", "end", "parent", "branch", "index")

    def __init__(self, kind, branches=None):
        self.kind = kind
        self.branches = branches
        self.line = self.end = 0
        self.parent = None
        self.branch = 0
        self.index = 0


def tree(c, leaves, blocks, size, depth, two_branches=(), minsize=1):
    """every forest with at most `size` nodes and block depth `depth`; each branch has at least one node.
    two_branches: block kinds that may also have a second branch"""
    budget = [size]

    def forest(d, reserve):
        """a non-empty list of nodes, leaving `reserve` nodes of budget"""
        out = []
        while True:
            opts = []
            if budget[0] - reserve >= 1:
                opts += [("leaf", l) for l in leaves]
            if d > 0 and budget[0] - reserve >= 2:
                opts += [("block", b) for b in blocks]
            if out:
                opts.insert(0, ("end", None))
            k, v = c.pick(opts)
            if k == "end":
                return out
            budget[0] -= 1
            if k == "leaf":
                out.append(Node(v))
            else:
                br = [forest(d - 1, reserve)]
                if v in two_branches and budget[0] - reserve >= 1 and c.flag():
                    br.append(forest(d - 1, reserve))
                out.append(Node(v, br))
            if budget[0] - reserve <= 0:
                return out
    f = forest(depth, 0)
    return f


def walk(nodes, parent=None, branch=0):
    """document order; sets parent, branch and index"""
    for i, n in enumerate(nodes):
        n.parent, n.branch, n.index = parent, branch, i
        yield n
        if n.branches:
            for b, br in enumerate(n.branches):
                yield from walk(br, n, b)


def emit(nodes, leaf_lines, lines, indent=""):
    """appends the text of the forest to lines; sets line (first) and end (last) of every node.
    leaf_lines(node) -> list of lines"""
    for n in nodes:
        n.line = len(lines) + 1
        if n.branches is None:
            lines.extend(indent + l if l else l for l in leaf_lines(n))
        else:
            o, s, e = BLOCKS[n.kind]
            lines.extend(indent + l for l in o)
            for i, b in enumerate(n.branches):
                if i:
                    lines.extend(indent + l for l in s)
                emit(b, leaf_lines, lines, indent + "\t")
            lines.extend(indent + l for l in e)
        n.end = len(lines)


def siblings_before(n, roots):
    """earlier nodes of the same branch"""
    if n.parent is None:
        return roots[:n.index]
    return n.parent.branches[n.branch][:n.index]


def visible_before(n, roots):
    """earlier siblings of the node and of the blocks around it"""
    while n is not None:
        yield from siblings_before(n, roots)
        n = n.parent


def exact(exp, what="", code=0):
    """judge: exactly these (file, line, id) findings"""
    exp = sorted(exp)

    def judge(rs):
        r = rs[0]
        if r.code != code:
            return "exit status %d, expected %d" % (r.code, code)
        got = r.locs()
        if got != exp:
            return "%sunexpected %s, missing %s" % (what + ": " if what else "", [x for x in got if x not in exp][:6],
                                                    [x for x in exp if x not in got][:6])
        return None
    return judge


def only(*ids):
    a = ["-s", "-E"]
    for i in ids:
        a += ["-e", i]
    return a


def near(word, sep="_"):
    """the word and others that are close to it"""
    v = [word, word + "x", word + sep + "x", "x" + word, "x" + sep + word, word[:-1], word[1:], word.upper(), word.capitalize(), word[0].upper() + word[1:], word + sep,
         word + word, word.replace("_", ""), word.replace("_", "__"), word + "1", word[:-1] + word[-1].upper(), "x" + word + "x", word.replace("r", "R", 1)]
    return [x for i, x in enumerate(v) if x not in v[:i] and not x[0].isdigit()]
