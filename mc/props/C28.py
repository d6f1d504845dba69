"""Names are just names: renaming a declared thing consistently changes only its name in the findings."""
import re

from core import Case, Space

RULE = ("One policy of 9 files with 44 names and about 80 findings of 25 checks; every name replaced by every shape of name, by every keyword with "
        "something before or after it; every pair of names replaced by similar names, exchanged, or (in unrelated name spaces) made equal; all names at once.")
ASSUMPTIONS = ["W-001 to W-003 look names up without their kind, so names of types, attributes, roles, booleans, classes and permissions are kept different",
               "C-001, C-005 and C-006, which go by the alphabet, are on only where the new names keep the order"]

AV = """class file { read write open getattr append lock ioctl map execute @perm@ }
class dir { search getattr open read }
class process { signal transition }
class @class@ { use @perm@ @perm2@ getattr }
"""
SPT = """define(`read_file_perms',`{ getattr open read lock ioctl }')
define(`search_dir_perms',`{ getattr search open }')
define(`@pmacro@_perms',`{ @perm@ use }')
"""
MODS = """kernel = base
@mine@ = module
@other@ = @mtype@
"""
OTHER_TE = """policy_module(@other@,1.0)
attribute @fattr@;
attribute_role @fra@;
type @ft@, @fattr@;
type @ft2@;
typealias @ft@ alias @falias@;
role @frole@;
gen_tunable(@fbool@,false)
gen_bool(@fbool2@,true)
"""
OTHER_IF = """## <summary>other</summary>
## <summary>doc</summary>
interface(`@other@_@if@',`
	gen_require(`
		type @ft@;
		attribute @fattr@;
		class @class@ { use };
		bool @fbool@;
	')
	allow $1 { @ft@ @fattr@ }:@class@ use;
	if (@fbool@) {
		allow $1 @ft@:file getattr;
	}
')
## <summary>doc</summary>
template(`@other@_@tpl@',`
	gen_require(`
		attribute @fattr@;
		role @frole@;
	')
	type $1_@stem@_t, @fattr@;
	role @frole@ types $1_@stem@_t;
')
## <summary>doc</summary>
interface(`@other@_@role@_rolei',`
	gen_require(`
		attribute_role @fra@;
		type @ft2@;
	')
	roleattribute $1 @fra@;
	role $1 types @ft2@;
')
"""
MY_TE = """policy_module(@mine@,1.0)
attribute @oattr@;
attribute @oattr2@;
attribute_role @ora@;
type @ot@, @oattr@;
type @ot2@;
typealias @ot2@ alias @oalias@;
role @orole@;
gen_user(@user@, @prefix@, @orole@, s0, s0 - mls_systemhigh)
gen_tunable(@obool@,false)
gen_bool(@obool2@,true)
gen_require(`
	type @ft2@;
	class @class@ { use @perm@ };
')
allow @ot@ @ft2@:@class@ { @perm@ @perm2@ };
allow @ot@ @ft@:file read_file_perms;
allow @ot@ { @ot@ @ot2@ @falias@ }:@class@ @perm@;
allow { @oattr@ -@ot@ } @fattr@:file @perm@;
allow @ot@ @ot@:@class@ use;
allow @ot@ self:@class@ *;
allow @ot@ @oalias@:@class@ ~use;
allow @ot@ @oattr2@:@class@ { use @pmacro@_perms };
allow @ot@ @oattr2@:@class@ @pmacro@_perms;
allow @ot@ @oattr2@:@class@ { @perm@ search };
allow @ot@ @oattr2@:dir { @perm@ search };
allow @ot@ @oattr2@:{ @class@ nosuch } { use @perm@ };
allow @ot@ @oattr2@:dir @unknown@_perms;
dontaudit @ot@ @ot2@:file { @perm@ read };
auditallow @ot@ { @ot2@ self }:file { @perm@ @perm@ };
neverallow @oattr2@ ~{ @ot@ @oattr@ }:@class@ use;
allowxperm @ot@ @ft@:file ioctl { 0x1 };
type_transition @ot@ @ft@:@class@ @ot2@;
type_transition @ot@ @ot2@:file @ft@ "@fname@";
type_change @ot@ @falias@:file @ot2@;
range_transition @ot@ @ot2@:@class@ s0 - s0:c0.c1;
role_transition @orole@ @ft@:process @frole@;
allow @orole@ @frole@;
role @frole@ types @ot@;
role @orole@ types { @ot@ @ft@ };
roleattribute @orole@ @fra@;
roleattribute @orole@ @ora@;
typeattribute @ft@ @oattr@;
typeattribute @ot@ @fattr@, @oattr2@;
permissive @ot@;
typebounds @ot@ @ft@;
@other@_@if@(@ot@)
@other@_@if@(@ft@)
@other@_@if@({ @ot@ @ot2@ })
@other@_@if@(@ot@ @ot2@)
@other@_@if@(@ot@, @ot2@)
@other@_@tpl@(@stemarg@)
@mine@_@mif@(@ot@)
@other@_nosuch(@ot@)
@other@_@role@_rolei(@orole@)
allow @stemarg@_@stem@_t @ot@:file @perm@;
allow @ot@ @stemarg@_@stem@_t:file @perm@;
@custom@
optional_policy(`
	@other@_@if@(@oattr@)
')
optional_policy(`
	gen_require(`
		type @ft@;
	')
	allow @ot@ @ft@:file getattr;
')
ifdef(`@def@',`
	allow @ot@ @ft@:file getattr;
')
ifndef(`@def@',`
	allow @ot@ @ft2@:file getattr;
')
tunable_policy(`@obool@ && @fbool@',`
	allow @ot@ @ft@:file getattr;
')
if (@obool2@ || !@fbool2@) {
	allow @ot@ @ot2@:file @perm@;
}
require {
	type @unk@_t;
	bool @fbool2@;
}
allow @ot@ @unk@_t:@class@ @perm2@; #selint-disable:E-007
allow @ot@ @fattr@:@class@ { use @perm@ }; #selint-disable: W-001
"""
MY_IF = """## <summary>mine</summary>
## <summary>doc</summary>
interface(`@mine@_@mif@',`
	gen_require(`
		type @ot@, @ot2@;
		type @ft@;
		attribute @oattr@, @unused@;
		role @orole@, @frole@;
		attribute_role @ora@;
		class @class@ { use };
		bool @obool@;
	')
	allow $1 @ot@:@class@ { use @perm@ };
	allow $1 @oattr@:file { @perm@ read };
	allow $1 @oattr2@:file @perm@;
	allow @ot@ $1:@class@ use;
	role @orole@ types $1;
	roleattribute @orole@ @ora@;
	roleattribute @frole@ @fra@;
	@other@_@if@($1)
	@other@_@tpl@($1)
	tunable_policy(`@obool@ && @obool2@',`
		allow $1 @oalias@:file getattr;
	')
	type @newt@_t;
')
interface(`@mine@_@mif2@',`
	gen_require(`
		type @ft@;
		type @unk@_t;
		attribute @oattr@;
	')
	allow $1 @ft@:file getattr;
	allow $1 @oattr@:@class@ { @perm@ @perm2@ };
	@mine@_@mif@($1)
')
## <summary>doc</summary>
template(`@mine@_@mtpl@',`
	gen_require(`
		type @ot@;
		attribute @oattr@;
	')
	type $1_@stem@_t, @oattr@;
	allow $1_@stem@_t @ot@:file @perm@;
	allow $1_@stem@_t @ot2@:file @perm@;
	@other@_@tpl@($1_@stem@)
')
"""
MY_FC = """/usr/@path@	--	gen_context(@user@:object_r:@ot@,s0)
/usr/@path@1	--	gen_context(@user@:@orole@:@ft@,s0)
/usr/@path@2	--	gen_context(system_u:@frole@:@falias@,s0)
/usr/@path@3	--	gen_context(nosuch_u:nosuch_r:@unk@_t,s0)
/usr/@path@4	--	gen_context(@user@:object_r:@oalias@)
/usr/@path@5	--	gen_context(@user@:object_r:@stemarg@_@stem@_t,s0:c0)
/usr/@path@6	--	@fcmacro@
ifdef(`@def@',`
/usr/@path@7/.*	-d	gen_context(@user@:object_r:@oattr@,s0)
')
"""
KERNEL_TE = "policy_module(kernel,1.0)\ntype kernel_t;\nrole system_r;\n"
FILES = {"access_vectors": AV, "obj_perm_sets.spt": SPT, "modules.conf": MODS, "apps/kernel.te": KERNEL_TE,
         "apps/@other@.te": OTHER_TE, "apps/@other@.if": OTHER_IF, "apps/@mine@.te": MY_TE, "apps/@mine@.if": MY_IF, "apps/@mine@.fc": MY_FC}
BASE = {
    "perm": "nqpa", "perm2": "nqpb", "class": "nqclass", "pmacro": "nqpm", "mine": "nqmine", "other": "nqother", "mtype": "base",
    "fattr": "nqfattr", "fra": "nqfra", "ft": "nqft_t", "ft2": "nqftt_t", "falias": "nqfalias_t", "frole": "nqfrole_r", "fbool": "nqfbool",
    "fbool2": "nqfboolb", "if": "nqif", "tpl": "nqtpl", "stem": "nqstem", "role": "nqrole", "oattr": "nqoattr", "oattr2": "nqoattrb",
    "ora": "nqora", "ot": "nqot_t", "ot2": "nqott_t", "oalias": "nqoalias_t", "orole": "nqorole_r", "user": "nquser_u", "prefix": "nqprefix",
    "obool": "nqobool", "obool2": "nqoboolb", "unknown": "nqunknown", "fname": "nqfname", "stemarg": "nqarg", "mif": "nqmif", "mif2": "nqmiff",
    "mtpl": "nqmtpl", "custom": "nqcustom", "def": "nqdef", "unk": "nqunk", "unused": "nqunused", "newt": "nqnewt", "path": "nqpath",
    "fcmacro": "nqfcmacro",
}
FIX = ["mtype"]
# how a name of each kind has to look for the findings to stay: types end in _t, roles and users have no rule
SUFFIX = {"ft": "_t", "ft2": "_t", "falias": "_t", "ot": "_t", "ot2": "_t", "oalias": "_t"}
KEYS = [k for k in BASE if k not in FIX]


def render(names):
    sub = lambda t: re.sub(r"@(\w+?)@", lambda m: names[m.group(1)], t)
    return {sub(p): sub(t) for p, t in FILES.items()}


CFG = "assume_users = { system_u }\nassume_roles = { object_r }\n"
NOORDER = ["-d", "C-001", "-d", "C-005", "-d", "C-006"]


def case(names, order, note, mode=None, extra=()):
    """the policy under BASE and under `names`: the same findings up to the names"""
    f = {"cfg": CFG}
    for d, ns in (("b", BASE), ("v", names)):
        for p, t in render(ns).items():
            f["%s/%s" % (d, p)] = t
    argv = ["-c", "cfg"] + (["-s"] if mode is None else mode) + list(extra) + ([] if order else NOORDER)
    new = {BASE[k]: names[k] for k in KEYS}
    tok = re.compile("|".join(sorted(map(re.escape, new), key=lambda x: -len(x))))

    def judge(rs):
        a, b = rs
        if a.code != 0 or b.code != 0:
            return "%s: exit status %d and %d" % (note, a.code, b.code)
        conv = lambda t: tok.sub(lambda m: new[m.group(0)], t)
        x = sorted((conv(fl), l, s, conv(m), i) for fl, l, s, m, i in a.findings)
        y = sorted(b.findings)
        if x != y:
            return "%s: unexpected %s, missing %s" % (note, [(q[0], q[1], q[4], q[3][:70]) for q in y if q not in x][:3],
                                                      [(q[0], q[1], q[4], q[3][:70]) for q in x if q not in y][:3])
        return None
    return Case(f, [argv + ["-r", "b"], argv + ["-r", "v"]], judge)


# names of any shape the language allows; %s is the base name
SHAPES = ["a", "Z", "x1", "a_b", "A_B_C", "x_", "x__y", "t1234567890", "X%s", "%sx", "%s_", "%s1", "%s_t", "%s_r", "%s_u", "%s%s", "x-y", "%s-1",
          "type_x", "xtype", "allowx", "ifx", "x_if", "selfx", "xself", "self1", "object_rx", "system_ux", "all_x", "gen_require_x", "interfacex",
          "x_perms1", "notx", "andx", "s0x", "truex", "classx", "policy_modulex", "elsex", "typesx", "roles", "alias1", "dnlx", "definex",
          "L" * 64, "l" * 255, "m" * 300, "q_" * 100, "file1", "dir_", "process2", "xfile", "kernelx", "kernel1", "kerne", "filex_t"]


def shape(k, s):
    b = BASE[k]
    suf = SUFFIX.get(k, "")
    n = s.replace("%s", b[:len(b) - len(suf)] if suf else b)
    return n + suf


def single(c):
    k = c.pick(KEYS)
    s = c.pick(SHAPES)
    n = shape(k, s)
    if n in BASE.values() or (k, s[:4]) == ("unknown", "all_") or (k in ("mine", "other") and len(n) > 240):
        return None
    return case(dict(BASE, **{k: n}), False, "%s named %s" % (k, n[:80]))


KEYWORDS = ["policy_module", "module", "type", "typealias", "alias", "attribute", "bool", "typeattribute", "roleattribute", "role", "types",
            "attribute_role", "allow", "allowxperm", "auditallow", "dontaudit", "neverallow", "type_transition", "type_member", "type_change",
            "range_transition", "role_transition", "optional_policy", "gen_require", "gen_bool", "gen_tunable", "require", "tunable_policy", "ifelse",
            "refpolicywarn", "class", "common", "inherits", "if", "else", "ifdef", "ifndef", "genfscon", "sid", "portcon", "netifcon", "nodecon",
            "fs_use_trans", "define", "gen_user", "gen_context", "permissive", "typebounds", "interface", "template", "userdebug_or_eng", "dnl",
            "self", "true", "false", "s0", "c0", "and", "or", "not", "xor", "bounds", "level", "range", "user"]
REPR = ["perm", "class", "pmacro", "mine", "ft", "falias", "fattr", "frole", "fbool", "if", "tpl", "stem", "ot", "user", "prefix", "stemarg", "custom", "def",
        "path", "fname", "mif", "mtpl", "newt"]


def keywords(c):
    """names that begin or end like the words of the language"""
    k = c.pick(REPR)
    w = c.pick(KEYWORDS)
    n = c.pick(["%sx", "%s_x", "%s1", "%s-x", "x%s", "x_%s", "%s_", "%s%s"])
    n = n.replace("%s", w)
    if n in KEYWORDS or n == "dnl-x":
        return None
    return case(dict(BASE, **{k: n + SUFFIX.get(k, "")}), False, "%s named %s" % (k, n))


# names that mean nothing to each other.  Types, attributes, roles, role attributes, booleans, permissions and classes are
# left out of each other's way: W-001, W-002 and W-003 look a name up without its kind
POLICY = ["ft", "ft2", "falias", "ot", "ot2", "oalias", "fattr", "oattr", "oattr2", "unused", "fra", "ora", "frole", "orole", "fbool", "fbool2", "obool",
          "obool2", "class", "perm", "perm2", "stemarg"]
NAMESPACES = [POLICY, ["user"], ["mine", "other"], ["fname"], ["path"], ["prefix"]]
SPACE = {k: i for i, ns in enumerate(NAMESPACES) for k in ns}
SHARED = [k for k in KEYS if k in SPACE]


def cross(c):
    """two things of different kinds with the same name"""
    a = c.pick(SHARED)
    b = c.pick([k for k in SHARED if SPACE[k] > SPACE[a]] or [None])
    if b is None:
        return None
    n = c.pick(["nqsame", "nqother", "nqft", "file", "read"])
    n += SUFFIX.get(a) or SUFFIX.get(b) or ""
    if n in [BASE[k] for k in BASE if k not in (a, b)] or (SPACE[b] == 0 and n in ("file", "read")):
        return None
    return case(dict(BASE, **{a: n, b: n}), False, "%s and %s named %s" % (a, b, n))


def related(c):
    """two names that differ by little"""
    a = c.pick(KEYS)
    b = c.pick([k for k in KEYS if KEYS.index(k) > KEYS.index(a)] or [None])
    if b is None:
        return None
    x, y = c.pick([("nqz", "nqzz"), ("nqzz", "nqz"), ("nqz", "Nqz"), ("l" * 200, "l" * 199 + "k"), ("nqz_1", "nqz_2"), ("nqz", "nqz_nqz"), ("q", "qq")])
    sa, sb = SUFFIX.get(a, ""), SUFFIX.get(b, "")
    if (a, b) == ("class", "pmacro") and y.endswith(x):
        # a macro that is named after the class fits it
        return None
    return case(dict(BASE, **{a: x + sa, b: y + sb}), False, "%s and %s named %s and %s" % (a, b, (x + sa)[:40], (y + sb)[:40]))


def swap(c):
    """two things of one kind exchange their names"""
    a = c.pick(KEYS)
    b = c.pick([k for k in KEYS if KEYS.index(k) > KEYS.index(a) and SUFFIX.get(k) == SUFFIX.get(a)] or [None])
    if b is None:
        return None
    return case(dict(BASE, **{a: BASE[b], b: BASE[a]}), False, "%s and %s exchanged" % (a, b))


def ordered(c):
    """a change that keeps the alphabetical order, all checks on, alone or with a second one"""
    k = c.pick(KEYS)
    t = c.pick(["%sX", "%s1", "%s" + "A" * 250, "%s_X", "%sXY_Z1"])
    names = dict(BASE, **{k: shape(k, t)})
    k2 = c.pick([None] + KEYS[::3])
    if k2 and k2 != k:
        names[k2] = shape(k2, "%sX")
    if any(len(names[m]) > 240 for m in ("mine", "other")):
        return None
    mode = c.pick([None, []])
    return case(names, True, "%s named %s, %s" % (k, names[k][:50], k2), mode=mode)


def everything(c):
    """all names at once"""
    pre = c.pick(["", "a", "Z", "x_", "type", "allow_", "L" * 100])
    post = c.pick(["", "a", "_", "1", "-x", "_t", "L" * 100])
    up = c.flag()
    skip = c.pick([None] + KEYS)
    names = dict(BASE)
    for k in KEYS:
        if k != skip:
            suf = SUFFIX.get(k, "")
            b = BASE[k][:len(BASE[k]) - len(suf)] if suf else BASE[k]
            names[k] = pre + (b.upper() if up else b) + post + suf
    return case(names, False, "all names %s...%s%s but %s" % (pre[:20], post[:20], " in capitals" if up else "", skip))


def spaces(tier):
    return [
        Space("single", single, "each of %d names x %d shapes" % (len(KEYS), len(SHAPES))),
        Space("keywords", keywords, "%d names x %d words x 8 forms" % (len(REPR), len(KEYWORDS))),
        Space("cross", cross, "all pairs of names of different name spaces x 5 common names"),
        Space("related", related, "all pairs of names x 7 pairs of similar names"),
        Space("swap", swap, "all pairs of names exchanged"),
        Space("ordered", ordered, "each name x 5 order keeping changes x a second change x source and normal mode, all checks"),
        Space("everything", everything, "all names at once x 7 prefixes x 7 suffixes x capitals x one name left out"),
    ]
