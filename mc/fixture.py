"""A small policy in which every check has at least one known violation.

FINDINGS lists, by hand, what each check must report on it (file, line); it is
the reference for the properties about selecting, counting and reporting."""

AV = """class file { read write open getattr append lock ioctl map execute }
class dir { search getattr open read }
class process { signal transition }
class unix_stream_socket { connectto read write }
"""

SPT = """define(`read_file_perms',`{ getattr open read lock ioctl }')
define(`search_dir_perms',`{ getattr search open }')
define(`write_sock_perms',`{ write }')
"""

MODS = """kernel = base
mymod = module
othermod = module
"""

KERNEL_IF = """## <summary>kernel</summary>
## <summary>doc</summary>
interface(`kernel_read',`
	gen_require(`
		type kernel_t;
	')

	allow $1 kernel_t:file { getattr open };
')
"""

KERNEL_TE = """policy_module(kernel,1.0)
type kernel_t;
role system_r;
"""

OTHER_IF = """## <summary>other</summary>
## <summary>doc</summary>
interface(`othermod_read',`
	gen_require(`
		type other_t;
	')

	allow $1 other_t:file { getattr open };
')

## <summary>doc</summary>
template(`othermod_template',`
	gen_require(`
		type other_t;
	')

	allow $1 other_t:file { getattr open };
')
"""

OTHER_TE = """policy_module(othermod,1.0)
type other_t;
"""

MY_TE = """module mymodx 1.0;
require {
	type other_t;
}
type my_t;
type my_exec_t;
type othermod_read;
allow my_t self:file { getattr open };;
allow my_t my_t:dir open;
allow my_t my_exec_t:file { write append };
allow my_t my_exec_t:file { append append };
allow my_t kernel_t:file { getattr append };
allow my_t my_exec_t:dir read_file_perms;
allow my_t my_exec_t:file { getattr open read lock ioctl };
allow my_t my_exec_t:file *;
allow my_t my_exec_t:file { getattr nosuch };
allow my_t my_exec_t:nosuchclass { getattr open };
mymod_unknown(my_t)
kernel_read()
kernel_read(my_t my_exec_t)
othermod_read(my_t)
optional_policy(`
	# nothing
')
strayword
allow my_t kernel_t:file { getattr open };
type my_late_t;
"""

MY_IF = """interface(`mymod_one',`
	gen_require(`
		type my_t;
		type my_exec_t;
	')
	allow $1 my_t:dir { getattr open };
	allow $1 my_exec_t:dir { getattr open };
')
## <summary>doc</summary>
interface(`mymod_two',`
	gen_require(
		type my_t;
	)
	allow $1 my_t:dir { getattr open };
	allow $1 my_exec_t:dir { getattr open };
	othermod_template($1)
	type my_decl_t;
')
## <summary>doc</summary>
interface(`mymod_three',`
	gen_require(`
		type my_exec_t;
		type other_t;
		type my_t;
	')
	allow $1 { my_exec_t other_t }:dir { getattr open };
')
"""

MY_FC = """/usr/bin/my	--	gen_context(system_u:object_r:my_exec_t,s0)
/usr/bin/range	--	gen_context(system_u:object_r:my_exec_t)
/usr/bin/a.b	--	gen_context(system_u:object_r:my_exec_t,s0)
/usr/bin/other	--	gen_context(system_u:object_r:other_t,s0)
/usr/bin/user	--	gen_context(nosuch_u:object_r:my_exec_t,s0)
/usr/bin/role	--	gen_context(system_u:nosuch_r:my_exec_t,s0)
/usr/bin/type	--	gen_context(system_u:object_r:nosuch_t,s0)
/usr/bin/broken --
macro_call(x)
"""

FILES = {
    "access_vectors": AV, "obj_perm_sets.spt": SPT, "modules.conf": MODS,
    "kernel/kernel.if": KERNEL_IF, "kernel/kernel.te": KERNEL_TE,
    "apps/othermod.if": OTHER_IF, "apps/othermod.te": OTHER_TE,
    "apps/mymod.te": MY_TE, "apps/mymod.if": MY_IF, "apps/mymod.fc": MY_FC,
}

_F = """
kernel.te:
othermod.te:
mymod.te: 1 S-006, 1 W-009, 2 S-001, 7 E-006, 8 S-003, 9 C-007, 10 C-005, 11 C-005, 12 C-005, 12 W-001, 13 S-009,
 14 C-005, 14 S-010, 15 W-008, 16 E-007, 17 E-008, 18 W-010, 19 W-006, 20 W-007, 21 W-005, 22 E-009, 25 E-010,
 26 W-001, 27 C-001
mymod.if: 1 C-004, 11 S-008, 15 W-002, 16 S-004, 16 W-005, 17 S-005, 21 C-006, 23 W-011, 24 W-003
mymod.fc: 2 S-007, 3 W-004, 4 S-002, 5 E-003, 6 E-004, 7 E-005, 8 E-002, 9 E-002
"""
FINDINGS = []
for _part in _F.replace("\n ", " ").strip().split("\n"):
    _file, _rest = _part.split(":", 1)
    for _x in _rest.split(","):
        if _x.strip():
            FINDINGS.append((_file, int(_x.split()[0]), _x.split()[1]))
FINDINGS.sort()
IDS = sorted({f[2] for f in FINDINGS}, key=lambda i: ("CSWE".index(i[0]), int(i[2:])))
