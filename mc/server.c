/*
 * Execution server: runs the real selint code (its main(), compiled from
 * /repo/src as selint_main) once per requested run in a forked child, inside a
 * private scratch directory, and reports exit status and output.
 *
 * Protocol (little endian, over fd 0 / fd 1):
 *  request : u32 nfiles { u8 kind, u32 len, path, u32 len, content }
 *            u32 nruns  { u32 fault_kind, u32 fault_k, u32 timeout_s, u32 chunk, u32 len, fault_path, u32 argc { u32 len, arg } }
 *  response: per run { u32 wait status, u32 timed_out, u32 io_points, u32 len, stdout, u32 len, stderr }
 *  kinds: 0 regular file, 1 directory, 2 symlink (content = target)
 *  fault_kind: 0 none, 1 count I/O points, 2 fail the k-th point (0-based), 3 fail the k-th and all later ones
 *  An I/O point is one fopen() or one read of a stream opened by selint; with a
 *  fault_path only those of files with this path count.  Reads return at most chunk bytes.
 *  When the scratch directory has a directory "_root", the system's own policy data (/usr/share/selinux,
 *  /sys/fs/selinux) is looked for below it instead of on the real system.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <fts.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

int selint_main(int argc, char **argv);

#define MAX_POINTS 4096
struct shared {
	uint32_t points;
	uint32_t fault_kind;
	uint32_t fault_k;
	uint32_t chunk;
	char path[512];
};
static struct shared *sh;

FILE *__real_fopen(const char *path, const char *mode);

struct stream {
	int fd;
	int counts;
};

static int io_point(int counts)
{
	if (!counts) {
		return 0;
	}
	uint32_t here = sh->points++;
	return (sh->fault_kind == 2 && here == sh->fault_k) || (sh->fault_kind == 3 && here >= sh->fault_k);
}

static int path_counts(const char *path)
{
	if (!sh->path[0]) {
		return 1;
	}
	/* compare from the end: "./x/a.te" counts for "x/a.te" */
	size_t n = strlen(path), m = strlen(sh->path);
	return n >= m && !strcmp(path + n - m, sh->path) && (n == m || path[n - m - 1] == '/');
}

static char root[600];  /* prefix of the system directories, or empty */

static const char *sys_path(const char *path, char *buf, size_t size)
{
	if (root[0] && path && (!strncmp(path, "/usr/share/selinux", 18) || !strncmp(path, "/sys/fs/selinux", 15))) {
		snprintf(buf, size, "%s%s", root, path);
		return buf;
	}
	return path;
}

#define SYS(path) char buf_[2048]; path = sys_path(path, buf_, sizeof buf_)

int __real_access(const char *path, int mode);
int __wrap_access(const char *path, int mode)
{
	SYS(path);
	return __real_access(path, mode);
}

DIR *__real_opendir(const char *path);
DIR *__wrap_opendir(const char *path)
{
	SYS(path);
	return __real_opendir(path);
}

int __real_stat(const char *path, struct stat *st);
int __wrap_stat(const char *path, struct stat *st)
{
	SYS(path);
	return __real_stat(path, st);
}

int __real_lstat(const char *path, struct stat *st);
int __wrap_lstat(const char *path, struct stat *st)
{
	SYS(path);
	return __real_lstat(path, st);
}

FTS *__real_fts_open(char *const *paths, int options, int (*compar)(const FTSENT **, const FTSENT **));
FTS *__wrap_fts_open(char *const *paths, int options, int (*compar)(const FTSENT **, const FTSENT **))
{
	if (!root[0]) {
		return __real_fts_open(paths, options, compar);
	}
	size_t n = 0;
	while (paths[n]) {
		n++;
	}
	char **p = calloc(n + 1, sizeof *p);
	for (size_t i = 0; i < n; ++i) {
		char buf[2048];
		p[i] = strdup(sys_path(paths[i], buf, sizeof buf));
	}
	return __real_fts_open(p, options, compar);
}

static ssize_t ck_read(void *cookie, char *buf, size_t size)
{
	struct stream *st = cookie;
	if (io_point(st->counts)) {
		errno = EIO;
		return -1;
	}
	/* short reads, so that several read points exist per file */
	if (size > sh->chunk) {
		size = sh->chunk;
	}
	return read(st->fd, buf, size);
}

static int ck_close(void *cookie)
{
	int r = close(((struct stream *)cookie)->fd);
	free(cookie);
	return r;
}

FILE *__wrap_fopen(const char *path, const char *mode)
{
	SYS(path);
	if (!sh || sh->fault_kind == 0) {
		return __real_fopen(path, mode);
	}
	int counts = path_counts(path);
	if (io_point(counts)) {
		errno = EIO;
		return NULL;
	}
	int fd = open(path, O_RDONLY);
	if (fd < 0) {
		return NULL;
	}
	struct stream *c = malloc(sizeof *c);
	c->fd = fd;
	c->counts = counts;
	cookie_io_functions_t io = { .read = ck_read, .close = ck_close };
	return fopencookie(c, mode, io);
}

static void die(const char *msg)
{
	fprintf(stderr, "mc server: %s: %s\n", msg, strerror(errno));
	_exit(3);
}

static void rd(void *p, size_t n)
{
	char *b = p;
	while (n) {
		ssize_t r = read(0, b, n);
		if (r == 0) {
			_exit(0);
		}
		if (r < 0) {
			if (errno == EINTR) {
				continue;
			}
			die("read");
		}
		b += r;
		n -= (size_t)r;
	}
}

static void wr(const void *p, size_t n)
{
	const char *b = p;
	while (n) {
		ssize_t r = write(1, b, n);
		if (r < 0) {
			if (errno == EINTR) {
				continue;
			}
			die("write");
		}
		b += r;
		n -= (size_t)r;
	}
}

static uint32_t rd32(void)
{
	uint32_t v;
	rd(&v, 4);
	return v;
}

static char *rdstr(uint32_t *len)
{
	uint32_t n = rd32();
	char *s = malloc(n + 1u);
	rd(s, n);
	s[n] = '\0';
	if (len) {
		*len = n;
	}
	return s;
}

static void mkparents(char *path)
{
	for (char *p = path; *p; ++p) {
		if (*p == '/') {
			*p = '\0';
			mkdir(path, 0777);
			*p = '/';
		}
	}
}

/* remove everything below the scratch directory fd (never follows links) */
static void clean(int dfd)
{
	DIR *d = fdopendir(dfd);
	struct dirent *e;
	if (!d) {
		close(dfd);
		return;
	}
	while ((e = readdir(d))) {
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) {
			continue;
		}
		if (unlinkat(dirfd(d), e->d_name, 0) != 0) {
			int s = openat(dirfd(d), e->d_name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
			if (s >= 0) {
				clean(s);
			}
			unlinkat(dirfd(d), e->d_name, AT_REMOVEDIR);
		}
	}
	closedir(d);
}

static void send_fd(int fd)
{
	off_t n = lseek(fd, 0, SEEK_END);
	if (n < 0) {
		n = 0;
	}
	if (n > (4 << 20)) {
		n = 4 << 20;
	}
	char *b = malloc((size_t)n + 1);
	ssize_t got = n ? pread(fd, b, (size_t)n, 0) : 0;
	uint32_t l = got < 0 ? 0 : (uint32_t)got;
	wr(&l, 4);
	wr(b, l);
	free(b);
	if (ftruncate(fd, 0)) {
		die("ftruncate");
	}
	lseek(fd, 0, SEEK_SET);
}

int main(int argc, char **argv)
{
	if (argc < 2) {
		return 3;
	}
	const char *scratch = argv[1];  /* existing private directory */
	signal(SIGPIPE, SIG_DFL);
	sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (sh == MAP_FAILED) {
		die("mmap");
	}
	int out = memfd_create("out", MFD_CLOEXEC), err = memfd_create("err", MFD_CLOEXEC);
	if (out < 0 || err < 0) {
		die("memfd_create");
	}
	if (chdir(scratch)) {
		die("chdir");
	}
	int null = open("/dev/null", O_RDONLY | O_CLOEXEC);

	for (;;) {
		uint32_t nfiles = rd32();
		for (uint32_t i = 0; i < nfiles; ++i) {
			uint8_t kind;
			rd(&kind, 1);
			char *path = rdstr(NULL);
			uint32_t clen;
			char *content = rdstr(&clen);
			size_t pl = strlen(path);
			if (path[0] == '/' || strstr(path, "/../") || !strncmp(path, "../", 3) ||
			    (pl >= 3 && !strcmp(path + pl - 3, "/..")) || !strcmp(path, "..")) {
				errno = EINVAL;
				die(path);
			}
			mkparents(path);
			if (kind == 1) {
				mkdir(path, 0777);
			} else if (kind == 2) {
				if (symlink(content, path)) {
					die("symlink");
				}
			} else {
				int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0666);
				if (fd < 0) {
					die(path);
				}
				for (uint32_t off = 0; off < clen; ) {
					ssize_t w = write(fd, content + off, clen - off);
					if (w <= 0) {
						die("write scratch");
					}
					off += (uint32_t)w;
				}
				close(fd);
			}
			free(path);
			free(content);
		}
		uint32_t nruns = rd32();
		for (uint32_t r = 0; r < nruns; ++r) {
			uint32_t fk = rd32(), fkk = rd32(), to = rd32(), chunk = rd32();
			char *fpath = rdstr(NULL);
			uint32_t ac = rd32();
			char **av = calloc(ac + 2u, sizeof(char *));
			av[0] = strdup("selint");
			for (uint32_t i = 0; i < ac; ++i) {
				av[i + 1] = rdstr(NULL);
			}
			sh->points = 0;
			sh->fault_kind = fk;
			sh->fault_k = fkk;
			sh->chunk = chunk ? chunk : 64;
			snprintf(sh->path, sizeof sh->path, "%s", fpath);
			free(fpath);
			pid_t pid = fork();
			if (pid < 0) {
				die("fork");
			}
			if (pid == 0) {
				dup2(null, 0);
				dup2(out, 1);
				dup2(err, 2);
				struct rlimit nocore = { 0, 0 };
				setrlimit(RLIMIT_CORE, &nocore);
#ifndef MC_SAN
				struct rlimit as = { 2u << 30, 2u << 30 };
				setrlimit(RLIMIT_AS, &as);
#endif
				struct stat rst;
				if (__real_stat("_root", &rst) == 0 && S_ISDIR(rst.st_mode)) {
					snprintf(root, sizeof root, "%s/_root", scratch);
				}
				alarm(to);
				exit(selint_main((int)ac + 1, av));
			}
			int st = 0;
			while (waitpid(pid, &st, 0) < 0) {
				if (errno != EINTR) {
					die("waitpid");
				}
			}
			uint32_t v = (uint32_t)st;
			wr(&v, 4);
			v = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
			wr(&v, 4);
			v = sh->points;
			wr(&v, 4);
			send_fd(out);
			send_fd(err);
			for (uint32_t i = 0; i <= ac; ++i) {
				free(av[i]);
			}
			free(av);
		}
		int dfd = open(".", O_RDONLY | O_DIRECTORY);
		if (dfd >= 0) {
			clean(dfd);
		}
	}
}
