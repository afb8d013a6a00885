/* Preloaded into runs of the code under test: logs every library call that can
   change something outside the process (files opened for writing, removed,
   renamed, directories, other processes, sockets), with the absolute path, to
   the file named by LHFV_TRACE. Calls are passed on unchanged. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

static int fd = -1;
__attribute__((constructor)) static void start(void)
{
	const char *p = getenv("LHFV_TRACE");
	if (p)
		fd = (int)syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
}

static void note(const char *op, const char *path)
{
	char cwd[PATH_MAX] = "", line[2 * PATH_MAX + 64];
	int n;
	if (fd < 0)
		return;
	if (path && path[0] != '/' && getcwd(cwd, sizeof cwd))
		n = snprintf(line, sizeof line, "%s %s/%s\n", op, cwd, path);
	else
		n = snprintf(line, sizeof line, "%s %s\n", op, path ? path : "-");
	if (n > (int)sizeof line)
		n = (int)sizeof line;
	if (syscall(SYS_write, fd, line, (long)n) < 0)
		fd = -1;
}

#define NEXT(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))
static int changes(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }

#define OPEN(name) int name(const char *p, int f, ...) { mode_t m = 0; va_list a; va_start(a, f); if (f & (O_CREAT | O_TMPFILE)) m = va_arg(a, mode_t); va_end(a); \
	if (changes(f)) note("write", p); return NEXT(name)(p, f, m); }
OPEN(open)
OPEN(open64)
#define OPENAT(name) int name(int d, const char *p, int f, ...) { mode_t m = 0; va_list a; va_start(a, f); if (f & (O_CREAT | O_TMPFILE)) m = va_arg(a, mode_t); va_end(a); \
	if (changes(f)) note("write", p); return NEXT(name)(d, p, f, m); }
OPENAT(openat)
OPENAT(openat64)
int creat(const char *p, mode_t m) { note("write", p); return NEXT(creat)(p, m); }
#define FOPEN(name) FILE *name(const char *p, const char *m) { if (strpbrk(m, "wa+")) note("write", p); return NEXT(name)(p, m); }
FOPEN(fopen)
FOPEN(fopen64)
#define FREOPEN(name) FILE *name(const char *p, const char *m, FILE *f) { if (strpbrk(m, "wa+")) note("write", p); return NEXT(name)(p, m, f); }
FREOPEN(freopen)
FREOPEN(freopen64)
#define ONE(name, op) int name(const char *p) { note(op, p); return NEXT(name)(p); }
ONE(unlink, "remove")
ONE(remove, "remove")
ONE(rmdir, "remove")
ONE(system, "process")
#define TWO(name, op) int name(const char *p, const char *q) { note(op, p); note(op, q); return NEXT(name)(p, q); }
TWO(rename, "rename")
TWO(link, "link")
TWO(symlink, "link")
int unlinkat(int d, const char *p, int f) { note("remove", p); return NEXT(unlinkat)(d, p, f); }
int renameat(int d, const char *p, int e, const char *q) { note("rename", p); note("rename", q); return NEXT(renameat)(d, p, e, q); }
int mkdir(const char *p, mode_t m) { note("mkdir", p); return NEXT(mkdir)(p, m); }
int mkdirat(int d, const char *p, mode_t m) { note("mkdir", p); return NEXT(mkdirat)(d, p, m); }
int chmod(const char *p, mode_t m) { note("chmod", p); return NEXT(chmod)(p, m); }
int truncate(const char *p, off_t n) { note("write", p); return NEXT(truncate)(p, n); }
int chdir(const char *p) { note("chdir", p); return NEXT(chdir)(p); }
pid_t fork(void) { note("process", 0); return NEXT(fork)(); }
FILE *popen(const char *c, const char *m) { note("process", c); return NEXT(popen)(c, m); }
int execve(const char *p, char *const a[], char *const e[]) { note("process", p); return NEXT(execve)(p, a, e); }
int socket(int d, int t, int p) { note("socket", 0); return NEXT(socket)(d, t, p); }
int mkstemp(char *t) { int r = NEXT(mkstemp)(t); note("write", t); return r; }
FILE *tmpfile(void) { return NEXT(tmpfile)(); }
