#define _GNU_SOURCE
#include "fsi.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/stat.h>

int (*fsi_pick)(const char *what, const char *path, size_t n);
const char *fsi_root;
int fsi_errno = EIO;
#define NFD 512
static char *names[NFD];
static int busy;

static int ask(const char *what, const char *path, size_t n)
{
	int r;
	if (!fsi_pick || !path || busy || !fsi_root || strncmp(path, fsi_root, strlen(fsi_root))) return FSI_OK;
	busy = 1;
	r = fsi_pick(what, path, n);
	busy = 0;
	if (r == FSI_FAIL) errno = fsi_errno;
	if (r == FSI_EINTR) errno = EINTR;
	return r;
}
static const char *nm(int fd) { return fd >= 0 && fd < NFD ? names[fd] : NULL; }
void fsi_reset(void) { busy = 0; fsi_pick = NULL; fsi_errno = EIO; }
int fsi_open_fds(void) { int i, n = 0; for (i = 0; i < NFD; i++) n += names[i] != NULL; return n; }
static int do_open(const char *p, int fl, int mode)
{
	int fd, a = ask("open", p, 0);
	if (a == FSI_FAIL || a == FSI_EINTR) return -1;
	fd = syscall(SYS_openat, AT_FDCWD, p, fl, mode);
	if (fd >= 0 && fd < NFD && fsi_root && !strncmp(p, fsi_root, strlen(fsi_root))) names[fd] = strdup(p);
	return fd;
}
int open(const char *p, int fl, ...) { int m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } return do_open(p, fl, m); }
int open64(const char *p, int fl, ...) { int m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } return do_open(p, fl | O_LARGEFILE, m); }
static ssize_t wr(int fd, const void *b, size_t n, off_t o, int at)
{
	int a = nm(fd) ? ask("write", nm(fd), n) : FSI_OK;
	if (a == FSI_FAIL || a == FSI_EINTR) return -1;
	if (a == FSI_SHORT && n > 1) n = n / 2;
	return at ? syscall(SYS_pwrite64, fd, b, n, o) : syscall(SYS_write, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) { return wr(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return wr(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return wr(fd, b, n, o, 1); }
static ssize_t rd(int fd, void *b, size_t n, off_t o, int at)
{
	int a = nm(fd) ? ask("read", nm(fd), n) : FSI_OK;
	if (a == FSI_FAIL || a == FSI_EINTR) return -1;
	if (a == FSI_EOF) return 0;
	if (a == FSI_SHORT && n > 1) n = 1;
	return at ? syscall(SYS_pread64, fd, b, n, o) : syscall(SYS_read, fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) { return rd(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return rd(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return rd(fd, b, n, o, 1); }
off_t lseek(int fd, off_t o, int w)
{
	if (nm(fd) && ask("seek", nm(fd), 0) == FSI_FAIL) return -1;
	return syscall(SYS_lseek, fd, o, w);
}
off_t lseek64(int fd, off_t o, int w) { return lseek(fd, o, w); }
int mkdir(const char *p, mode_t m) { return ask("mkdir", p, 0) == FSI_FAIL ? -1 : syscall(SYS_mkdir, p, m); }
int unlink(const char *p) { return ask("unlink", p, 0) == FSI_FAIL ? -1 : syscall(SYS_unlink, p); }
const char *fsi_from;
int rename(const char *f, const char *t) { fsi_from = f; return ask("rename", t, 0) == FSI_FAIL ? -1 : syscall(SYS_rename, f, t); }
int fsync(int fd) { return nm(fd) && ask("fsync", nm(fd), 0) == FSI_FAIL ? -1 : syscall(SYS_fsync, fd); }
/* close() is wrapped by the world library for sockets; this is what it calls
 * in the end */
int close(int fd)
{
	if (nm(fd)) { free(names[fd]); names[fd] = NULL; }
	return syscall(SYS_close, fd);
}
