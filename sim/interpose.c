// Strong definitions of the libc entry points that notmuch, Xapian, GLib, GMime and zlib call.
// Inside a simulated process they go to the simulator; everywhere else to the real libc.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <pwd.h>
#include <poll.h>
#include "syscalls.h"

#define EXPORT __attribute__((visibility("default")))
#define REAL(ret, name, args) static ret (*r_##name) args; \
    if (!r_##name) r_##name = (ret (*) args) dlsym (RTLD_NEXT, #name)

// ---- descriptors
static int do_open (const char *p, int f, mode_t m, const char *real)
{
    if (sim_path (p)) return sim_open (p, f, m);
    int (*r) (const char *, int, ...) = dlsym (RTLD_NEXT, real);
    if (! sim_active ()) return r (p, f, m);
    if ((f & O_ACCMODE) != O_RDONLY || (f & O_CREAT)) { sim_escape ("open", p); errno = EACCES; return -1; }
    int fd = r (p, f, m);
    return fd < 0 ? fd : sim_adopt (fd);
}
#define OPEN(name) EXPORT int name (const char *p, int f, ...) { \
	mode_t m = 0; if (f & (O_CREAT | __O_TMPFILE)) { va_list a; va_start (a, f); m = va_arg (a, mode_t); va_end (a); } \
	return do_open (p, f, m, #name); }
OPEN (open)
OPEN (open64)
EXPORT int __open_2 (const char *p, int f) { return do_open (p, f, 0, "open"); }
EXPORT int __open64_2 (const char *p, int f) { return do_open (p, f, 0, "open"); }
EXPORT int creat (const char *p, mode_t m) { return do_open (p, O_CREAT | O_WRONLY | O_TRUNC, m, "open"); }
EXPORT int creat64 (const char *p, mode_t m) { return do_open (p, O_CREAT | O_WRONLY | O_TRUNC, m, "open"); }
#define OPENAT(name) EXPORT int name (int d, const char *p, int f, ...) { \
	mode_t m = 0; if (f & O_CREAT) { va_list a; va_start (a, f); m = va_arg (a, mode_t); va_end (a); } \
	if (d == AT_FDCWD || p[0] == '/') return do_open (p, f, m, "open"); \
	if (sim_active () && sim_fd (d)) return sim_openat (d, p, f, m); \
	REAL (int, openat, (int, const char *, int, ...)); return r_openat (d, p, f, m); }
OPENAT (openat)
OPENAT (openat64)

EXPORT int close (int fd)
{
    if (sim_active () && sim_fd (fd)) return sim_close (fd);
    REAL (int, close, (int));
    return r_close (fd);
}
EXPORT ssize_t read (int fd, void *b, size_t n)
{
    if (sim_active () && sim_fd (fd)) return sim_read (fd, b, n);
    REAL (ssize_t, read, (int, void *, size_t));
    return r_read (fd, b, n);
}
EXPORT ssize_t __read_chk (int fd, void *b, size_t n, size_t bl) { (void) bl; return read (fd, b, n); }
EXPORT ssize_t write (int fd, const void *b, size_t n)
{
    if (sim_active () && sim_fd (fd)) return sim_write (fd, b, n);
    REAL (ssize_t, write, (int, const void *, size_t));
    return r_write (fd, b, n);
}
EXPORT ssize_t writev (int fd, const struct iovec *v, int n)
{
    if (sim_active () && sim_fd (fd)) {
	ssize_t t = 0;
	for (int i = 0; i < n; i++) {
	    if (! v[i].iov_len) continue;
	    ssize_t r = sim_write (fd, v[i].iov_base, v[i].iov_len);
	    if (r < 0) return t ? t : r;
	    t += r;
	    if ((size_t) r < v[i].iov_len) break;
	}
	return t;
    }
    REAL (ssize_t, writev, (int, const struct iovec *, int));
    return r_writev (fd, v, n);
}
#define PREAD(name) EXPORT ssize_t name (int fd, void *b, size_t n, off_t o) { \
	if (sim_active () && sim_fd (fd)) return sim_pread (fd, b, n, o); \
	REAL (ssize_t, name, (int, void *, size_t, off_t)); return r_##name (fd, b, n, o); }
PREAD (pread)
PREAD (pread64)
EXPORT ssize_t __pread_chk (int fd, void *b, size_t n, off_t o, size_t bl) { (void) bl; return pread (fd, b, n, o); }
EXPORT ssize_t __pread64_chk (int fd, void *b, size_t n, off_t o, size_t bl) { (void) bl; return pread (fd, b, n, o); }
#define PWRITE(name) EXPORT ssize_t name (int fd, const void *b, size_t n, off_t o) { \
	if (sim_active () && sim_fd (fd)) return sim_pwrite (fd, b, n, o); \
	REAL (ssize_t, name, (int, const void *, size_t, off_t)); return r_##name (fd, b, n, o); }
PWRITE (pwrite)
PWRITE (pwrite64)
#define LSEEK(name) EXPORT off_t name (int fd, off_t o, int w) { \
	if (sim_active () && sim_fd (fd)) return sim_lseek (fd, o, w); \
	REAL (off_t, name, (int, off_t, int)); return r_##name (fd, o, w); }
LSEEK (lseek)
LSEEK (lseek64)
#define FD1(name, impl) EXPORT int name (int fd) { \
	if (sim_active () && sim_fd (fd)) return impl (fd); \
	REAL (int, name, (int)); return r_##name (fd); }
FD1 (fsync, sim_fsync)
FD1 (fdatasync, sim_fsync)
FD1 (isatty, sim_isatty)
#define FTRUNC(name) EXPORT int name (int fd, off_t n) { \
	if (sim_active () && sim_fd (fd)) return sim_ftruncate (fd, n); \
	REAL (int, name, (int, off_t)); return r_##name (fd, n); }
FTRUNC (ftruncate)
FTRUNC (ftruncate64)
EXPORT int truncate (const char *p, off_t n)
{
    if (sim_path (p)) { int fd = open (p, O_WRONLY); if (fd < 0) return -1; int r = ftruncate (fd, n); close (fd); return r; }
    REAL (int, truncate, (const char *, off_t));
    return r_truncate (p, n);
}
#define FALLOC(name) EXPORT int name (int fd, int m, off_t o, off_t n) { \
	if (sim_active () && sim_fd (fd)) { errno = EOPNOTSUPP; return -1; } \
	REAL (int, name, (int, int, off_t, off_t)); return r_##name (fd, m, o, n); }
FALLOC (fallocate)
FALLOC (fallocate64)
EXPORT int posix_fadvise (int fd, off_t o, off_t n, int a)
{
    if (sim_active () && sim_fd (fd)) return 0;
    REAL (int, posix_fadvise, (int, off_t, off_t, int));
    return r_posix_fadvise (fd, o, n, a);
}
FD1 (dup, sim_dup)
EXPORT int dup2 (int a, int b)
{
    if (sim_active ()) return sim_dup2 (a, b);
    REAL (int, dup2, (int, int));
    return r_dup2 (a, b);
}
#define FCNTL(name) EXPORT int name (int fd, int c, ...) { \
	va_list a; va_start (a, c); void *arg = va_arg (a, void *); va_end (a); \
	if (sim_active () && sim_fd (fd)) return sim_fcntl (fd, c, arg); \
	REAL (int, name, (int, int, ...)); return r_##name (fd, c, arg); }
FCNTL (fcntl)
FCNTL (fcntl64)
EXPORT int ioctl (int fd, unsigned long c, ...)
{
    va_list a; va_start (a, c); void *arg = va_arg (a, void *); va_end (a);
    if (sim_active () && sim_fd (fd)) { errno = ENOTTY; return -1; }
    REAL (int, ioctl, (int, unsigned long, ...));
    return r_ioctl (fd, c, arg);
}
EXPORT int flock (int fd, int op)
{
    if (sim_active () && sim_fd (fd)) return sim_flock (fd, op);
    REAL (int, flock, (int, int));
    return r_flock (fd, op);
}
#define FSTAT(name) EXPORT int name (int fd, struct stat *s) { \
	if (sim_active () && sim_fd (fd)) return sim_fstat (fd, s); \
	REAL (int, name, (int, struct stat *)); return r_##name (fd, s); }
FSTAT (fstat)
#define STAT(name, follow) EXPORT int name (const char *p, struct stat *s) { \
	if (sim_path (p)) return sim_stat (p, s, follow); \
	REAL (int, name, (const char *, struct stat *)); return r_##name (p, s); }
STAT (stat, 1)
STAT (lstat, 0)
EXPORT int fstat64 (int fd, struct stat64 *s) { return fstat (fd, (struct stat *) s); }
EXPORT int stat64 (const char *p, struct stat64 *s) { return stat (p, (struct stat *) s); }
EXPORT int lstat64 (const char *p, struct stat64 *s) { return lstat (p, (struct stat *) s); }
EXPORT int fstatat (int d, const char *p, struct stat *s, int fl)
{
    if (sim_active ()) {
	if (d == AT_FDCWD || p[0] == '/') return fl & AT_SYMLINK_NOFOLLOW ? lstat (p, s) : stat (p, s);
	if (sim_fd (d)) return sim_fstatat (d, p, s, fl);
    }
    REAL (int, fstatat, (int, const char *, struct stat *, int));
    return r_fstatat (d, p, s, fl);
}
EXPORT int fstatat64 (int d, const char *p, struct stat64 *s, int fl) { return fstatat (d, p, (struct stat *) s, fl); }
EXPORT int __xstat (int v, const char *p, struct stat *s) { (void) v; return stat (p, s); }
EXPORT int __lxstat (int v, const char *p, struct stat *s) { (void) v; return lstat (p, s); }
EXPORT int __fxstat (int v, int fd, struct stat *s) { (void) v; return fstat (fd, s); }
EXPORT int access (const char *p, int m)
{
    if (sim_path (p)) return sim_access (p, m);
    REAL (int, access, (const char *, int));
    return r_access (p, m);
}
EXPORT ssize_t readlink (const char *p, char *b, size_t n)
{
    if (sim_path (p)) return sim_readlink (p, b, n);
    REAL (ssize_t, readlink, (const char *, char *, size_t));
    return r_readlink (p, b, n);
}
EXPORT char *canonicalize_file_name (const char *p)
{
    if (sim_path (p)) return sim_realpath (p);
    REAL (char *, canonicalize_file_name, (const char *));
    return r_canonicalize_file_name (p);
}
EXPORT char *realpath (const char *p, char *out)
{
    if (sim_path (p)) {
	char *r = sim_realpath (p);
	if (r && out) { strcpy (out, r); free (r); return out; }
	return r;
    }
    REAL (char *, realpath, (const char *, char *));
    return r_realpath (p, out);
}
EXPORT char *getcwd (char *b, size_t n)
{
    if (sim_active ()) {
	const char *c = sim_cwd ();
	if (! b) return strdup (c);
	if (strlen (c) + 1 > n) { errno = ERANGE; return NULL; }
	return strcpy (b, c);
    }
    REAL (char *, getcwd, (char *, size_t));
    return r_getcwd (b, n);
}
EXPORT int chdir (const char *p)
{
    if (sim_active ()) return sim_chdir (p);
    REAL (int, chdir, (const char *));
    return r_chdir (p);
}

// ---- names
#define MUT1(name, impl) EXPORT int name (const char *p) { \
	if (sim_path (p)) return impl (p); \
	if (sim_active ()) { sim_escape (#name, p); errno = EACCES; return -1; } \
	REAL (int, name, (const char *)); return r_##name (p); }
MUT1 (unlink, sim_unlink)
MUT1 (rmdir, sim_rmdir)
MUT1 (remove, sim_remove)
EXPORT int unlinkat (int d, const char *p, int fl)
{
    if (sim_active ()) {
	if (d == AT_FDCWD || p[0] == '/') return fl & AT_REMOVEDIR ? rmdir (p) : unlink (p);
	return sim_unlinkat (d, p, fl);
    }
    REAL (int, unlinkat, (int, const char *, int));
    return r_unlinkat (d, p, fl);
}
EXPORT int mkdir (const char *p, mode_t m)
{
    if (sim_path (p)) return sim_mkdir (p, m);
    if (sim_active ()) { sim_escape ("mkdir", p); errno = EACCES; return -1; }
    REAL (int, mkdir, (const char *, mode_t));
    return r_mkdir (p, m);
}
EXPORT int rename (const char *a, const char *b)
{
    if (sim_path (a) && sim_path (b)) return sim_rename (a, b);
    if (sim_active ()) { sim_escape ("rename", b); errno = EXDEV; return -1; }
    REAL (int, rename, (const char *, const char *));
    return r_rename (a, b);
}
EXPORT int renameat (int d, const char *a, int e, const char *b)
{
    if (sim_active ()) { if (d == AT_FDCWD && e == AT_FDCWD) return rename (a, b); errno = ENOSYS; return -1; }
    REAL (int, renameat, (int, const char *, int, const char *));
    return r_renameat (d, a, e, b);
}
EXPORT int renameat2 (int d, const char *a, int e, const char *b, unsigned fl)
{
    if (sim_active ()) {
	if (d == AT_FDCWD && e == AT_FDCWD && sim_path (a) && sim_path (b)) return sim_renameat2 (a, b, fl);
	errno = ENOSYS; return -1;
    }
    REAL (int, renameat2, (int, const char *, int, const char *, unsigned));
    return r_renameat2 (d, a, e, b, fl);
}
EXPORT int link (const char *a, const char *b)
{
    if (sim_path (a) && sim_path (b)) return sim_link (a, b);
    if (sim_active ()) { sim_escape ("link", b); errno = EXDEV; return -1; }
    REAL (int, link, (const char *, const char *));
    return r_link (a, b);
}
EXPORT int linkat (int d, const char *a, int e, const char *b, int fl)
{
    if (sim_active ()) { if (d == AT_FDCWD && e == AT_FDCWD) return link (a, b); errno = ENOSYS; return -1; }
    REAL (int, linkat, (int, const char *, int, const char *, int));
    return r_linkat (d, a, e, b, fl);
}
EXPORT int symlink (const char *a, const char *b)
{
    if (sim_path (b)) return sim_symlink (a, b);
    if (sim_active ()) { sim_escape ("symlink", b); errno = EACCES; return -1; }
    REAL (int, symlink, (const char *, const char *));
    return r_symlink (a, b);
}
EXPORT int chmod (const char *p, mode_t m)
{
    if (sim_path (p)) return sim_chmod (p, m);
    if (sim_active ()) { sim_escape ("chmod", p); errno = EACCES; return -1; }
    REAL (int, chmod, (const char *, mode_t));
    return r_chmod (p, m);
}
EXPORT int fchmod (int fd, mode_t m)
{
    if (sim_active ()) return 0;
    REAL (int, fchmod, (int, mode_t));
    return r_fchmod (fd, m);
}
EXPORT int fchown (int fd, uid_t u, gid_t g)
{
    if (sim_active ()) return 0;
    REAL (int, fchown, (int, uid_t, gid_t));
    return r_fchown (fd, u, g);
}
EXPORT int utimensat (int d, const char *p, const struct timespec *t, int fl)
{
    if (sim_active ()) return sim_utimens (p, t);
    REAL (int, utimensat, (int, const char *, const struct timespec *, int));
    return r_utimensat (d, p, t, fl);
}
EXPORT mode_t umask (mode_t m)
{
    if (sim_active ()) return sim_umask (m);
    REAL (mode_t, umask, (mode_t));
    return r_umask (m);
}
#define MKSTEMP(name) EXPORT int name (char *t) { \
	if (sim_active ()) return sim_mkstemp (t); \
	REAL (int, name, (char *)); return r_##name (t); }
MKSTEMP (mkstemp)
MKSTEMP (mkstemp64)
EXPORT char *mkdtemp (char *t)
{
    if (sim_active ()) return sim_mkdtemp (t);
    REAL (char *, mkdtemp, (char *));
    return r_mkdtemp (t);
}
EXPORT void sync (void)
{
    if (sim_active ()) { sim_syncall (); return; }
    REAL (void, sync, (void));
    r_sync ();
}
EXPORT int syncfs (int fd)
{
    if (sim_active ()) { sim_syncall (); return 0; }
    REAL (int, syncfs, (int));
    return r_syncfs (fd);
}

// ---- directories
EXPORT DIR *opendir (const char *p)
{
    if (sim_path (p)) return sim_opendir (p);
    REAL (DIR *, opendir, (const char *));
    return r_opendir (p);
}
EXPORT DIR *fdopendir (int fd)
{
    if (sim_active () && sim_fd (fd)) return sim_fdopendir (fd);
    REAL (DIR *, fdopendir, (int));
    return r_fdopendir (fd);
}
#define READDIR(name, type) EXPORT struct type *name (DIR *d) { \
	if (sim_isdir (d)) return (struct type *) sim_readdir (d); \
	REAL (struct type *, name, (DIR *)); return r_##name (d); }
READDIR (readdir, dirent)
READDIR (readdir64, dirent64)
EXPORT int closedir (DIR *d)
{
    if (sim_isdir (d)) return sim_closedir (d);
    REAL (int, closedir, (DIR *));
    return r_closedir (d);
}
EXPORT void rewinddir (DIR *d)
{
    if (sim_isdir (d)) { sim_rewinddir (d); return; }
    REAL (void, rewinddir, (DIR *));
    r_rewinddir (d);
}
EXPORT int dirfd (DIR *d)
{
    if (sim_isdir (d)) return sim_dirfd (d);
    REAL (int, dirfd, (DIR *));
    return r_dirfd (d);
}
EXPORT int scandir (const char *p, struct dirent ***l, int (*f) (const struct dirent *),
		    int (*c) (const struct dirent **, const struct dirent **))
{
    if (sim_path (p)) return sim_scandir (p, l, f, c);
    REAL (int, scandir, (const char *, struct dirent ***, int (*)(const struct dirent *),
			 int (*)(const struct dirent **, const struct dirent **)));
    return r_scandir (p, l, f, c);
}
EXPORT int scandir64 (const char *p, struct dirent64 ***l, int (*f) (const struct dirent64 *),
		      int (*c) (const struct dirent64 **, const struct dirent64 **))
{
    return scandir (p, (struct dirent ***) l, (int (*)(const struct dirent *)) f,
		    (int (*)(const struct dirent **, const struct dirent **)) c);
}
EXPORT int nftw (const char *p, __nftw_func_t f, int n, int fl)
{
    if (sim_path (p)) return sim_nftw (p, f, n, fl);
    if (sim_active ()) { sim_escape ("nftw", p); errno = EACCES; return -1; }
    REAL (int, nftw, (const char *, __nftw_func_t, int, int));
    return r_nftw (p, f, n, fl);
}
EXPORT int nftw64 (const char *p, __nftw64_func_t f, int n, int fl) { return nftw (p, (__nftw_func_t) f, n, fl); }

// ---- stdio
#define FOPEN(name) EXPORT FILE *name (const char *p, const char *m) { \
	if (sim_path (p)) return sim_fopen (p, m); \
	if (sim_active () && m[0] != 'r') { sim_escape ("fopen", p); errno = EACCES; return NULL; } \
	REAL (FILE *, name, (const char *, const char *)); return r_##name (p, m); }
FOPEN (fopen)
FOPEN (fopen64)
EXPORT FILE *fdopen (int fd, const char *m)
{
    if (sim_active () && sim_fd (fd)) return sim_fdopen (fd, m);
    REAL (FILE *, fdopen, (int, const char *));
    return r_fdopen (fd, m);
}
EXPORT int fileno (FILE *f)
{
    if (sim_active ()) { int r = sim_fileno (f); if (r >= 0) return r; }
    REAL (int, fileno, (FILE *));
    return r_fileno (f);
}

// ---- memory maps of simulated files
static void *do_mmap (void *a, size_t n, int pr, int fl, int fd, off_t o)
{
    REAL (void *, mmap, (void *, size_t, int, int, int, off_t));
    if (fd >= 0 && ! (fl & MAP_ANONYMOUS) && sim_active () && sim_fd (fd)) {
	void *p = r_mmap (NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) return p;
	sim_pread (fd, p, n, o);
	return p;
    }
    return r_mmap (a, n, pr, fl, fd, o);
}
EXPORT void *mmap (void *a, size_t n, int pr, int fl, int fd, off_t o) { return do_mmap (a, n, pr, fl, fd, o); }
EXPORT void *mmap64 (void *a, size_t n, int pr, int fl, int fd, off_t o) { return do_mmap (a, n, pr, fl, fd, o); }

// ---- time
EXPORT time_t time (time_t *t)
{
    if (sim_active ()) { time_t x = sim_now () / 1000000000; if (t) *t = x; return x; }
    REAL (time_t, time, (time_t *));
    return r_time (t);
}
EXPORT int gettimeofday (struct timeval *tv, void *tz)
{
    if (sim_active ()) { tv->tv_sec = sim_now () / 1000000000; tv->tv_usec = sim_now () % 1000000000 / 1000; return 0; }
    REAL (int, gettimeofday, (struct timeval *, void *));
    return r_gettimeofday (tv, tz);
}
EXPORT int clock_gettime (clockid_t c, struct timespec *t)
{
    if (sim_active ()) { t->tv_sec = sim_now () / 1000000000; t->tv_nsec = sim_now () % 1000000000; return 0; }
    REAL (int, clock_gettime, (clockid_t, struct timespec *));
    return r_clock_gettime (c, t);
}
EXPORT int nanosleep (const struct timespec *a, struct timespec *b)
{
    if (sim_active ()) { if (b) b->tv_sec = b->tv_nsec = 0; return sim_sleep (a->tv_sec * 1000000000LL + a->tv_nsec); }
    REAL (int, nanosleep, (const struct timespec *, struct timespec *));
    return r_nanosleep (a, b);
}
EXPORT unsigned sleep (unsigned s)
{
    if (sim_active ()) { sim_sleep (s * 1000000000LL); return 0; }
    REAL (unsigned, sleep, (unsigned));
    return r_sleep (s);
}
EXPORT int usleep (useconds_t u)
{
    if (sim_active ()) return sim_sleep (u * 1000LL);
    REAL (int, usleep, (useconds_t));
    return r_usleep (u);
}
EXPORT int sched_yield (void)
{
    if (sim_active ()) return sim_sleep (1);
    return 0;
}

// ---- identity, randomness
EXPORT pid_t getpid (void)
{
    if (sim_active ()) return sim_getpid ();
    REAL (pid_t, getpid, (void));
    return r_getpid ();
}
EXPORT pid_t getppid (void)
{
    if (sim_active ()) return 1;
    REAL (pid_t, getppid, (void));
    return r_getppid ();
}
EXPORT int gethostname (char *b, size_t n)
{
    if (sim_active ()) {
	const char *h = sim_hostname ();
	strncpy (b, h, n);
	if (strlen (h) >= n) { if (n) b[n - 1] = 0; errno = ENAMETOOLONG; return -1; }
	return 0;
    }
    REAL (int, gethostname, (char *, size_t));
    return r_gethostname (b, n);
}
EXPORT int uname (struct utsname *u)
{
    REAL (int, uname, (struct utsname *));
    int r = r_uname (u);
    if (sim_active () && ! r) snprintf (u->nodename, sizeof u->nodename, "%s", sim_hostname ());
    return r;
}
EXPORT void uuid_generate (unsigned char *out) { sim_random (out, 16); out[6] = (out[6] & 15) | 64; out[8] = (out[8] & 63) | 128; }
EXPORT void uuid_generate_random (unsigned char *out) { uuid_generate (out); }
EXPORT ssize_t getrandom (void *b, size_t n, unsigned f)
{
    if (sim_active ()) { sim_random (b, n); return n; }
    REAL (ssize_t, getrandom, (void *, size_t, unsigned));
    return r_getrandom (b, n, f);
}
EXPORT int getentropy (void *b, size_t n)
{
    if (sim_active ()) { sim_random (b, n); return 0; }
    REAL (int, getentropy, (void *, size_t));
    return r_getentropy (b, n);
}
static unsigned rndint (void) { unsigned x; sim_random (&x, sizeof x); return x; }
EXPORT long random (void)
{
    if (sim_active ()) return rndint () & 0x7fffffff;
    REAL (long, random, (void));
    return r_random ();
}
EXPORT int rand (void)
{
    if (sim_active ()) return rndint () & 0x7fffffff;
    REAL (int, rand, (void));
    return r_rand ();
}
static struct passwd sim_pw = { "sim", "x", 1000, 1000, "Sim User,,,", "/sim/home", "/bin/sh" };
EXPORT struct passwd *getpwuid (uid_t u)
{
    if (sim_active ()) return &sim_pw;
    REAL (struct passwd *, getpwuid, (uid_t));
    return r_getpwuid (u);
}
EXPORT int getpwuid_r (uid_t u, struct passwd *pw, char *b, size_t n, struct passwd **out)
{
    if (sim_active ()) { *pw = sim_pw; *out = pw; return 0; }
    REAL (int, getpwuid_r, (uid_t, struct passwd *, char *, size_t, struct passwd **));
    return r_getpwuid_r (u, pw, b, n, out);
}

// ---- signals, processes
EXPORT int sigaction (int s, const struct sigaction *a, struct sigaction *o)
{
    if (sim_active ()) return sim_sigaction (s, a, o);
    REAL (int, sigaction, (int, const struct sigaction *, struct sigaction *));
    return r_sigaction (s, a, o);
}
EXPORT sighandler_t signal (int s, sighandler_t h)
{
    if (sim_active ()) {
	struct sigaction a, o;
	memset (&a, 0, sizeof a);
	a.sa_handler = h;
	a.sa_flags = SA_RESTART;
	sim_sigaction (s, &a, &o);
	return o.sa_handler;
    }
    REAL (sighandler_t, signal, (int, sighandler_t));
    return r_signal (s, h);
}
EXPORT int setitimer (__itimer_which_t w, const struct itimerval *a, struct itimerval *o)
{
    if (sim_active ()) return sim_setitimer (a, o);
    REAL (int, setitimer, (__itimer_which_t, const struct itimerval *, struct itimerval *));
    return r_setitimer (w, a, o);
}
EXPORT unsigned alarm (unsigned s)
{
    if (sim_active ()) {
	struct itimerval v = { { 0, 0 }, { s, 0 } };
	sim_setitimer (&v, NULL);
	return 0;
    }
    REAL (unsigned, alarm, (unsigned));
    return r_alarm (s);
}
EXPORT int kill (pid_t p, int s)
{
    if (sim_active ()) return sim_kill (p, s);
    REAL (int, kill, (pid_t, int));
    return r_kill (p, s);
}
EXPORT int raise (int s)
{
    if (sim_active ()) return sim_kill (sim_getpid (), s);
    REAL (int, raise, (int));
    return r_raise (s);
}
EXPORT pid_t fork (void)
{
    if (sim_active ()) return sim_fork ();
    REAL (pid_t, fork, (void));
    return r_fork ();
}
EXPORT pid_t waitpid (pid_t p, int *st, int o)
{
    if (sim_active ()) return sim_waitpid (p, st, o);
    REAL (pid_t, waitpid, (pid_t, int *, int));
    return r_waitpid (p, st, o);
}
EXPORT pid_t wait (int *st) { return waitpid (-1, st, 0); }
EXPORT int execv (const char *p, char *const *av)
{
    if (sim_active ()) return sim_exec (p, av, NULL);
    REAL (int, execv, (const char *, char *const *));
    return r_execv (p, av);
}
EXPORT int execve (const char *p, char *const *av, char *const *ev)
{
    if (sim_active ()) return sim_exec (p, av, ev);
    REAL (int, execve, (const char *, char *const *, char *const *));
    return r_execve (p, av, ev);
}
EXPORT int execvp (const char *p, char *const *av)
{
    if (sim_active ()) return sim_exec (p, av, NULL);
    REAL (int, execvp, (const char *, char *const *));
    return r_execvp (p, av);
}
#define EXECL(name) EXPORT int name (const char *p, const char *a0, ...) { \
	char *av[64]; int n = 0; va_list a; va_start (a, a0); \
	for (const char *x = a0; x && n < 63; x = va_arg (a, const char *)) av[n++] = (char *) x; \
	va_end (a); av[n] = NULL; return execv (p, av); }
EXECL (execl)
EXECL (execlp)
EXPORT int pipe (int *p)
{
    if (sim_active ()) { errno = ENOSYS; return -1; }
    REAL (int, pipe, (int *));
    return r_pipe (p);
}
EXPORT void exit (int c)
{
    if (sim_active ()) sim_exit (c);
    static void (*r) (int) __attribute__((noreturn));
    r = dlsym (RTLD_NEXT, "exit");
    r (c);
}
EXPORT void _exit (int c)
{
    if (sim_active ()) sim__exit (c);
    static void (*r) (int) __attribute__((noreturn));
    r = dlsym (RTLD_NEXT, "_exit");
    r (c);
}
EXPORT void abort (void)
{
    if (sim_active ()) sim_abort ();
    static void (*r) (void) __attribute__((noreturn));
    r = dlsym (RTLD_NEXT, "abort");
    r ();
}
EXPORT void __assert_fail (const char *e, const char *f, unsigned l, const char *fn)
{
    if (sim_active ()) { fprintf (stderr, "%s:%u: %s: Assertion `%s' failed.\n", f, l, fn, e); sim_abort (); }
    static void (*r) (const char *, const char *, unsigned, const char *) __attribute__((noreturn));
    r = dlsym (RTLD_NEXT, "__assert_fail");
    r (e, f, l, fn);
}

// GType names are process-wide: give every registration by a notmuch image its own name.
typedef unsigned long GT;
EXPORT GT g_type_register_static (GT parent, const char *name, const void *info, int flags)
{
    REAL (GT, g_type_register_static, (GT, const char *, const void *, int));
    const char *n = name;
    if (sim_active () && sim_from_image (__builtin_return_address (0))) n = sim_unique_type (name);
    return r_g_type_register_static (parent, n, info, flags);
}
