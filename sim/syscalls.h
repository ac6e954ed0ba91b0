#pragma once
#include <dirent.h>
#include <ftw.h>
#include <signal.h>
#include <stdio.h>
#include <stdint.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#ifdef __cplusplus
extern "C" {
#endif
int sim_active (void);
int sim_path (const char *p);
int sim_fd (int fd);
void sim_escape (const char *what, const char *path);
int sim_adopt (int realfd);
int sim_open (const char *p, int f, mode_t m);
int sim_openat (int d, const char *p, int f, mode_t m);
int sim_close (int fd);
ssize_t sim_read (int fd, void *b, size_t n);
ssize_t sim_write (int fd, const void *b, size_t n);
ssize_t sim_pread (int fd, void *b, size_t n, off_t o);
ssize_t sim_pwrite (int fd, const void *b, size_t n, off_t o);
off_t sim_lseek (int fd, off_t o, int w);
int sim_fsync (int fd);
int sim_isatty (int fd);
int sim_ftruncate (int fd, off_t n);
int sim_dup (int fd);
int sim_dup2 (int a, int b);
int sim_fcntl (int fd, int c, void *arg);
int sim_flock (int fd, int op);
int sim_fstat (int fd, struct stat *s);
int sim_stat (const char *p, struct stat *s, int follow);
int sim_fstatat (int d, const char *p, struct stat *s, int fl);
int sim_access (const char *p, int m);
ssize_t sim_readlink (const char *p, char *b, size_t n);
char *sim_realpath (const char *p);
const char *sim_cwd (void);
int sim_chdir (const char *p);
int sim_unlink (const char *p);
int sim_unlinkat (int d, const char *p, int fl);
int sim_rmdir (const char *p);
int sim_remove (const char *p);
int sim_mkdir (const char *p, mode_t m);
int sim_rename (const char *a, const char *b);
int sim_renameat2 (const char *a, const char *b, unsigned fl);
int sim_link (const char *a, const char *b);
int sim_symlink (const char *a, const char *b);
int sim_chmod (const char *p, mode_t m);
int sim_utimens (const char *p, const struct timespec *t);
mode_t sim_umask (mode_t m);
int sim_mkstemp (char *t);
char *sim_mkdtemp (char *t);
void sim_syncall (void);
DIR *sim_opendir (const char *p);
DIR *sim_fdopendir (int fd);
int sim_isdir (DIR *d);
struct dirent *sim_readdir (DIR *d);
int sim_closedir (DIR *d);
void sim_rewinddir (DIR *d);
int sim_dirfd (DIR *d);
int sim_scandir (const char *p, struct dirent ***l, int (*f) (const struct dirent *),
		 int (*c) (const struct dirent **, const struct dirent **));
int sim_nftw (const char *p, int (*f) (const char *, const struct stat *, int, struct FTW *), int n, int fl);
FILE *sim_fopen (const char *p, const char *m);
FILE *sim_fdopen (int fd, const char *m);
int sim_fileno (FILE *f);
int64_t sim_now (void);
int sim_sleep (int64_t ns);
int sim_await (int k, const char *path, int skip, int edge);
pid_t sim_getpid (void);
const char *sim_hostname (void);
void sim_random (void *b, size_t n);
int sim_sigaction (int s, const struct sigaction *a, struct sigaction *o);
int sim_setitimer (const struct itimerval *a, struct itimerval *o);
int sim_kill (pid_t p, int s);
pid_t sim_fork (void);
pid_t sim_waitpid (pid_t p, int *st, int o);
int sim_exec (const char *p, char *const *av, char *const *ev);
void sim_exit (int c) __attribute__((noreturn));
void sim__exit (int c) __attribute__((noreturn));
void sim_abort (void) __attribute__((noreturn));
int sim_from_image (void *addr);
const char *sim_unique_type (const char *name);
#ifdef __cplusplus
}
#endif
