// Simulated system calls.
#include "sim.h"
#include "syscalls.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" char **environ;
using namespace sim;

static const int REALBASE = 5000;

extern "C" {

int sim_active (void) { return W && W->cur; }

static bool is_simabs (const char *p) { return ! strncmp (p, "/sim", 4) && (p[4] == '/' || p[4] == 0); }

int sim_path (const char *p)
{
    if (! sim_active () || ! p) return 0;
    return p[0] != '/' || is_simabs (p);
}

int sim_fd (int fd) { return fd < REALBASE; }

}

static std::string abspath (const char *p)
{
    if (p[0] == '/') return p;
    if (! p[0]) return "";
    return W->cur->cwd + "/" + p;
}

static OFDp fdof (int fd)
{
    Node *n = W->cur;
    if (fd < 0 || (size_t) fd >= n->fds.size ()) return nullptr;
    return n->fds[fd];
}

#define STEP(k, path, len, shortp) do { int e_; W->step (k, path, len, &e_, shortp); \
	if (e_) { errno = e_; return -1; } W->fs.now = W->clock; } while (0)
#define AFTER(k, path) do { if (W->after_step && ! W->cur->quiet) W->after_step (W->cur, k, path); } while (0)
#define RET(r) do { int r_ = (r); if (r_ < 0) { errno = -r_; return -1; } } while (0)

static std::string pname (OFDp &o) { return o->kind == 1 ? "<stdin>" : o->kind == 2 ? "<out>" : o->path; }

namespace sim {
// ---- stdio on simulated descriptors
struct Cookie { Node *n; int fd; FILE *f; };
static ssize_t ck_read (void *c, char *b, size_t n) { return sim_read (((Cookie *) c)->fd, b, n); }
static ssize_t ck_write (void *c, const char *b, size_t n)
{
    size_t t = 0;
    while (t < n) {
	ssize_t r = sim_write (((Cookie *) c)->fd, b + t, n - t);
	if (r < 0) return t ? t : 0; // fopencookie: 0 signals an error
	t += r;
    }
    return t;
}
static int ck_seek (void *c, off64_t *o, int w)
{
    off_t r = sim_lseek (((Cookie *) c)->fd, *o, w);
    if (r < 0) return -1;
    *o = r;
    return 0;
}
static int ck_close (void *c)
{
    Cookie *k = (Cookie *) c;
    int r = 0;
    if (W && W->cur == k->n) {
	k->n->files.erase (k->f);
	r = sim_close (k->fd);
    }
    delete k;
    return r;
}

FILE *open_cookie (Node *n, int fd, const char *mode)
{
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    Cookie *c = new Cookie{ n, fd, nullptr };
    FILE *f = fopencookie (c, mode, io);
    c->f = f;
    n->files[f] = fd;
    return f;
}
}

extern "C" {

void sim_escape (const char *what, const char *path)
{
    W->escapes.push_back (std::string (what) + " outside the simulation: " + (path ? path : "?"));
}

int sim_adopt (int fd)
{
    static int (*rf) (int, int, ...) = (int (*)(int, int, ...)) dlsym (RTLD_NEXT, "fcntl");
    static int (*rc) (int) = (int (*)(int)) dlsym (RTLD_NEXT, "close");
    int n = rf (fd, F_DUPFD_CLOEXEC, REALBASE);
    rc (fd);
    return n;
}

static int open_abs (const std::string &p, int f, mode_t m)
{
    ino_num i = 0, d = 0;
    int acc = f & O_ACCMODE;
    int r = W->fs.lookup (p, ! (f & O_NOFOLLOW) && ! ((f & O_CREAT) && (f & O_EXCL)), &i, &d);
    Sys k = r == -ENOENT && (f & O_CREAT) ? S_CREATE : acc != O_RDONLY ? S_OPENW : S_OPEN;
    STEP (k, p, 0, nullptr);
    r = W->fs.lookup (p, ! (f & O_NOFOLLOW) && ! ((f & O_CREAT) && (f & O_EXCL)), &i, &d);
    if (r == 0 && (f & O_CREAT) && (f & O_EXCL)) { errno = EEXIST; return -1; }
    if (r == -ENOENT && (f & O_CREAT)) {
	if (! p.empty () && p.back () == '/') { errno = EISDIR; return -1; }
	r = W->fs.create (p, m & ~W->cur->umask_, &i, f & O_EXCL);
	if (r < 0) { errno = -r; return -1; }
    } else if (r < 0) { errno = -r; return -1; }
    Inode *x = W->fs.get (i);
    if (x->islnk ()) { errno = ELOOP; return -1; }
    if (x->isdir () && acc != O_RDONLY) { errno = EISDIR; return -1; }
    if (! x->isdir () && (f & O_DIRECTORY)) { errno = ENOTDIR; return -1; }
    if ((f & O_TRUNC) && acc != O_RDONLY && x->isreg () && ! x->data.empty ()) W->fs.truncate (i, 0);
    auto o = std::make_shared<OFD> ();
    o->ino = i;
    o->dir = d;
    o->path = p;
    o->flags = f;
    x->opens++;
    int fd = W->newfd (o);
    AFTER (k, p);
    return fd;
}

int sim_open (const char *p, int f, mode_t m) { return open_abs (abspath (p), f, m); }

int sim_openat (int d, const char *p, int f, mode_t m)
{
    OFDp o = fdof (d);
    if (! o) { errno = EBADF; return -1; }
    return open_abs (o->path + "/" + p, f, m);
}

int sim_close (int fd)
{
    OFDp o = fdof (fd);
    if (! o) { errno = EBADF; return -1; }
    int e = 0;
    if (o->kind == 0) W->step (o->wrote ? S_CLOSEW : S_CLOSE, o->path, 0, &e, nullptr);
    W->cur->fds[fd].reset ();
    if (e) { errno = e; return -1; }
    return 0;
}

ssize_t sim_read (int fd, void *b, size_t n)
{
    OFDp o = fdof (fd);
    if (! o) { errno = EBADF; return -1; }
    if (o->kind == 2 || (o->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    int64_t sh = n;
    STEP (S_READ, pname (o), n, &sh);
    if (o->kind == 1) {
	size_t left = o->input.size () - o->off;
	size_t m = std::min<size_t> (sh, left);
	if (o->ci < o->chunks.size () && m > 0) {
	    size_t c = o->chunks[o->ci];
	    if (c > 0 && c <= m) { m = c; o->ci++; } else if (c > 0) { o->chunks[o->ci] -= m; } else o->ci++;
	}
	memcpy (b, o->input.data () + o->off, m);
	o->off += m;
	return m;
    }
    Inode *x = W->fs.get (o->ino);
    if (x->isdir ()) { errno = EISDIR; return -1; }
    if (o->off >= x->data.size ()) return 0;
    size_t m = std::min<size_t> (sh, x->data.size () - o->off);
    memcpy (b, x->data.data () + o->off, m);
    o->off += m;
    return m;
}

ssize_t sim_write (int fd, const void *b, size_t n)
{
    OFDp o = fdof (fd);
    if (! o) { errno = EBADF; return -1; }
    if (o->kind == 1 || (o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    int64_t sh = n;
    STEP (S_WRITE, pname (o), n, &sh);
    if (o->kind == 2) { o->sink->append ((const char *) b, sh); return sh; }
    o->wrote = true;
    Inode *x = W->fs.get (o->ino);
    if (o->flags & O_APPEND) o->off = x->data.size ();
    W->fs.write (o->ino, o->off, (const char *) b, sh);
    o->off += sh;
    AFTER (S_WRITE, o->path);
    return sh;
}

ssize_t sim_pread (int fd, void *b, size_t n, off_t off)
{
    OFDp o = fdof (fd);
    if (! o || o->kind) { errno = EBADF; return -1; }
    int64_t sh = n;
    W->trace_off = off;
    STEP (S_READ, o->path, n, &sh);
    Inode *x = W->fs.get (o->ino);
    if ((size_t) off >= x->data.size ()) return 0;
    size_t m = std::min<size_t> (sh, x->data.size () - off);
    memcpy (b, x->data.data () + off, m);
    return m;
}

ssize_t sim_pwrite (int fd, const void *b, size_t n, off_t off)
{
    OFDp o = fdof (fd);
    if (! o || o->kind || (o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    int64_t sh = n;
    W->trace_off = off;
    STEP (S_WRITE, o->path, n, &sh);
    o->wrote = true;
    W->fs.write (o->ino, off, (const char *) b, sh);
    AFTER (S_WRITE, o->path);
    return sh;
}

off_t sim_lseek (int fd, off_t off, int w)
{
    OFDp o = fdof (fd);
    if (! o) { errno = EBADF; return -1; }
    if (o->kind) { errno = ESPIPE; return -1; }
    int64_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? (int64_t) o->off : (int64_t) W->fs.get (o->ino)->data.size ();
    if (base + off < 0) { errno = EINVAL; return -1; }
    o->off = base + off;
    return o->off;
}

int sim_fsync (int fd)
{
    OFDp o = fdof (fd);
    if (! o) { errno = EBADF; return -1; }
    if (o->kind) { errno = EINVAL; return -1; }
    STEP (S_FSYNC, o->path, 0, nullptr);
    W->fs.sync_file (o->ino, o->dir);
    AFTER (S_FSYNC, o->path);
    return 0;
}

int sim_isatty (int fd)
{
    errno = fdof (fd) ? ENOTTY : EBADF;
    return 0;
}

int sim_ftruncate (int fd, off_t n)
{
    OFDp o = fdof (fd);
    if (! o || o->kind) { errno = EBADF; return -1; }
    STEP (S_TRUNC, o->path, n, nullptr);
    W->fs.truncate (o->ino, n);
    return 0;
}

int sim_dup (int fd)
{
    OFDp o = fdof (fd);
    if (! o) { errno = EBADF; return -1; }
    STEP (S_MISC, "dup", 0, nullptr);
    return W->newfd (o);
}

int sim_dup2 (int a, int b)
{
    OFDp o = fdof (a);
    if (! o || b < 0 || b > 1000) { errno = EBADF; return -1; }
    Node *n = W->cur;
    if ((size_t) b >= n->fds.size ()) n->fds.resize (b + 1);
    n->fds[b] = o;
    return b;
}

static int do_lock (OFDp o, bool wait)
{
    while (true) {
	STEP (S_LOCK, o->path, 0, nullptr);
	if (! W->lock_try (o.get ())) { o->locked = true; return 0; }
	if (! wait) { errno = EAGAIN; return -1; }
	W->cur->lockofd = o.get ();
	W->park (Node::LOCKW);
    }
}

int sim_fcntl (int fd, int c, void *arg)
{
    OFDp o = fdof (fd);
    if (! o) { errno = EBADF; return -1; }
    switch (c) {
    case F_GETFD: return FD_CLOEXEC;
    case F_SETFD: return 0;
    case F_GETFL: return o->flags;
    case F_SETFL: return 0;
    case F_DUPFD:
    case F_DUPFD_CLOEXEC: {
	Node *n = W->cur;
	size_t i = (size_t) (long) arg;
	for (;; i++) {
	    if (i >= n->fds.size ()) n->fds.resize (i + 1);
	    if (! n->fds[i]) { n->fds[i] = o; return i; }
	}
    }
    case F_OFD_SETLK:
    case F_OFD_SETLKW:
    case F_SETLK:
    case F_SETLKW: {
	struct flock *l = (struct flock *) arg;
	if (l->l_type == F_UNLCK) { o->locked = false; return 0; }
	return do_lock (o, c == F_OFD_SETLKW || c == F_SETLKW);
    }
    case F_OFD_GETLK:
    case F_GETLK: {
	struct flock *l = (struct flock *) arg;
	if (! W->lock_try (o.get ())) l->l_type = F_UNLCK;
	return 0;
    }
    default:
	errno = EINVAL;
	return -1;
    }
}

int sim_flock (int fd, int op)
{
    OFDp o = fdof (fd);
    if (! o) { errno = EBADF; return -1; }
    if ((op & 7) == 8 /* LOCK_UN */) { o->locked = false; return 0; }
    return do_lock (o, ! (op & 4));
}

int sim_fstat (int fd, struct stat *s)
{
    OFDp o = fdof (fd);
    if (! o) { errno = EBADF; return -1; }
    if (o->kind) {
	memset (s, 0, sizeof *s);
	s->st_mode = S_IFIFO | 0600;
	s->st_blksize = 4096;
	return 0;
    }
    STEP (S_STAT, o->path, 0, nullptr);
    W->fs.fill_stat (o->ino, s);
    return 0;
}

static int stat_abs (const std::string &p, struct stat *s, int follow)
{
    STEP (S_STAT, p, 0, nullptr);
    ino_num i;
    RET (W->fs.lookup (p, follow, &i));
    W->fs.fill_stat (i, s);
    return 0;
}

int sim_stat (const char *p, struct stat *s, int follow) { return stat_abs (abspath (p), s, follow); }

int sim_fstatat (int d, const char *p, struct stat *s, int fl)
{
    OFDp o = fdof (d);
    if (! o) { errno = EBADF; return -1; }
    if (! *p && (fl & AT_EMPTY_PATH)) return sim_fstat (d, s);
    return stat_abs (o->path + "/" + p, s, ! (fl & AT_SYMLINK_NOFOLLOW));
}

int sim_access (const char *p, int m)
{
    std::string a = abspath (p);
    STEP (S_ACCESS, a, 0, nullptr);
    ino_num i;
    RET (W->fs.lookup (a, true, &i));
    mode_t md = W->fs.get (i)->mode;
    if (((m & R_OK) && ! (md & 0400)) || ((m & W_OK) && ! (md & 0200)) || ((m & X_OK) && ! (md & 0100))) {
	errno = EACCES;
	return -1;
    }
    return 0;
}

ssize_t sim_readlink (const char *p, char *b, size_t n)
{
    std::string a = abspath (p);
    STEP (S_READLINK, a, 0, nullptr);
    ino_num i;
    RET (W->fs.lookup (a, false, &i));
    Inode *x = W->fs.get (i);
    if (! x->islnk ()) { errno = EINVAL; return -1; }
    size_t m = std::min (n, x->data.size ());
    memcpy (b, x->data.data (), m);
    return m;
}

char *sim_realpath (const char *p)
{
    std::string a = abspath (p);
    int e;
    W->step (S_READLINK, a, 0, &e, nullptr);
    if (e) { errno = e; return nullptr; }
    std::string r = W->fs.realpath (a, &e);
    if (e) { errno = e; return nullptr; }
    return strdup (r.c_str ());
}

const char *sim_cwd (void) { return W->cur->cwd.c_str (); }

int sim_chdir (const char *p)
{
    std::string a = abspath (p);
    if (! W->fs.isdir (a)) { errno = ENOENT; return -1; }
    W->cur->cwd = a;
    return 0;
}

int sim_unlink (const char *p)
{
    std::string a = abspath (p);
    STEP (S_UNLINK, a, 0, nullptr);
    RET (W->fs.unlink (a));
    AFTER (S_UNLINK, a);
    return 0;
}

int sim_unlinkat (int d, const char *p, int fl)
{
    OFDp o = fdof (d);
    if (! o) { errno = EBADF; return -1; }
    std::string a = o->path + "/" + p;
    return fl & AT_REMOVEDIR ? sim_rmdir (a.c_str ()) : sim_unlink (a.c_str ());
}

int sim_rmdir (const char *p)
{
    std::string a = abspath (p);
    STEP (S_RMDIR, a, 0, nullptr);
    RET (W->fs.rmdir (a));
    AFTER (S_RMDIR, a);
    return 0;
}

int sim_remove (const char *p)
{
    std::string a = abspath (p);
    ino_num i;
    if (W->fs.lookup (a, false, &i) == 0 && W->fs.get (i)->isdir ()) return sim_rmdir (p);
    return sim_unlink (p);
}

int sim_mkdir (const char *p, mode_t m)
{
    std::string a = abspath (p);
    STEP (S_MKDIR, a, 0, nullptr);
    RET (W->fs.mkdir (a, m & ~W->cur->umask_));
    AFTER (S_MKDIR, a);
    return 0;
}

int sim_rename (const char *x, const char *y)
{
    std::string a = abspath (x), b = abspath (y);
    STEP (S_RENAME, a + " -> " + b, 0, nullptr);
    RET (W->fs.rename (a, b));
    AFTER (S_RENAME, a + " -> " + b);
    return 0;
}

int sim_renameat2 (const char *x, const char *y, unsigned fl)
{
    std::string a = abspath (x), b = abspath (y);
    STEP (S_RENAME, a + " -> " + b, 0, nullptr);
    if ((fl & 1) && W->fs.exists (b)) { errno = EEXIST; return -1; } // RENAME_NOREPLACE
    if (fl == 2) { // RENAME_EXCHANGE
	if (W->no_exchange) { errno = EINVAL; return -1; }
	RET (W->fs.exchange (a, b));
	AFTER (S_RENAME, a + " -> " + b);
	return 0;
    }
    if (fl & ~1u) { errno = EINVAL; return -1; }
    RET (W->fs.rename (a, b));
    AFTER (S_RENAME, a + " -> " + b);
    return 0;
}

int sim_link (const char *x, const char *y)
{
    std::string a = abspath (x), b = abspath (y);
    STEP (S_LINK, a + " -> " + b, 0, nullptr);
    RET (W->fs.link (a, b));
    AFTER (S_LINK, a + " -> " + b);
    return 0;
}

int sim_symlink (const char *x, const char *y)
{
    std::string b = abspath (y);
    STEP (S_LINK, b, 0, nullptr);
    RET (W->fs.symlink (x, b));
    return 0;
}

int sim_chmod (const char *p, mode_t m)
{
    std::string a = abspath (p);
    STEP (S_MISC, a, 0, nullptr);
    ino_num i;
    RET (W->fs.lookup (a, true, &i));
    Inode *x = W->fs.get (i);
    x->mode = (x->mode & S_IFMT) | (m & 07777);
    return 0;
}

int sim_utimens (const char *p, const struct timespec *t)
{
    std::string a = abspath (p);
    ino_num i;
    RET (W->fs.lookup (a, true, &i));
    W->fs.get (i)->mtime = t ? t[1].tv_sec * 1000000000LL + t[1].tv_nsec : W->clock;
    return 0;
}

mode_t sim_umask (mode_t m) { mode_t o = W->cur->umask_; W->cur->umask_ = m & 0777; return o; }

static void fill_template (char *t)
{
    static const char *al = "abcdefghijklmnopqrstuvwxyz0123456789";
    char *x = t + strlen (t) - 6;
    uint64_t v = W->rnd ();
    for (int i = 0; i < 6; i++) { x[i] = al[v % 36]; v /= 36; }
}

int sim_mkstemp (char *t)
{
    size_t l = strlen (t);
    if (l < 6 || strcmp (t + l - 6, "XXXXXX")) { errno = EINVAL; return -1; }
    for (int i = 0; i < 100; i++) {
	fill_template (t);
	int fd = sim_open (t, O_RDWR | O_CREAT | O_EXCL, 0600);
	if (fd >= 0 || errno != EEXIST) return fd;
    }
    errno = EEXIST;
    return -1;
}

char *sim_mkdtemp (char *t)
{
    for (int i = 0; i < 100; i++) {
	fill_template (t);
	if (! sim_mkdir (t, 0700)) return t;
	if (errno != EEXIST) return nullptr;
    }
    return nullptr;
}

void sim_syncall (void) { W->fs.sync_all (); }

// ---- directories
struct SimDir { uint64_t magic; Node *n; int fd; std::vector<std::pair<std::string, ino_num>> ents; size_t pos; struct dirent de; };
static std::set<SimDir *> dirs;

static void fill_dirent (struct dirent *d, const std::string &name, ino_num i)
{
    memset (d, 0, sizeof *d);
    d->d_ino = i;
    d->d_reclen = sizeof *d;
    Inode *x = W->fs.get (i);
    d->d_type = ! x ? DT_UNKNOWN : x->isdir () ? DT_DIR : x->islnk () ? DT_LNK : DT_REG;
    strncpy (d->d_name, name.c_str (), sizeof d->d_name - 1);
}

static std::vector<std::pair<std::string, ino_num>> listing (ino_num i)
{
    std::vector<std::pair<std::string, ino_num>> v;
    v.push_back ({ ".", i });
    v.push_back ({ "..", W->fs.get (i)->parent });
    for (auto &e : W->fs.get (i)->ents) v.push_back (e);
    return v;
}

DIR *sim_fdopendir (int fd)
{
    OFDp o = fdof (fd);
    if (! o || ! W->fs.get (o->ino)->isdir ()) { errno = ENOTDIR; return nullptr; }
    SimDir *d = new SimDir ();
    d->fd = fd;
    d->n = W->cur;
    d->ents = listing (o->ino);
    d->pos = 0;
    dirs.insert (d);
    return (DIR *) d;
}

DIR *sim_opendir (const char *p)
{
    int e;
    std::string a = abspath (p);
    W->step (S_SCAN, a, 0, &e, nullptr);
    if (e) { errno = e; return nullptr; }
    bool q = W->cur->quiet;
    W->cur->quiet = true;
    int fd = open_abs (a, O_RDONLY | O_DIRECTORY, 0);
    W->cur->quiet = q;
    if (fd < 0) return nullptr;
    return sim_fdopendir (fd);
}

int sim_isdir (DIR *d) { return sim_active () && dirs.count ((SimDir *) d); }

struct dirent *sim_readdir (DIR *p)
{
    SimDir *d = (SimDir *) p;
    if (d->pos >= d->ents.size ()) return nullptr;
    auto &e = d->ents[d->pos++];
    fill_dirent (&d->de, e.first, e.second);
    return &d->de;
}

int sim_closedir (DIR *p)
{
    SimDir *d = (SimDir *) p;
    dirs.erase (d);
    if (d->n == W->cur && fdof (d->fd)) W->cur->fds[d->fd].reset ();
    delete d;
    return 0;
}

void sim_rewinddir (DIR *p) { ((SimDir *) p)->pos = 0; }
int sim_dirfd (DIR *p) { return ((SimDir *) p)->fd; }

int sim_scandir (const char *p, struct dirent ***l, int (*f) (const struct dirent *),
		 int (*c) (const struct dirent **, const struct dirent **))
{
    std::string a = abspath (p);
    STEP (S_SCAN, a, 0, nullptr);
    ino_num i;
    RET (W->fs.lookup (a, true, &i));
    if (! W->fs.get (i)->isdir ()) { errno = ENOTDIR; return -1; }
    std::vector<struct dirent *> v;
    for (auto &e : listing (i)) {
	struct dirent *d = (struct dirent *) malloc (sizeof *d);
	fill_dirent (d, e.first, e.second);
	if (f && ! f (d)) { free (d); continue; }
	v.push_back (d);
    }
    struct dirent **r = (struct dirent **) malloc ((v.size () + 1) * sizeof *r);
    for (size_t k = 0; k < v.size (); k++) r[k] = v[k];
    if (c) qsort (r, v.size (), sizeof *r, (int (*)(const void *, const void *)) c);
    *l = r;
    return v.size ();
}

static int nftw_rec (const std::string &p, int (*f) (const char *, const struct stat *, int, struct FTW *), int fl, int level)
{
    struct stat st;
    if (stat_abs (p, &st, ! (fl & FTW_PHYS)) < 0) return -1;
    struct FTW ft;
    ft.base = p.rfind ('/') + 1;
    ft.level = level;
    int r;
    if (S_ISDIR (st.st_mode)) {
	if (! (fl & FTW_DEPTH) && (r = f (p.c_str (), &st, FTW_D, &ft))) return r;
	int e;
	W->step (S_SCAN, p, 0, &e, nullptr);
	if (e) {
	    if (e != EACCES) { errno = e; return -1; }
	    return f (p.c_str (), &st, FTW_DNR, &ft);
	}
	for (auto &n : W->fs.list (p))
	    if ((r = nftw_rec (p + "/" + n, f, fl, level + 1))) return r;
	if ((fl & FTW_DEPTH) && (r = f (p.c_str (), &st, FTW_DP, &ft))) return r;
	return 0;
    }
    return f (p.c_str (), &st, S_ISLNK (st.st_mode) ? FTW_SL : FTW_F, &ft);
}

int sim_nftw (const char *p, int (*f) (const char *, const struct stat *, int, struct FTW *), int, int fl)
{
    return nftw_rec (abspath (p), f, fl, 0);
}

// ---- stdio
static int mode_flags (const char *m)
{
    int f = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    if (strchr (m, '+')) f = (f & ~O_ACCMODE) | O_RDWR;
    if (strchr (m, 'x')) f |= O_EXCL;
    return f;
}
static std::string clean_mode (const char *m)
{
    std::string s;
    for (; *m && *m != ','; m++) if (strchr ("rwa+b", *m)) s += *m;
    return s;
}

FILE *sim_fopen (const char *p, const char *m)
{
    int fd = sim_open (p, mode_flags (m), 0666);
    if (fd < 0) return nullptr;
    return open_cookie (W->cur, fd, clean_mode (m).c_str ());
}

FILE *sim_fdopen (int fd, const char *m)
{
    if (! fdof (fd)) { errno = EBADF; return nullptr; }
    return open_cookie (W->cur, fd, clean_mode (m).c_str ());
}

int sim_fileno (FILE *f)
{
    auto it = W->cur->files.find (f);
    return it == W->cur->files.end () ? -1 : it->second;
}

// ---- time and identity
int64_t sim_now (void) { return W->clock; }

int sim_sleep (int64_t ns)
{
    Node *n = W->cur;
    STEP (S_SLEEP, "", 0, nullptr);
    if (n->quiet) return 0;
    n->wake = W->clock + ns;
    W->park (Node::SLEEPW);
    return 0;
}

// sleep until another process is about to make call k on path (or nothing else can go on)
int sim_await (int k, const char *path, int skip, int edge)
{
    Node *n = W->cur;
    STEP (S_SLEEP, "", 0, nullptr);
    n->wake = INT64_MAX;
    n->awsys = k;
    n->awpath = path;
    n->awskip = skip;
    n->awedge = edge;
    W->park (Node::SLEEPW);
    n->awsys = -1;
    return 0;
}

pid_t sim_getpid (void) { return W->cur->pid; }
const char *sim_hostname (void) { return W->hostname.c_str (); }

void sim_random (void *b, size_t n)
{
    static uint64_t fallback = 99;
    unsigned char *c = (unsigned char *) b;
    for (size_t i = 0; i < n; i++) c[i] = W ? W->rnd () >> 17 : (fallback = fallback * 6364136223846793005ULL + 1) >> 40;
}

int sim_sigaction (int s, const struct sigaction *a, struct sigaction *o)
{
    if (s < 1 || s > 64) { errno = EINVAL; return -1; }
    if (o) *o = W->cur->sa[s];
    if (a) W->cur->sa[s] = *a;
    return 0;
}

int sim_setitimer (const struct itimerval *a, struct itimerval *o)
{
    Node *n = W->cur;
    if (o) memset (o, 0, sizeof *o);
    int64_t v = a->it_value.tv_sec * 1000000000LL + a->it_value.tv_usec * 1000LL;
    n->timer_iv = a->it_interval.tv_sec * 1000000000LL + a->it_interval.tv_usec * 1000LL;
    n->timer_at = v ? W->clock + v : 0;
    return 0;
}

int sim_kill (pid_t p, int s)
{
    Node *n = W->cur;
    if (p == n->pid || p == 0) {
	if (s == SIGKILL) W->leave (H_KILLED, 9);
	if (s > 0 && s < 64) { n->sigpend |= 1ULL << s; W->deliver_signals (); }
	return 0;
    }
    for (auto &x : W->nodes)
	if (x->pid == p && x->st != Node::DONE) {
	    if (s == SIGKILL) W->kill_node (x.get ());
	    else if (s > 0 && s < 64) x->sigpend |= 1ULL << s;
	    return 0;
	}
    errno = ESRCH;
    return -1;
}

// ---- processes
static void resume_parent (int ret)
{
    Node *n = W->cur;
    n->fork_ret = ret;
    n->resume_fork = true;
    setcontext (&W->main_ctx);
}

__attribute__ ((noinline)) pid_t sim_fork (void)
{
    Node *n = W->cur;
    STEP (S_FORK, "", 0, nullptr);
    volatile int *again = (volatile int *) &n->fork_ret;
    *again = -12345;
    getcontext (&n->forkctx);
    if (*again != -12345) return *again; // second return, in the parent
    char probe;
    n->stack_lo = &probe - 2048;
    char *top = n->stack + (1 << 20);
    n->stackcopy.assign (n->stack_lo, top - n->stack_lo);
    n->fork_fds = n->fds;
    n->in_child = true;
    return 0;
}

int sim_exec (const char *p, char *const *av, char *const *)
{
    Node *n = W->cur;
    std::string a = abspath (p);
    STEP (S_EXEC, a, 0, nullptr);
    if (! strchr (p, '/')) { errno = ENOENT; return -1; }
    ino_num i;
    RET (W->fs.lookup (a, true, &i));
    if (! (W->fs.get (i)->mode & 0100)) { errno = EACCES; return -1; }
    std::vector<std::string> args;
    for (; *av; av++) args.push_back (*av);
    ProcSpec s;
    s.name = a;
    if (! W->exec_hook || ! W->exec_hook (n, a, args, &s)) { errno = ENOEXEC; return -1; }
    if (! n->in_child) { W->escapes.push_back ("exec without fork: " + a); errno = ENOEXEC; return -1; }
    Node *c = W->spawn (s, n->idx, environ);
    c->res.start_step = W->gstep;
    n->children.push_back (c->idx);
    resume_parent (c->pid);
    return -1;
}

pid_t sim_waitpid (pid_t p, int *st, int o)
{
    Node *n = W->cur;
    STEP (S_WAIT, "", 0, nullptr);
    while (true) {
	auto it = p > 0 ? n->zombies.find (p) : n->zombies.begin ();
	if (it != n->zombies.end ()) {
	    pid_t r = it->first;
	    if (st) *st = it->second;
	    n->zombies.erase (it);
	    return r;
	}
	bool any = false;
	for (int c : n->children) if (W->nodes[c]->st != Node::DONE && (p <= 0 || W->nodes[c]->pid == p)) any = true;
	if (! any) { errno = ECHILD; return -1; }
	if (o & WNOHANG) return 0;
	n->waitpid = p;
	W->park (Node::CHILDW);
    }
}

static void child_exit (int c)
{
    Node *n = W->cur;
    int pid = W->next_pid++;
    n->zombies[pid] = (c & 255) << 8;
    resume_parent (pid);
}

void sim_exit (int c)
{
    Node *n = W->cur;
    std::vector<FILE *> fl;
    for (auto &f : n->files) fl.push_back (f.first);
    for (auto f : fl) if (f != n->f_in && n->files.count (f)) fflush (f);
    if (n->in_child) child_exit (c);
    W->leave (H_EXITED, c & 255);
}

void sim__exit (int c)
{
    if (W->cur->in_child) child_exit (c);
    W->leave (H_EXITED, c & 255);
}

void sim_abort (void) { W->leave (H_SIGNALED, SIGABRT); }

int sim_from_image (void *a)
{
    for (auto &s : slots) if ((char *) a >= s.lo && (char *) a < s.hi) return 1;
    return 0;
}

const char *sim_unique_type (const char *name)
{
    static int k;
    static char *b;
    if (asprintf (&b, "%s-%d", name, ++k) < 0) _exit (3);
    return b; // leaked on purpose
}

}

namespace sim {
int a_put (const std::string &path, const std::string &data)
{
    // a mail delivery agent: write under tmp-like hidden name outside the tree, sync, rename into place
    static const std::string stage = "/sim/stage";
    std::string t = stage + "/d" + std::to_string (W->rnd () % 1000000007);
    int fd = sim_open (t.c_str (), O_WRONLY | O_CREAT | O_EXCL, 0600);
    if (fd < 0) return -errno;
    sim_write (fd, data.data (), data.size ());
    sim_fsync (fd);
    sim_close (fd);
    return sim_rename (t.c_str (), path.c_str ()) ? -errno : 0;
}
int a_rename (const std::string &a, const std::string &b) { return sim_rename (a.c_str (), b.c_str ()) ? -errno : 0; }
std::vector<std::string> a_list (const std::string &d)
{
    int e;
    int64_t sh;
    W->step (S_SCAN, d, 0, &e, &sh);
    return W->fs.list (d);
}
int a_unlink (const std::string &a) { return sim_unlink (a.c_str ()) ? -errno : 0; }
int a_mkdir (const std::string &a) { return sim_mkdir (a.c_str (), 0755) ? -errno : 0; }
int a_rmdir (const std::string &a) { return sim_rmdir (a.c_str ()) ? -errno : 0; }
}
