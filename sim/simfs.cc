#include "simfs.h"
#include <cerrno>
#include <climits>
#include <cstring>
#include <set>

namespace sim {

FS::FS () { reset (); }

void FS::reset ()
{
    plain_nlink = false;
    strict = false;
    in.clear ();
    journal.clear ();
    next_ino = 2;
    seq = 1;
    Inode r;
    r.ino = 1;
    r.mode = S_IFDIR | 0755;
    r.nlink = 2;
    r.parent = 1;
    in[1] = r;
}

int FS::lookup (const std::string &path, bool follow, ino_num *out, ino_num *dirout,
		std::string *last, int depth) const
{
    if (depth > 20) return -ELOOP;
    if (path.empty ()) return -ENOENT;
    if (path.size () >= 4096) return -ENAMETOOLONG;
    std::vector<std::string> comp;
    size_t p = 0;
    while (p < path.size ()) {
	size_t q = path.find ('/', p);
	if (q == std::string::npos) q = path.size ();
	if (q > p) comp.push_back (path.substr (p, q - p));
	p = q + 1;
    }
    bool trailing = ! path.empty () && path.back () == '/';
    std::vector<std::string> curpath;
    ino_num cur = 1, dir = 1;
    std::string name;
    for (size_t i = 0; i < comp.size (); i++) {
	const Inode *d = get (cur);
	if (! d->isdir ()) return -ENOTDIR;
	bool lastc = (i + 1 == comp.size ());
	const std::string &c = comp[i];
	if (c == ".") { if (lastc) { dir = d->parent; name = "."; } continue; }
	if (c == "..") {
	    cur = d->parent;
	    if (! curpath.empty ()) curpath.pop_back ();
	    if (lastc) { dir = cur; name = ".."; }
	    continue;
	}
	if (c.size () > 255) return -ENAMETOOLONG;
	dir = cur;
	name = c;
	auto e = d->ents.find (c);
	if (e == d->ents.end ()) {
	    if (lastc) {
		if (dirout) *dirout = dir;
		if (last) *last = name;
		if (out) *out = 0;
	    } else {
		if (dirout) *dirout = 0;
	    }
	    return -ENOENT;
	}
	const Inode *n = get (e->second);
	if (n->islnk () && (! lastc || follow || trailing)) {
	    std::string t = n->data, base;
	    for (auto &x : curpath) base += "/" + x;
	    if (t.empty () || t[0] != '/') t = base + "/" + t;
	    for (size_t j = i + 1; j < comp.size (); j++) t += "/" + comp[j];
	    return lookup (t, follow, out, dirout, last, depth + 1);
	}
	cur = e->second;
	curpath.push_back (c);
    }
    if (trailing && ! get (cur)->isdir ()) return -ENOTDIR;
    if (out) *out = cur;
    if (dirout) *dirout = dir;
    if (last) *last = name;
    return 0;
}

std::string FS::realpath (const std::string &path, int *err) const
{
    ino_num i, d = 0;
    std::string name;
    int r = lookup (path, true, &i, &d, &name);
    *err = -r;
    if (r < 0) return "";
    // climb through directories
    std::string res;
    if (! get (i)->isdir ()) {
	res = "/" + name;
	i = d;
    }
    while (i != 1) {
	const Inode *n = get (i), *p = get (n->parent);
	std::string nm = "?";
	for (auto &e : p->ents) if (e.second == i) nm = e.first;
	res = "/" + nm + res;
	i = n->parent;
    }
    return res.empty () ? "/" : res;
}

void FS::log (std::vector<Mut> m, bool is_rename)
{
    seq++;
    for (auto &x : m) {
	x.mtime = now;
	Inode *d = get (x.dir);
	if (d) {
	    d->mtime = now;
	    if (is_rename) d->last_rename = seq;
	}
    }
    if (track) journal.push_back (JOp{ seq, std::move (m) });
    else for (auto &x : m) { // straight to durable
	Inode *d = get (x.dir);
	if (! d) continue;
	if (x.nw) d->dents[x.name] = x.nw; else d->dents.erase (x.name);
	d->dmtime = x.mtime;
    }
}

void FS::unref (ino_num i)
{
    Inode *n = get (i);
    if (! n) return;
    if (n->isdir ()) n->nlink = 0; else n->nlink--;
}

int FS::create (const std::string &path, mode_t mode, ino_num *out, bool excl)
{
    ino_num i = 0, d = 0;
    std::string name;
    int r = lookup (path, ! excl, &i, &d, &name);
    if (r == 0) {
	if (excl) return -EEXIST;
	*out = i;
	return 0;
    }
    if (r != -ENOENT || ! d) return r;
    Inode n;
    n.ino = next_ino++;
    n.mode = S_IFREG | (mode & 07777);
    n.nlink = 1;
    n.mtime = now;
    in[n.ino] = n;
    get (d)->ents[name] = n.ino;
    log ({ Mut{ d, name, n.ino, 0 } }, false);
    *out = n.ino;
    return 1;
}

int FS::mkdir (const std::string &path, mode_t mode)
{
    ino_num i = 0, d = 0;
    std::string name, p = path;
    while (p.size () > 1 && p.back () == '/') p.pop_back ();
    int r = lookup (p, false, &i, &d, &name);
    if (r == 0) return -EEXIST;
    if (r != -ENOENT || ! d) return r;
    Inode n;
    n.ino = next_ino++;
    n.mode = S_IFDIR | (mode & 07777);
    n.nlink = 2;
    n.parent = d;
    n.mtime = n.dmtime = now;
    in[n.ino] = n;
    get (d)->ents[name] = n.ino;
    log ({ Mut{ d, name, n.ino, 0 } }, false);
    return 0;
}

int FS::symlink (const std::string &target, const std::string &path)
{
    ino_num i = 0, d = 0;
    std::string name;
    int r = lookup (path, false, &i, &d, &name);
    if (r == 0) return -EEXIST;
    if (r != -ENOENT || ! d) return r;
    Inode n;
    n.ino = next_ino++;
    n.mode = S_IFLNK | 0777;
    n.nlink = 1;
    n.data = n.ddata = target;
    n.mtime = now;
    in[n.ino] = n;
    get (d)->ents[name] = n.ino;
    log ({ Mut{ d, name, n.ino, 0 } }, false);
    return 0;
}

int FS::link (const std::string &a, const std::string &b)
{
    ino_num i = 0, j = 0, d = 0;
    std::string name;
    int r = lookup (a, false, &i);
    if (r < 0) return r;
    if (get (i)->isdir ()) return -EPERM;
    r = lookup (b, false, &j, &d, &name);
    if (r == 0) return -EEXIST;
    if (r != -ENOENT || ! d) return r;
    get (d)->ents[name] = i;
    get (i)->nlink++;
    log ({ Mut{ d, name, i, 0 } }, false);
    return 0;
}

int FS::rmdir (const std::string &path)
{
    ino_num i, d;
    std::string name;
    int r = lookup (path, false, &i, &d, &name);
    if (r < 0) return r;
    Inode *n = get (i);
    if (! n->isdir ()) return -ENOTDIR;
    if (! n->ents.empty ()) return -ENOTEMPTY;
    if (i == 1 || name == "." || name == "..") return -EINVAL;
    get (d)->ents.erase (name);
    unref (i);
    log ({ Mut{ d, name, 0, 0 } }, false);
    return 0;
}

int FS::unlink (const std::string &path)
{
    ino_num i, d;
    std::string name;
    int r = lookup (path, false, &i, &d, &name);
    if (r < 0) return r;
    if (get (i)->isdir ()) return -EISDIR;
    get (d)->ents.erase (name);
    unref (i);
    log ({ Mut{ d, name, 0, 0 } }, false);
    return 0;
}

int FS::rename (const std::string &a, const std::string &b)
{
    ino_num i, di, j = 0, dj = 0;
    std::string na, nb;
    int r = lookup (a, false, &i, &di, &na);
    if (r < 0) return r;
    std::string bb = b;
    while (bb.size () > 1 && bb.back () == '/') bb.pop_back ();
    r = lookup (bb, false, &j, &dj, &nb);
    if (r < 0 && (r != -ENOENT || ! dj)) return r;
    if (r == 0) {
	if (i == j) return 0;
	if (get (j)->isdir ()) {
	    if (! get (i)->isdir ()) return -EISDIR;
	    if (! get (j)->ents.empty ()) return -ENOTEMPTY;
	} else if (get (i)->isdir ()) return -ENOTDIR;
    }
    if (get (i)->isdir ())
	for (ino_num x = dj; x != 1; x = get (x)->parent)
	    if (x == i) return -EINVAL;
    get (di)->ents.erase (na);
    if (j) unref (j);
    get (dj)->ents[nb] = i;
    if (get (i)->isdir ()) get (i)->parent = dj;
    log ({ Mut{ di, na, 0, 0 }, Mut{ dj, nb, i, 0 } }, true);
    return 0;
}

int FS::exchange (const std::string &a, const std::string &b)
{
    ino_num i, di, j, dj;
    std::string na, nb;
    int r = lookup (a, false, &i, &di, &na);
    if (r < 0) return r;
    r = lookup (b, false, &j, &dj, &nb);
    if (r < 0) return r;
    if (i == j) return 0;
    if (get (i)->isdir ()) for (ino_num x = dj; x != 1; x = get (x)->parent) if (x == i) return -EINVAL;
    if (get (j)->isdir ()) for (ino_num x = di; x != 1; x = get (x)->parent) if (x == j) return -EINVAL;
    get (di)->ents[na] = j;
    get (dj)->ents[nb] = i;
    if (get (i)->isdir ()) get (i)->parent = dj;
    if (get (j)->isdir ()) get (j)->parent = di;
    log ({ Mut{ di, na, j, 0 }, Mut{ dj, nb, i, 0 } }, true);
    return 0;
}

void FS::write (ino_num i, uint64_t off, const char *buf, size_t n)
{
    Inode *x = get (i);
    if (x->data.size () < off + n) x->data.resize (off + n);
    memcpy (&x->data[off], buf, n);
    x->mtime = now;
    seq++;
    if (track) x->pend.push_back (DataWrite{ seq, false, off, std::string (buf, n) });
    else x->ddata = x->data;
}

void FS::truncate (ino_num i, uint64_t size)
{
    Inode *x = get (i);
    x->data.resize (size);
    x->mtime = now;
    seq++;
    if (track) x->pend.push_back (DataWrite{ seq, true, size, "" });
    else x->ddata = x->data;
}

void FS::commit_upto (uint64_t s)
{
    while (! journal.empty () && journal.front ().seq <= s) {
	for (auto &x : journal.front ().muts) {
	    Inode *d = get (x.dir);
	    if (! d) continue;
	    if (x.nw) d->dents[x.name] = x.nw; else d->dents.erase (x.name);
	    d->dmtime = x.mtime;
	}
	journal.pop_front ();
    }
}

void FS::sync_file (ino_num i, ino_num dir)
{
    Inode *x = get (i);
    if (! x) return;
    if (x->isdir ()) { sync_dir (i); return; }
    x->ddata = x->data;
    x->pend.clear ();
    Inode *d = get (dir);
    if (d && ! strict) commit_upto (d->last_rename);
}

void FS::sync_dir (ino_num i)
{
    if (! strict) { commit_upto (seq); return; }
    Inode *d = get (i);
    if (! d) return;
    for (auto &j : journal) {
	std::vector<Mut> rest;
	for (auto &x : j.muts) {
	    if (x.dir != i) { rest.push_back (x); continue; }
	    if (x.nw) d->dents[x.name] = x.nw; else d->dents.erase (x.name);
	    d->dmtime = x.mtime;
	}
	j.muts = rest;
    }
}

void FS::sync_all ()
{
    commit_upto (UINT64_MAX);
    for (auto &p : in) {
	Inode &x = p.second;
	if (x.isreg ()) { x.ddata = x.data; x.pend.clear (); }
	if (x.isdir ()) { x.dents = x.ents; x.dmtime = x.mtime; }
    }
    gc ();
}

static uint64_t mix (uint64_t &s)
{
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

void FS::power_loss (const PowerSpec &ps)
{
    uint64_t s = ps.seed;
    size_t keep = journal.size () * (size_t) ps.keep_pct / 100;
    uint64_t cut = 0;
    if (keep) cut = journal[keep - 1].seq;
    // Writes older than the first lost name change may have reached the disk.
    uint64_t limit = keep < journal.size () ? journal[keep].seq : UINT64_MAX;
    commit_upto (cut);
    journal.clear ();
    for (auto &p : in) {
	Inode &x = p.second;
	if (x.isdir ()) {
	    x.ents = x.dents;
	    x.mtime = x.dmtime;
	} else if (x.isreg ()) {
	    std::string d = x.ddata;
	    for (auto &w : x.pend) {
		if (w.seq > limit || ps.data_mode == 0) continue;
		if (ps.data_mode == 2 && mix (s) % 2) continue;
		if (w.trunc) { d.resize (w.off); continue; }
		if (ps.data_mode == 2) {
		    // tear at sector granularity
		    for (size_t o = 0; o < w.bytes.size (); o += 512) {
			size_t n = std::min<size_t> (512, w.bytes.size () - o);
			if (mix (s) % 4 == 0) continue;
			if (d.size () < w.off + o + n) d.resize (w.off + o + n);
			memcpy (&d[w.off + o], &w.bytes[o], n);
		    }
		} else {
		    if (d.size () < w.off + w.bytes.size ()) d.resize (w.off + w.bytes.size ());
		    memcpy (&d[w.off], w.bytes.data (), w.bytes.size ());
		}
	    }
	    x.data = x.ddata = d;
	    x.pend.clear ();
	}
	x.opens = 0;
    }
    // recompute links and parents
    for (auto &p : in) p.second.nlink = p.second.isdir () ? 2 : 0;
    for (auto &p : in)
	if (p.second.isdir ())
	    for (auto it = p.second.ents.begin (); it != p.second.ents.end ();) {
		Inode *c = get (it->second);
		if (! c) { it = p.second.ents.erase (it); continue; }
		if (c->isdir ()) c->parent = p.first; else c->nlink++;
		++it;
	    }
    gc ();
}

void FS::gc ()
{
    std::set<ino_num> live;
    std::vector<ino_num> st{ 1 };
    while (! st.empty ()) {
	ino_num i = st.back ();
	st.pop_back ();
	if (! live.insert (i).second) continue;
	Inode *x = get (i);
	if (! x) continue;
	for (auto &e : x->ents) st.push_back (e.second);
	for (auto &e : x->dents) st.push_back (e.second);
    }
    for (auto &j : journal) for (auto &m : j.muts) { live.insert (m.dir); if (m.nw) live.insert (m.nw); }
    for (auto it = in.begin (); it != in.end ();)
	if (! live.count (it->first) && it->second.opens == 0) it = in.erase (it); else ++it;
}

void FS::fill_stat (ino_num i, struct stat *st) const
{
    const Inode *x = get (i);
    memset (st, 0, sizeof *st);
    st->st_dev = 77;
    st->st_ino = i;
    st->st_mode = x->mode;
    st->st_nlink = x->nlink;
    if (x->isdir ()) {
	int subs = 0;
	for (auto &e : x->ents) if (const Inode *c = get (e.second)) subs += c->isdir ();
	st->st_nlink = plain_nlink ? 1 : 2 + subs; // some file systems do not count sub-directories
    }
    st->st_uid = 1000;
    st->st_gid = 1000;
    st->st_size = x->isdir () ? 4096 : x->data.size ();
    st->st_blksize = 4096;
    st->st_blocks = (st->st_size + 511) / 512;
    st->st_mtim.tv_sec = x->mtime / 1000000000;
    st->st_mtim.tv_nsec = x->mtime % 1000000000;
    st->st_ctim = st->st_atim = st->st_mtim;
}

bool FS::exists (const std::string &p) const { ino_num i; return lookup (p, false, &i) == 0; }
bool FS::isdir (const std::string &p) const
{
    ino_num i;
    return lookup (p, true, &i) == 0 && get (i)->isdir ();
}

int FS::put (const std::string &p, const std::string &data, mode_t mode)
{
    ino_num i;
    int r = create (p, mode, &i, false);
    if (r < 0) return r;
    truncate (i, 0);
    write (i, 0, data.data (), data.size ());
    return 0;
}

bool FS::slurp (const std::string &p, std::string *out) const
{
    ino_num i;
    if (lookup (p, true, &i) < 0) return false;
    const Inode *x = get (i);
    if (! x->isreg ()) return false;
    *out = x->data;
    return true;
}

std::vector<std::string> FS::list (const std::string &p) const
{
    std::vector<std::string> v;
    ino_num i;
    if (lookup (p, true, &i) < 0) return v;
    for (auto &e : get (i)->ents) v.push_back (e.first);
    return v;
}

void FS::walk (const std::string &p, const std::function<void(const std::string &, const Inode &)> &f) const
{
    ino_num i;
    if (lookup (p, false, &i) < 0) return;
    const Inode *x = get (i);
    f (p, *x);
    if (x->isdir ())
	for (auto &e : x->ents) walk (p == "/" ? "/" + e.first : p + "/" + e.first, f);
}

int FS::mkdirs (const std::string &p)
{
    for (size_t q = 1; q <= p.size (); q++)
	if (q == p.size () || p[q] == '/') {
	    int r = mkdir (p.substr (0, q), 0755);
	    if (r < 0 && r != -EEXIST) return r;
	}
    return 0;
}

}
