// In-memory file system with an explicit durability model.
//
// Live state   : what a running process sees (page cache).  A process kill keeps it.
// Durable state: what survives a power loss.
//   * names     : all directory changes form one totally ordered journal.  fsync(directory)
//                 commits the whole journal; fsync/fdatasync(file in D) commits the journal up to
//                 and including the last rename in D.  At power loss any longer prefix may be kept.
//   * contents  : a file's bytes are durable up to its last fsync/fdatasync; each later write with
//                 an age older than the cut may be kept, lost or torn (512-byte sectors).
#pragma once
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <sys/stat.h>
#include <vector>

namespace sim {

typedef uint64_t ino_num;

struct DataWrite { // one write (or truncate) that no fsync has covered yet
    uint64_t seq;
    bool trunc;
    uint64_t off; // offset, or new size for truncate
    std::string bytes;
};

struct Inode {
    ino_num ino = 0;
    mode_t mode = 0;
    std::string data; // file bytes or symlink target
    std::map<std::string, ino_num> ents;
    ino_num parent = 0; // directories only
    int64_t mtime = 0;  // ns
    int nlink = 0;
    int opens = 0;
    // durable side
    std::string ddata;
    std::vector<DataWrite> pend;
    std::map<std::string, ino_num> dents;
    int64_t dmtime = 0;
    uint64_t last_rename = 0; // journal seq of last rename into/out of this directory
    bool isdir () const { return S_ISDIR (mode); }
    bool isreg () const { return S_ISREG (mode); }
    bool islnk () const { return S_ISLNK (mode); }
};

struct Mut { ino_num dir; std::string name; ino_num nw; int64_t mtime; };
struct JOp { uint64_t seq; std::vector<Mut> muts; };

struct PowerSpec {
    int keep_pct = 0;    // share of the uncommitted journal that is kept (prefix)
    int data_mode = 0;   // 0: un-synced data lost  1: kept (up to cut)  2: random subset, torn
    uint64_t seed = 1;
};

struct Lock { int fdkey; };

class FS {
public:
    std::map<ino_num, Inode> in;
    ino_num next_ino = 2;
    uint64_t seq = 1;
    std::deque<JOp> journal;
    int64_t now = 0; // set by the world before each call
    bool plain_nlink = false;
    bool strict = false; // names are durable only after fsync of their own directory (as POSIX promises, no more)
    bool track = true; // keep durability data

    FS ();
    void reset ();
    // All return 0 / positive or -errno.
    // path resolution; abs path required
    int lookup (const std::string &path, bool follow, ino_num *out, ino_num *dir = nullptr,
		std::string *last = nullptr, int depth = 0) const;
    std::string realpath (const std::string &path, int *err) const;
    int create (const std::string &path, mode_t mode, ino_num *out, bool excl);
    int mkdir (const std::string &path, mode_t mode);
    int rmdir (const std::string &path);
    int unlink (const std::string &path);
    int rename (const std::string &a, const std::string &b);
    int exchange (const std::string &a, const std::string &b);
    int link (const std::string &a, const std::string &b);
    int symlink (const std::string &target, const std::string &path);
    void write (ino_num i, uint64_t off, const char *buf, size_t n);
    void truncate (ino_num i, uint64_t size);
    void sync_file (ino_num i, ino_num dir);
    void sync_dir (ino_num i);
    void sync_all ();
    void power_loss (const PowerSpec &);
    void gc ();
    Inode *get (ino_num i) { auto it = in.find (i); return it == in.end () ? nullptr : &it->second; }
    const Inode *get (ino_num i) const { auto it = in.find (i); return it == in.end () ? nullptr : &it->second; }
    void fill_stat (ino_num i, struct stat *st) const;
    // convenience for scenario code
    bool exists (const std::string &p) const;
    bool isdir (const std::string &p) const;
    int put (const std::string &p, const std::string &data, mode_t mode = 0600); // create/replace
    bool slurp (const std::string &p, std::string *out) const;
    std::vector<std::string> list (const std::string &p) const;
    void walk (const std::string &p, const std::function<void(const std::string &, const Inode &)> &f) const;
    int mkdirs (const std::string &p);

private:
    void log (std::vector<Mut> m, bool is_rename);
    void commit_upto (uint64_t s);
    void unref (ino_num i);
};

}
