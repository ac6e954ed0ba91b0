// Plans (replayable test cases), their interpreter, and the reference model shared by the workloads.
#pragma once
#include "nmlib.h"
#include "sim.h"
#include <set>
#include <string>
#include <vector>

namespace sim {

struct Rng {
    uint64_t s;
    explicit Rng (uint64_t seed = 1) : s (seed * 0x9e3779b97f4a7c15ULL + 0x1234567) { next (); }
    uint64_t next ()
    {
	uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
    }
    int below (int n) { return n <= 0 ? 0 : (int) (next () % (uint64_t) n); }
    int range (int a, int b) { return a + below (b - a + 1); }
    bool pct (int p) { return below (100) < p; }
    template<class T> const T &of (const std::vector<T> &v) { return v[below (v.size ())]; }
};

typedef std::set<std::string> SS;
typedef std::vector<std::string> VS;

std::string sha1_hex (const std::string &);
std::string pct_enc (const std::string &);
std::string pct_dec (const std::string &);
VS split (const std::string &s, char c);
std::string join (const SS &s, const char *sep = ",");
std::string join (const VS &s, const char *sep = " ");
std::string fmt (const char *f, ...) __attribute__ ((format (printf, 1, 2)));

// One line of a plan.
struct Op {
    std::string verb;
    VS a;
    std::string in;               // standard input
    std::vector<int> chunks;
    int delay = 0;                // in a par: starts after about so many steps
    std::string await;            // in a par: starts when another is about to make this call: CALL|SKIP|PATH or *PART
    VS env;
    std::vector<Fault> faults;
    std::vector<Op> sub;          // for "par": the nodes
    SchedSpec sched;
    Op () {}
    Op (const std::string &v, const VS &args) : verb (v), a (args) {}
    std::string str () const;
};

struct Plan {
    std::string prop, kind;
    uint64_t seed = 0;
    std::map<std::string, std::string> par;
    std::vector<Op> ops;
    std::string str () const;
    bool parse (const std::string &);
    void add (const std::string &v, const VS &a) { ops.push_back (Op (v, a)); }
    std::string get (const std::string &k, const std::string &d = "") const { auto i = par.find (k); return i == par.end () ? d : i->second; }
    int geti (const std::string &k, int d = 0) const { auto i = par.find (k); return i == par.end () ? d : atoi (i->second.c_str ()); }
};

struct MsgDef {
    std::string name, mid, bytes;  // mid empty: not mail
    SS refs;                       // message ids named in References and In-Reply-To
    SS autotags;                   // tags that indexing gives by itself
};

struct Conf {
    bool sync = true;
    VS newtags = { "unread", "inbox" };
    VS ignore;
    VS exclude = {};
    std::string extra;             // appended to the file
    std::string text () const;
};

// what the model knows of one message
struct MM {
    SS files, tags;
    std::set<std::pair<std::string, std::string>> props;
    bool operator== (const MM &o) const { return files == o.files && tags == o.tags && props == o.props; }
    std::string str () const;
};
typedef std::map<std::string, MM> Model;

Model model_of (const NmState &);
extern const SS flagtags;
SS nonflag (const SS &);
bool has_info (const SS &files, std::string *flags = nullptr);
SS flags_to_tags (const SS &files, SS tags);

struct Snap { FS fs; int64_t clock; uint64_t rng; int next_pid; };

struct Viol { std::string tag, text; };

// Recorded genuine defects: a violation with this tag whose text contains every substring is one of them.
struct Known { std::string id, prop, tag; VS subs; };
extern std::vector<Known> known;

struct Stats {
    std::map<std::string, uint64_t> n;       // named counters
    std::set<uint64_t> states, scheds;        // distinct states / interleavings
    void add (const std::string &k, uint64_t v = 1) { n[k] += v; }
};

class Exec {
public:
    World &w;
    const Plan *plan = nullptr;
    std::map<std::string, MsgDef> defs;       // by name
    std::map<std::string, std::string> bybytes; // contents -> name
    Conf conf;
    std::string root = "/sim/home/mail";
    std::vector<Viol> viols;
    Stats *stats;
    std::string note;                          // trace for replay output
    bool verbose = false;
    SS everrefs;                               // unused
    uint64_t statehash = 0;
    std::function<void(const Plan &)> about;   // told of each plan before it runs
    std::string knownhit;                      // the recorded finding this run met

    Exec (World &w_, Stats *s) : w (w_), stats (s) {}
    void begin ();                              // fresh machine
    bool apply (const Op &op);                  // sequential operations; false: not one
    ProcSpec spec (const Op &op, bool record = false);
    ProcResult run (const Op &op, bool record = false);
    ProcResult cmd (const VS &argv, const std::string &in = "");
    std::vector<ProcResult> par (Op &op, bool record = false); // op.sched is updated with the switches taken
    NmState observe (int flags = NM_RAW);
    NmState observe_fs (const FS &fs, int flags = NM_RAW); // another state of the disk
    Snap snap ();
    void restore (const Snap &);
    void fail (const std::string &tag, const std::string &text);
    bool failed () const { return ! viols.empty (); }
    void say (const std::string &s);

    // model
    bool ignored (const std::string &rel) const;
    std::map<std::string, SS> tree () const;    // message id -> files (relative to the root)
    SS autotags (const std::string &mid) const;
    SS nonmail () const;
    Model scan_model (const Model &before) const;
};

// comparison helpers: return "" or a description of the first difference
std::string diff_model (const Model &want, const Model &got, bool flagstrict = true);
std::string state_str (const Model &);
std::string thread_key (const NmState &);   // partition of messages into threads, printable
uint64_t model_hash (const NmState &);

// ---- workloads
struct Explorer; // forward
struct Workload {
    std::string prop;
    virtual ~Workload () {}
    virtual Plan gen (Rng &r, int tier) = 0;
    // run a plan whose faults and schedules are explicit
    virtual void exec (Exec &x, Plan &p) = 0;
    // explore around a generated plan; default: exec once
    virtual void explore (Exec &x, Plan &p, Rng &r, int tier, const std::function<bool(const Plan &)> &report);
};
Workload *workload (const std::string &prop, const std::string &kind);
std::vector<std::string> kinds (const std::string &prop);

// ---- generators
struct Gen {
    Rng &r;
    Plan &p;
    VS names, mids;                 // message definitions
    std::map<std::string, std::string> files; // path (relative to the root) -> definition name
    VS dirs;                        // maildir folders ("" is the root)
    int nm = 0, nf = 0;
    Gen (Rng &r_, Plan &p_) : r (r_), p (p_) {}
    void start (const Conf &c);
    std::string msg (const VS &refs = {}, const std::string &mid = "", int style = -1); // define a message
    std::string copy_def (const std::string &name); // same message, differing copy of it
    std::string fname (const std::string &dir, bool maildir = true);
    std::string deliver (const std::string &name, const std::string &dir);
    void adv ();
    bool mutate ();                 // one random change of the mail tree
    std::string anyfile () { auto i = files.begin (); std::advance (i, r.below (files.size ())); return i->first; }
    std::string anymid () { return r.of (mids); }
    std::string anytag ();
};
extern const VS plaintags, oddtags;

// faults for a recorded trace
struct FaultMix { bool meta_kept = false, kill = false, power = false, err = false, shortio = false, sig = false, clock = false, sticky = false; };
bool mutating (Sys k);
std::vector<std::vector<Fault>> fault_sets (const std::vector<StepRec> &trace, const FaultMix &m, Rng &r, int budget,
					    const std::function<bool(const StepRec &)> &allow = nullptr);

}
