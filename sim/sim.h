// Deterministic simulator: nodes (fibers running real notmuch code), scheduler, clock, faults.
#pragma once
#include "simfs.h"
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <set>
#include <sys/time.h>
#include <ucontext.h>

namespace sim {

enum Sys : uint8_t {
    S_OPEN, S_CREATE, S_OPENW, S_READ, S_WRITE, S_FSYNC, S_CLOSE, S_CLOSEW, S_RENAME, S_UNLINK, S_MKDIR,
    S_RMDIR, S_SCAN, S_STAT, S_ACCESS, S_TRUNC, S_LOCK, S_READLINK, S_FORK, S_EXEC, S_WAIT, S_SLEEP,
    S_LINK, S_MISC, S_NSYS
};
extern const char *sys_name[];
int sys_by_name (const std::string &);
int natural_errno (Sys k, uint64_t n);

enum FaultKind : uint8_t { F_NONE, F_KILL, F_POWER, F_ERR, F_SHORT, F_SIGINT, F_CLOCK, F_STICKY, F_STALL, F_NK };
extern const char *fault_name[];

struct Fault {
    int at = 0;              // step ordinal within the node's run (1-based)
    FaultKind kind = F_NONE;
    int64_t arg = 0;         // errno (0: one that fits the call) / short length / clock delta ns
    PowerSpec power;
    std::string str () const;
    static bool parse (const std::string &, Fault *);
};

struct StepRec { Sys kind; std::string path; uint32_t len; };

struct OFD { // open file description
    ino_num ino = 0, dir = 0;
    std::string path;
    int flags = 0;
    uint64_t off = 0;
    bool locked = false;
    int kind = 0; // 0 file, 1 input stream, 2 output sink
    std::string *sink = nullptr;
    // input stream
    std::string input;
    std::vector<int> chunks;
    size_t ci = 0;
    bool wrote = false;
    ~OFD ();
};
typedef std::shared_ptr<OFD> OFDp;

enum How : uint8_t { H_NONE, H_EXITED, H_KILLED, H_SIGNALED, H_POWER, H_HANG, H_DEADLOCK };
extern const char *how_name[];

struct ProcSpec {
    std::string name;
    std::vector<std::string> argv;            // run as the notmuch command line tool
    std::function<int()> fn;                  // or: an actor
    bool lib = false;                         // actor calls into a notmuch library image
    std::string input;
    std::vector<int> chunks;                  // sizes returned by successive reads of stdin
    std::vector<Fault> faults;
    std::vector<std::string> env;             // additional NAME=VALUE
    int pid = 0;                              // forced process id
    bool record = false;
    int await_sys = -1;                       // starts when another is about to make this call on this path (*: part of it)
    std::string await_path;
    int await_skip = 0;
    int start_delay = 0;                      // wait until this many global steps of the phase
};

struct ProcResult {
    How how = H_NONE;
    int code = 0;          // exit status or signal
    std::string out, err;
    std::vector<StepRec> trace;
    int steps = 0;
    int fired = 0;         // faults that took effect
    uint64_t start_step = 0, end_step = 0;
    bool ok () const { return how == H_EXITED && code == 0; }
    std::string str () const;
};

struct SchedSpec {
    bool explicit_ = false;
    uint64_t seed = 1;
    int pct = 10;                              // preemption probability per step (percent)
    std::map<uint64_t, int> sw;                // explicit: step*16+k -> node index
};

struct Slot {
    void *handle = nullptr;
    int (*cli_main) (int, char **) = nullptr;
    std::vector<std::pair<char *, size_t>> segs;
    std::vector<std::string> pristine;
    char *lo = nullptr, *hi = nullptr;
    bool busy = false;
    void *sym (const char *n);
};

struct Node {
    int idx = 0;
    std::string name;
    ProcSpec spec;
    ProcResult res;
    ucontext_t ctx;
    char *stack = nullptr;
    Slot *slot = nullptr;
    std::vector<OFDp> fds;
    FILE *f_in = nullptr, *f_out = nullptr, *f_err = nullptr;
    std::map<FILE *, int> files;
    char **env = nullptr;
    std::vector<std::string> envstore;
    std::string cwd = "/sim/home";
    int pid = 0;
    struct sigaction sa[65];
    uint64_t sigpend = 0;
    int64_t timer_at = 0, timer_iv = 0;
    enum St { RUN, LOCKW, CHILDW, SLEEPW, DONE } st = RUN;
    int64_t wake = 0;
    int awsys = -1;        // asleep until another node is about to make this call on awpath
    std::string awpath;
    int awskip = 0;
    bool awedge = false;   // the clock then jumps to the next full second
    ino_num lockino = 0;
    OFD *lockofd = nullptr;
    int waitpid = 0;
    int saved_errno = 0;
    char eh[16] = { 0 };
    std::map<std::string, int> badread; // files whose reads fail from now on
    int sticky = 0;        // errno returned by every write-like call from now on
    bool started = false;
    bool quiet = false;    // observer: no steps, no faults
    unsigned umask_ = 022;
    // fork emulation
    bool in_child = false;
    ucontext_t forkctx;
    ucontext_t *entry = nullptr;
    bool resume_fork = false;
    int fork_ret = 0;
    std::vector<OFDp> fork_fds;
    std::string stackcopy;
    char *stack_lo = nullptr;
    std::vector<int> children; // node indexes of finished or running children
    std::map<int, int> zombies; // pid -> wait status
    int parent = -1;
    int hook_runs = 0;
};

struct Escape { std::string what; };

class World {
public:
    FS fs;
    int64_t clock = 0;              // ns since the epoch
    int64_t tick = 20000;           // ns per step
    uint64_t gstep = 0;
    int64_t trace_off = -1;
    std::vector<std::unique_ptr<Node>> nodes;
    Node *cur = nullptr;
    ucontext_t main_ctx;
    uint64_t schedrng = 1;
    SchedSpec sched;
    std::map<uint64_t, int> switches; // recorded decisions
    bool powerlost = false;
    PowerSpec power;
    uint64_t rng = 12345;
    int next_pid = 4000;
    std::vector<std::string> escapes;
    uint64_t hash = 1469598103934665603ULL;   // running hash of every step of every node
    uint64_t fault_count[F_NK] = { 0 };
    uint64_t fault_sys[S_NSYS] = { 0 };
    std::map<int, uint64_t> errno_count;
    int64_t clock_total = 0;
    uint64_t total_steps = 0, total_switches = 0;
    bool db_read_errors = false;
    bool no_exchange = false;       // the file system cannot exchange two names
    int max_steps = 400000;
    std::map<std::string, std::string> base_env;
    std::string hostname = "simhost";
    // called for exec of a path inside the simulation; returns a spec for the program
    std::function<bool(Node *, const std::string &path, const std::vector<std::string> &argv, ProcSpec *)> exec_hook;
    std::function<void(Node *, Sys, const std::string &)> on_step; // invariant hook, before the call
    std::function<void(Node *, Sys, const std::string &)> after_step;

    World ();
    void reset ();
    std::vector<ProcResult> run (std::vector<ProcSpec> specs, const SchedSpec &s = SchedSpec ());
    ProcResult run1 (const ProcSpec &s);
    // run library code without steps or faults
    void quiet (const std::function<void(Slot *)> &f);

    // --- used by the interposers
    void step (Sys k, const std::string &path, uint32_t len, int *err, int64_t *shortn);
    [[noreturn]] void leave (How how, int code);
    void park (Node::St st);
    void yield_to (Node *n);
    void deliver_signals ();
    int newfd (OFDp o);
    void close_all (Node *n);
    Node *pick (bool forced);
    void mixhash (uint64_t v) { hash = (hash ^ v) * 1099511628211ULL; }
    uint64_t rnd ();
    int lock_try (OFD *o);
    Node *spawn (const ProcSpec &s, int parent, char **parent_env = nullptr);
    void finish (Node *n);
    std::vector<Node *> live ();
    void kill_node (Node *n);
};

extern World *W;
inline bool in_node () { return W && W->cur; }
void load_slots (const std::string &libpath, int n, const std::string &tmpdir);
extern std::vector<Slot> slots;
uint64_t fnv (const std::string &s, uint64_t h = 1469598103934665603ULL);

// system calls for actors (they are steps of the current node)
int a_put (const std::string &path, const std::string &data);             // write tmp + rename-like delivery
int a_rename (const std::string &a, const std::string &b);
std::vector<std::string> a_list (const std::string &dir);
int a_unlink (const std::string &a);
int a_mkdir (const std::string &a);
int a_rmdir (const std::string &a);

}
