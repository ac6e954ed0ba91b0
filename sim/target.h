// Workloads of the shape: prefix of quiet operations; one target operation; faulted variants of it.
#pragma once
#include "core.h"

namespace sim {

struct Ctx {
    Snap s0;                  // machine before the target
    NmState S0, S1;           // database before; after the target without faults
    Model M0, M1;
    Snap s1;                  // machine after the target without faults
    ProcResult dry;
    std::map<std::string, std::string> files0; // every mail file's bytes before
};

struct TargetWorkload : Workload {
    int budget_quick = 60, budget_thorough = 400;
    bool need_dry = true;
    virtual FaultMix mix () { return FaultMix (); }
    virtual bool allow (const StepRec &) { return true; }
    // fault-free check of the target
    virtual void check_dry (Exec &, Plan &, Ctx &) {}
    // checks after the faulted target; the world is as the target left it
    virtual void check (Exec &, Plan &, Ctx &, const Op &target, const ProcResult &) = 0;
    virtual void other (Exec &, Plan &, const Op &) {} // operations of the workload's own in the prefix
    virtual bool setup (Exec &, Plan &) { return true; } // hook after the prefix
    int target_index (const Plan &p);
    bool prefix (Exec &x, Plan &p, Ctx &c);
    void variant (Exec &x, Plan &p, Ctx &c);
    void exec (Exec &x, Plan &p) override;
    void explore (Exec &x, Plan &p, Rng &r, int tier, const std::function<bool(const Plan &)> &report) override;
};

// generator pieces
Conf rconf (Rng &r);
void tagging (Gen &g, int n);               // tag and restore commands
void history (Gen &g, int hi);             // a database with some history
void initial (Gen &g, int lo, int hi);      // first deliveries
Op new_op (Rng &r);
Op reader_op (Gen &g);                      // a command that only reads
std::string rdump (Gen &g, bool props);     // a dump file
Op act_of (const Plan &tmp, size_t from, Plan &main); // mail tree changes as another program's calls
std::string idq (const std::string &mid);   // id: query
std::string problems (const NmState &);
bool died (const ProcResult &);              // crashed, hung or deadlocked on its own
// is each message in a state between before and after, as whole-message steps would leave it?
Op writer_op (Gen &g, bool compact);         // a command that writes
void stall (Rng &r, Op &o, int lo, int hi);  // the process gets stuck for a while
std::string moment (Rng &r, bool compact);   // for Op.await
// two databases are the same in everything; revisions: whether revision numbers count
std::string identical (const NmState &want, const NmState &got, bool revisions = true);
void tree_remove (FS &fs, const std::string &path);
std::string gunzip (const std::string &);
std::string between (const NmState &S0, const NmState &S1, const NmState &S, bool flagslack);
}
