#include "target.h"
#include <algorithm>

namespace sim {

std::string problems (const NmState &s)
{
    if (s.status) return fmt ("database does not open: status %d %s", s.status, s.err.c_str ());
    return s.problems.empty () ? "" : s.problems[0];
}

bool died (const ProcResult &r)
{
    return r.how == H_HANG || r.how == H_DEADLOCK || (r.how == H_SIGNALED && r.code != 2 && r.code != 15);
}

std::string idq (const std::string &m)
{
    std::string q;
    for (char c : m) { if (c == '"') q += '"'; q += c; }
    return "id:\"" + q + "\"";
}

int TargetWorkload::target_index (const Plan &p)
{
    for (size_t i = 0; i < p.ops.size (); i++) if (p.ops[i].verb == "target") return i + 1;
    return -1;
}

bool TargetWorkload::prefix (Exec &x, Plan &p, Ctx &c)
{
    x.begin ();
    x.plan = &p;
    int t = target_index (p);
    if (t < 0 || t >= (int) p.ops.size ()) return false;
    for (int i = 0; i < t - 1; i++) if (! x.apply (p.ops[i])) other (x, p, Op (p.ops[i]));
    if (! setup (x, p)) return false;
    x.w.fs.sync_all ();
    c.S0 = x.observe ();
    c.M0 = model_of (c.S0);
    c.s0 = x.snap ();
    x.say ("---- state before the target\n" + state_str (c.M0));
    if (need_dry) {
	Op o = p.ops[t];
	o.faults.clear ();
	c.dry = x.run (o, true);
	c.S1 = x.observe (NM_RAW | NM_AUDIT);
	c.M1 = model_of (c.S1);
	c.s1 = x.snap ();
	x.say ("---- state after the target without faults\n" + state_str (c.M1));
	check_dry (x, p, c);
	x.restore (c.s0);
    }
    return true;
}

void TargetWorkload::variant (Exec &x, Plan &p, Ctx &c)
{
    int t = target_index (p);
    Op &o = p.ops[t];
    if (x.about) x.about (p);
    x.say ("---- faulted target");
    uint64_t h0 = x.w.hash;
    x.w.hash = 1469598103934665603ULL;
    ProcResult r = x.run (o);
    x.stats->add ("runs");
    if (r.fired) x.stats->add ("runs_with_fault");
    check (x, p, c, o, r);
    x.stats->states.insert (x.statehash ? x.statehash : x.w.hash);
    x.statehash = 0;
    x.w.hash ^= h0 * 31;
}

void TargetWorkload::exec (Exec &x, Plan &p)
{
    Ctx c;
    if (! prefix (x, p, c)) return;
    if (x.failed () || ! x.knownhit.empty ()) return;
    if (! p.ops[target_index (p)].faults.empty () || ! need_dry) variant (x, p, c);
}

void TargetWorkload::explore (Exec &x, Plan &p, Rng &r, int tier, const std::function<bool(const Plan &)> &report)
{
    Ctx c;
    if (x.about) x.about (p);
    if (! prefix (x, p, c)) return;
    if (x.failed ()) { report (p); return; }
    if (! x.knownhit.empty ()) return;
    int t = target_index (p);
    auto sets = fault_sets (c.dry.trace, mix (), r, tier ? budget_thorough : budget_quick, [&](const StepRec &s) { return allow (s); });
    for (auto &fs : sets) {
	p.ops[t].faults = fs;
	x.restore (c.s0);
	x.viols.clear ();
	x.knownhit.clear ();
	variant (x, p, c);
	if (x.failed () && ! report (p)) return;
    }
    p.ops[t].faults.clear ();
}

void tree_remove (FS &fs, const std::string &p)
{
    if (fs.isdir (p)) {
	for (auto &n : fs.list (p)) tree_remove (fs, p + "/" + n);
	fs.rmdir (p);
    } else fs.unlink (p);
}

std::string identical (const NmState &a, const NmState &b, bool revisions)
{
    std::string d = diff_model (model_of (a), model_of (b));
    if (! d.empty ()) return d;
    for (auto &p : a.msgs) {
	const NmMsg &m = p.second, &n = b.msgs.at (p.first);
	if (m.thread != n.thread) return "message " + p.first + " is in thread " + n.thread + " instead of " + m.thread;
	if (m.from != n.from || m.subject != n.subject || m.date != n.date) return "message " + p.first + " has other headers";
	if (m.fp != n.fp || m.vals != n.vals) return "message " + p.first + " is indexed under other terms";
	if (revisions && m.lastmod != n.lastmod) return fmt ("message %s was last modified at revision %llu instead of %llu", p.first.c_str (), (unsigned long long) n.lastmod, (unsigned long long) m.lastmod);
    }
    if (a.config != b.config) return "the configuration in the database differs";
    if (a.ghosts != b.ghosts) return "the referenced messages not there differ";
    if (a.dirs != b.dirs) return "the directory records differ";
    if (revisions && a.rev != b.rev) return fmt ("the revision is %llu instead of %llu", (unsigned long long) b.rev, (unsigned long long) a.rev);
    if (revisions && a.uuid != b.uuid) return "the database identity changed";
    if (a.version != b.version) return "the database version differs";
    return "";
}

std::string between (const NmState &S0, const NmState &S1, const NmState &S, bool flagslack)
{
    Model a = model_of (S0), b = model_of (S1), m = model_of (S);
    for (auto &p : m) {
	auto i = a.find (p.first), j = b.find (p.first);
	bool ia = i != a.end (), jb = j != b.end ();
	if (! ia && ! jb) return "message " + p.first + " is in neither the state before nor after: " + p.second.str ();
	if (ia && p.second == i->second) continue;
	if (jb && p.second == j->second) continue;
	// partly through several file changes
	SS all;
	if (ia) all.insert (i->second.files.begin (), i->second.files.end ());
	if (jb) all.insert (j->second.files.begin (), j->second.files.end ());
	for (auto &f : p.second.files) if (! all.count (f)) return "message " + p.first + " has the unknown file " + f;
	if (p.second.files.empty ()) return "message " + p.first + " has no file";
	auto same = [&](const MM &x) {
	    if (x.props != p.second.props) return false;
	    if (! flagslack) return x.tags == p.second.tags;
	    return nonflag (x.tags) == nonflag (p.second.tags);
	};
	if (! (ia && same (i->second)) && ! (jb && same (j->second)))
	    return "message " + p.first + " is half changed: " + p.second.str () + "; before: " + (ia ? i->second.str () : "absent") + "; after: " + (jb ? j->second.str () : "absent");
    }
    for (auto &p : a)
	if (! m.count (p.first) && b.count (p.first)) return "message " + p.first + " was lost: " + p.second.str ();
    return "";
}

}
