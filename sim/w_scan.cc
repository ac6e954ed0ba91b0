// Workloads around "notmuch new": P01, P02, P03.
#include "target.h"
#include <algorithm>

namespace sim {

Conf rconf (Rng &r)
{
    Conf c;
    c.sync = r.pct (70);
    static const std::vector<VS> nt = { { "unread", "inbox" }, { "new" }, {}, { "inbox", "a b" }, { "unread" } };
    c.newtags = r.of (nt);
    if (r.pct (20)) c.ignore = { "ignored.txt", "drafts" };
    return c;
}

void tagging (Gen &g, int n)
{
    for (int i = 0; i < n && ! g.mids.empty (); i++) {
	VS a = { "tag" };
	int k = g.r.range (1, 3);
	for (int j = 0; j < k; j++) a.push_back ((g.r.pct (75) ? "+" : "-") + g.anytag ());
	a.push_back ("--");
	if (g.r.pct (25)) a.push_back ("*");
	else a.push_back ("id:\"" + [&]() { std::string m = g.anymid (), q; for (char c : m) { if (c == '"') q += '"'; q += c; } return q; } () + "\"");
	g.p.add ("run", a);
    }
    if (g.r.pct (40) && ! g.mids.empty ()) { // properties, through restore
	std::string m = g.anymid ();
	bool plain = m.find_first_of ("%\"'= ") == std::string::npos;
	if (plain) {
	    Op o ("run", { "restore", "--include=properties", "--accumulate" });
	    o.in = "#notmuch-dump batch-tag:3 properties\n#= " + m + " key=value" + fmt ("%d", g.r.below (5)) + "\n";
	    g.p.ops.push_back (o);
	}
    }
}

void initial (Gen &g, int lo, int hi)
{
    int n = g.r.range (lo, hi);
    for (int i = 0; i < n; i++) {
	VS refs;
	if (! g.mids.empty () && g.r.pct (60)) refs.push_back (g.anymid ());
	if (g.r.pct (10)) refs.push_back (fmt ("absent%d@sim", g.r.below (4)));
	std::string d = g.r.pct (10) ? "plain" : g.r.of (g.dirs);
	std::string nm = g.msg (refs);
	g.deliver (nm, d);
	if (g.r.pct (12)) g.deliver (g.r.pct (50) ? g.copy_def (nm) : nm, g.r.of (g.dirs));
    }
}

Op new_op (Rng &r)
{
    Op o ("run", { "new" });
    if (r.pct (15)) o.a.push_back ("--full-scan");
    if (r.pct (10)) o.a.push_back ("--quiet");
    if (r.pct (50)) o.env.push_back (fmt ("XAPIAN_FLUSH_THRESHOLD=%d", r.range (1, 3)));
    return o;
}

// ---------------------------------------------------------------- P01
struct P01 : TargetWorkload {
    P01 () { prop = "P01"; budget_quick = 40; budget_thorough = 300; }
    FaultMix mix () override { FaultMix m; m.kill = m.power = m.sig = true; return m; }
    Plan gen (Rng &r, int) override
    {
	Plan p;
	p.prop = prop;
	p.kind = "scan";
	Gen g (r, p);
	g.start (rconf (r));
	initial (g, 1, 6);
	g.adv ();
	if (r.pct (85)) {
	    p.ops.push_back (new_op (r));
	    tagging (g, r.below (3));
	    g.adv ();
	}
	int n = r.range (1, 7);
	for (int i = 0; i < n; i++) { g.mutate (); if (r.pct (20)) g.adv (); }
	g.adv ();
	p.add ("target", {});
	p.ops.push_back (new_op (r));
	return p;
    }
    void check_dry (Exec &x, Plan &, Ctx &c) override
    {
	if (! c.dry.ok ()) { x.fail ("undisturbed-run", "an undisturbed scan fails: " + c.dry.str () + " " + c.dry.err); return; }
	std::string d = problems (c.S1);
	if (! d.empty ()) { x.fail ("undisturbed-state", d); return; }
	d = diff_model (x.scan_model (c.M0), c.M1, false);
	if (! d.empty ()) x.fail ("undisturbed-result", d);
    }
    void check (Exec &x, Plan &, Ctx &c, const Op &target, const ProcResult &res) override
    {
	if (res.how == H_HANG || res.how == H_DEADLOCK || (res.how == H_SIGNALED && res.code != 2 && res.code != 15)) {
	    x.fail ("crash", "notmuch new " + res.str () + " " + res.err);
	    return;
	}
	NmState s = x.observe ();
	bool had = c.S0.ok ();
	if (had || s.ok ()) {
	    std::string d = problems (s);
	    if (! d.empty ()) { x.fail ("unusable", "after the interruption: " + d); return; }
	    if (! had) { c.S0.status = 0; }
	    d = between (c.S0, c.S1, s, true);
	    if (! had) c.S0.status = 1;
	    if (! d.empty ()) { x.fail ("partial-state", d); return; }
	    if (had && s.uuid != c.S0.uuid) { x.fail ("identity", "the database identity changed"); return; }
	    if (had && ! s.msgs.empty () && s.rev < c.S0.rev) { x.fail ("revision", "the revision went back"); return; }
	}
	x.statehash = model_hash (s) * 31 + (target.faults.empty () ? 0 : target.faults[0].kind);
	// recovery
	x.w.clock += 2000000000LL;
	ProcResult r2 = x.cmd ({ "new" });
	if (! r2.ok ()) { x.fail (had ? "recovery-fails" : "recovery-fails-create", "running notmuch new again: " + r2.str () + " " + r2.err); return; }
	NmState s2 = x.observe (NM_RAW | NM_AUDIT);
	std::string d = problems (s2);
	if (! d.empty ()) { x.fail ("recovery-state", d); return; }
	Model m2 = model_of (s2);
	d = diff_model (c.M1, m2, false);
	if (! d.empty ()) { x.fail ("recovery-result", "after the second run: " + d); return; }
	// flag tags: exact wherever the files carry flags and synchronisation is on
	for (auto &p : m2)
	    if (x.conf.sync && has_info (p.second.files) && p.second.tags != c.M1[p.first].tags) {
		x.fail ("recovery-tags", "after the second run message " + p.first + " has tags {" + sim::join (p.second.tags) + "}, an unbroken run gives {" + sim::join (c.M1[p.first].tags) + "}");
		return;
	    }
	if (thread_key (s2) != thread_key (c.S1)) { x.fail ("recovery-threads", "threads " + thread_key (s2) + " instead of " + thread_key (c.S1)); return; }
	for (auto &p : s2.msgs) {
	    if (c.S1.msgs[p.first].files.size () > 1 || (had && c.S0.msgs.count (p.first) && c.S0.msgs[p.first].files != p.second.files)) continue;
	    if (p.second.fp != c.S1.msgs[p.first].fp || p.second.vals != c.S1.msgs[p.first].vals) { x.fail ("recovery-index", "search terms of " + p.first + " differ from an unbroken run"); return; }
	}
    }
};

// ---------------------------------------------------------------- P02
// After any scan, broken off or not: every message that was known and still has a file in the tree
// keeps its tags, properties and thread.
static void keeps (Exec &x, const NmState &before, const NmState &after, const ProcResult &res)
{
    auto t = x.tree ();
    Model b = model_of (before), a = model_of (after);
    std::map<std::string, VS> threads;
    for (auto &m : b) {
	auto i = t.find (m.first);
	if (i == t.end ()) continue;
	auto j = a.find (m.first);
	if (j == a.end ()) {
	    bool known = false; // was any of its present files known to the database before?
	    for (auto &f : i->second) if (m.second.files.count (f)) known = true;
	    bool unread = false; // could none of its new names be read?
	    for (auto &f : i->second) if (res.err.find ("Unexpected error with file " + x.root + "/" + f) != std::string::npos) unread = true;
	    x.fail (known ? "forgotten" : unread ? "forgotten-unreadable" : "forgotten-renamed", "message " + m.first + " (" + m.second.str () + ") is gone from the database though the tree has {" + join (i->second) + "}; notmuch new " + res.str () + " " + res.err);
	    return;
	}
	SS want = x.conf.sync ? nonflag (m.second.tags) : m.second.tags, got = x.conf.sync ? nonflag (j->second.tags) : j->second.tags;
	for (auto &at : x.autotags (m.first)) if (got.count (at)) want.insert (at);
	if (want != got) { x.fail ("tags-changed", "message " + m.first + " had tags {" + join (want) + "}, now {" + join (got) + "}"); return; }
	if (m.second.props != j->second.props) { x.fail ("props-changed", "message " + m.first + ": " + m.second.str () + " became " + j->second.str ()); return; }
	threads[before.msgs.at (m.first).thread].push_back (m.first);
    }
    for (auto &p : threads)
	for (auto &m : p.second)
	    if (after.msgs.at (m).thread != after.msgs.at (p.second[0]).thread) { x.fail ("thread-split", "messages " + m + " and " + p.second[0] + " no longer share a thread"); return; }
}

struct P02 : TargetWorkload {
    P02 () { prop = "P02"; budget_quick = 40; budget_thorough = 300; }
    FaultMix mix () override { FaultMix m; m.kill = m.err = m.sig = m.shortio = m.sticky = true; return m; }
    Plan gen (Rng &r, int) override
    {
	Plan p;
	p.prop = prop;
	p.kind = "keep";
	Gen g (r, p);
	g.start (rconf (r));
	initial (g, 2, 6);
	g.adv ();
	p.ops.push_back (new_op (r));
	tagging (g, r.range (1, 4));
	p.add ("adv", { "2500000000" });
	int n = r.range (1, 6);
	for (int i = 0; i < n; i++) g.mutate ();
	if (r.pct (60)) g.adv ();
	p.add ("target", {});
	p.ops.push_back (new_op (r));
	int rounds = r.below (3);
	for (int k = 0; k < rounds; k++) {
	    g.adv ();
	    n = r.range (1, 4);
	    for (int i = 0; i < n; i++) g.mutate ();
	    if (r.pct (30)) tagging (g, 1);
	    g.adv ();
	    Op o = new_op (r);
	    if (r.pct (50)) {
		Fault f;
		f.at = r.range (10, 200);
		f.kind = r.pct (60) ? F_ERR : r.pct (50) ? F_KILL : F_SIGINT;
		f.arg = f.kind == F_ERR ? 0 : f.kind == F_KILL ? 9 : 2;
		o.faults.push_back (f);
	    }
	    p.ops.push_back (o);
	}
	return p;
    }
    void check_dry (Exec &x, Plan &, Ctx &c) override
    {
	if (! c.dry.ok ()) { x.fail ("undisturbed-run", "an undisturbed scan fails: " + c.dry.str () + " " + c.dry.err); return; }
	keeps (x, c.S0, c.S1, c.dry);
	if (x.failed ()) return;
	std::string d = diff_model (x.scan_model (c.M0), c.M1, false);
	if (! d.empty ()) x.fail ("undisturbed-result", d);
    }
    bool scan (Exec &x, NmState &s, const ProcResult &r)
    {
	if (r.how == H_HANG || r.how == H_DEADLOCK || (r.how == H_SIGNALED && r.code != 2 && r.code != 15)) { x.fail ("crash", "notmuch new " + r.str () + " " + r.err); return false; }
	NmState n = x.observe ();
	std::string d = problems (n);
	if (! d.empty ()) { x.fail ("unusable", "after a disturbed scan: " + d); return false; }
	keeps (x, s, n, r);
	s = n;
	return ! x.failed () && x.knownhit.empty ();
    }
    void check (Exec &x, Plan &p, Ctx &c, const Op &target, const ProcResult &res) override
    {
	NmState s = c.S0;
	if (! scan (x, s, res)) return;
	x.statehash = model_hash (s) * 31 + (target.faults.empty () ? 0 : target.faults[0].kind);
	for (size_t i = target_index (p) + 1; i < p.ops.size (); i++) {
	    const Op &o = p.ops[i];
	    if (o.verb == "run" && o.a[0] == "new") {
		ProcResult r = x.run (o);
		if (! scan (x, s, r)) return;
	    } else {
		x.apply (o);
		if (o.verb == "run") s = x.observe ();
	    }
	}
	x.w.clock += 2000000000LL;
	ProcResult r = x.cmd ({ "new" });
	if (! r.ok ()) { x.fail ("final-scan", "an undisturbed scan fails: " + r.str () + " " + r.err); return; }
	NmState s0 = s;
	if (! scan (x, s, r)) return;
	auto t = x.tree ();
	for (auto &m : s.msgs)
	    if (! t.count (m.first)) { x.fail ("remembered", "message " + m.first + " has no file left but is still in the database"); return; }
    }
};

// ---------------------------------------------------------------- P03
Op act_of (const Plan &tmp, size_t from, Plan &main)
{
    Op a ("act", {});
    for (size_t i = from; i < tmp.ops.size (); i++) {
	const Op &o = tmp.ops[i];
	auto item = [&](const VS &v) { VS e; for (auto &s : v) e.push_back (pct_enc (s)); a.a.push_back (join (e)); };
	if (o.verb == "msg") main.ops.push_back (o);
	else if (o.verb == "put") item ({ "put", o.a[0], o.a[1] });
	else if (o.verb == "mv") item ({ "mv", o.a[0], o.a[1] });
	else if (o.verb == "rm") item ({ "rm", o.a[0] });
	else if (o.verb == "mkdir") item ({ "mkdir", o.a[0] });
    }
    return a;
}

struct P03 : Workload {
    P03 () { prop = "P03"; }
    Plan gen (Rng &r, int) override
    {
	Plan p;
	p.prop = prop;
	p.kind = "converge";
	Gen g (r, p);
	g.start (rconf (r));
	static const std::vector<std::string> ticks = { "20000", "1000000", "10000000", "100000000", "400000000" };
	p.par["tick"] = r.of (ticks);
	if (r.pct (25)) p.par["nlink"] = "1";
	initial (g, 1, 6);
	g.adv ();
	bool made = r.pct (80); // faults while the database is created belong to P01
	if (made) p.ops.push_back (new_op (r));
	int rounds = r.range (1, 4);
	for (int k = 0; k < rounds; k++) {
	    int n = r.range (0, 3);
	    for (int i = 0; i < n; i++) { g.mutate (); g.adv (); }
	    Op s = new_op (r);
	    if (made && r.pct (35)) {
		Fault f;
		f.at = r.range (5, 220);
		int q = r.below (10);
		f.kind = q < 6 ? F_ERR : q < 8 ? F_KILL : F_SIGINT;
		f.arg = f.kind == F_ERR ? 0 : f.kind == F_KILL ? 9 : 2;
		s.faults.push_back (f);
	    }
	    if (r.pct (20) && ! g.dirs.empty ()) { // deliveries around the turn of a second
		p.par["tick"] = r.of (std::vector<std::string>{ "3000000", "10000000", "30000000", "100000000" });
		Op par ("par", {}), a ("act", {});
		std::string dir = r.of (g.dirs), sub = r.pct (50) ? "/cur/" : "/new/", f;
		auto item = [&](const VS &v) { VS e; for (auto &q : v) e.push_back (pct_enc (q)); a.a.push_back (join (e)); };
		int n = r.range (1, 3);
		for (int i = 0; i <= n; i++) {
		    std::string nm = g.msg ();
		    do f = "/" + g.fname (dir); while (f.find (sub) == std::string::npos);
		    f = f.substr (1);
		    if (i == 0 && r.pct (60)) item ({ "await", r.of (VS{ "stat", "stat", "scan" }), (dir.empty () ? "" : dir) + (dir.empty () ? sub.substr (1, 3) : sub.substr (0, 4)), fmt ("%d", r.below (3)), r.pct (70) ? "edge" : "" });
		    else if (i == 0 || r.pct (30)) item ({ "edge", fmt ("%d", r.pct (70) ? 0 : r.below (900000000)) });
		    else if (r.pct (80)) item ({ "sleep", fmt ("%d", r.below (600)) });
		    item ({ "put", f, nm });
		    g.files[f] = nm;
		}
		par.sub.push_back (s);
		par.sub.push_back (a);
		par.sched.seed = r.next () % 1000000;
		par.sched.pct = r.of (std::vector<int>{ 1, 3, 10 });
		p.ops.push_back (par);
	    } else if (r.pct (75)) {
		Op par ("par", {});
		int actors = r.range (1, 2);
		VS defs;
		std::vector<Op> acts;
		for (int q = 0; q < actors; q++) {
		    Plan tmp;
		    Gen h (r, tmp);
		    h.names = g.names; h.mids = g.mids; h.files = g.files; h.dirs = g.dirs; h.nm = g.nm; h.nf = g.nf;
		    int m = r.range (1, 4);
		    for (int i = 0; i < m; i++) h.mutate ();
		    // copies of present files become deliveries of the same message
		    for (auto &o : tmp.ops) if (o.verb == "cp") { o.verb = "put"; o.a = { o.a[1], g.files.count (o.a[0]) ? g.files[o.a[0]] : h.files[o.a[1]] }; }
		    bool bad = false;
		    for (auto &o : tmp.ops) if (o.verb == "rmtree") bad = true;
		    if (bad) continue;
		    acts.push_back (act_of (tmp, 0, p));
		    g.names = h.names; g.mids = h.mids; g.files = h.files; g.dirs = h.dirs; g.nm = h.nm; g.nf = h.nf;
		}
		par.sub.push_back (s);
		for (auto &a : acts) par.sub.push_back (a);
		par.sched.seed = r.next () % 1000000;
		par.sched.pct = r.of (std::vector<int>{ 3, 10, 30 });
		p.ops.push_back (par);
	    } else p.ops.push_back (s);
	    if (r.pct (30)) tagging (g, 1);
	    made = true;
	}
	return p;
    }
    void exec (Exec &x, Plan &p) override
    {
	x.begin ();
	x.plan = &p;
	x.w.tick = atoll (p.get ("tick", "20000").c_str ());
	x.w.fs.plain_nlink = p.geti ("nlink");
	int scans = 0;
	for (auto &o : p.ops) {
	    std::vector<ProcResult> rs;
	    if (o.verb == "par") rs = x.par (o);
	    else if (o.verb == "run") rs.push_back (x.run (o));
	    else { x.apply (o); continue; }
	    for (auto &r : rs)
		if (r.how == H_HANG || r.how == H_DEADLOCK || (r.how == H_SIGNALED && r.code != 2 && r.code != 15)) { x.fail ("crash", "a command " + r.str () + " " + r.err); return; }
	    scans++;
	}
	x.w.tick = 20000;
	x.stats->add ("runs", scans);
	x.w.clock += 1000000000LL + (int64_t) (p.seed % 3) * 700000000LL;
	ProcResult r = x.cmd ({ "new" });
	if (! r.ok ()) { x.fail ("final-scan", "an undisturbed scan fails: " + r.str () + " " + r.err); return; }
	NmState s = x.observe (NM_RAW | NM_AUDIT);
	x.stats->states.insert (model_hash (s) ^ x.w.hash);
	std::string d = problems (s);
	if (! d.empty ()) { x.fail ("state", d); return; }
	auto t = x.tree ();
	Model m = model_of (s);
	for (auto &q : t) {
	    if (! m.count (q.first)) { x.fail ("missed", "message " + q.first + " with files {" + join (q.second) + "} is not in the database"); return; }
	    if (m[q.first].files != q.second) { x.fail ("files-differ", "message " + q.first + " has files {" + join (m[q.first].files) + "} in the database, the tree has {" + join (q.second) + "}"); return; }
	}
	for (auto &q : m) if (! t.count (q.first)) { x.fail ("stale", "message " + q.first + " " + q.second.str () + " has no file in the tree"); return; }
	// a further scan finds nothing to do
	x.w.clock += 2000000000LL;
	r = x.cmd ({ "new" });
	NmState s2 = x.observe ();
	if (! r.ok () || ! (model_of (s2) == m)) { x.fail ("not-stable", "a second scan of an unchanged tree changes the database"); return; }
	if (s2.rev != s.rev) x.fail ("not-quiet", "a second scan of an unchanged tree moves the revision");
    }
};

static P01 p01;
static P02 p02;
static P03 p03;

Workload *workload_scan (const std::string &prop, const std::string &)
{
    if (prop == "P01") return &p01;
    if (prop == "P02") return &p02;
    if (prop == "P03") return &p03;
    return nullptr;
}

}
