// Workloads with several notmuch processes at once: P13 (writers), P14 (readers).
#include "model.h"
#include "target.h"
#include <algorithm>
#include <cstring>

namespace sim {

static bool is_digits (const std::string &s) { return ! s.empty () && s.find_first_not_of ("0123456789") == std::string::npos; }

// delivered files carry the time and the process: name them by their contents
static std::string norm_file (Exec &x, const std::string &f)
{
    size_t s = f.rfind ('/');
    std::string d = s == std::string::npos ? "" : f.substr (0, s + 1), b = s == std::string::npos ? f : f.substr (s + 1);
    size_t k = b.find (".M");
    if (k == std::string::npos || b.find (".simhost") == std::string::npos || ! is_digits (b.substr (0, k))) return f;
    std::string data;
    if (! x.w.fs.slurp (x.root + "/" + f, &data)) data = "?";
    size_t fl = b.find (":2,");
    return d + fmt ("delivered-%llx", (unsigned long long) fnv (data)) + (fl == std::string::npos ? "" : b.substr (fl));
}

struct Pic { Model m; std::string threads; std::map<std::string, std::string> config; std::map<std::string, std::string> tree; std::string uuid; };

static Pic picture (Exec &x, const NmState &s)
{
    Pic p;
    p.m = model_of (s);
    for (auto &q : p.m) {
	SS n;
	for (auto &f : q.second.files) n.insert (norm_file (x, f));
	q.second.files = n;
    }
    p.threads = thread_key (s);
    p.config = s.config;
    for (auto &f : all_files (x.w.fs, x.root)) p.tree[norm_file (x, f.first)] = f.second;
    p.uuid = s.uuid;
    return p;
}

static std::string pic_diff (const Pic &want, const Pic &got, bool tree)
{
    std::string d = tags_differ (want.m, got.m);
    if (! d.empty ()) return d;
    for (auto &m : want.m)
	if (m.second.files != got.m.at (m.first).files) return "message " + m.first + " has files {" + join (got.m.at (m.first).files) + "} instead of {" + join (m.second.files) + "}";
    if (want.threads != got.threads) return "threads are " + got.threads + " instead of " + want.threads;
    for (auto &c : want.config) { auto i = got.config.find (c.first); if (i == got.config.end () || i->second != c.second) return "configuration " + c.first + " is '" + (i == got.config.end () ? "" : i->second) + "' instead of '" + c.second + "'"; }
    for (auto &c : got.config) if (! want.config.count (c.first)) return "unexpected configuration " + c.first;
    if (tree) {
	for (auto &f : want.tree) { auto i = got.tree.find (f.first); if (i == got.tree.end ()) return "the mail file " + f.first + " is missing"; if (i->second != f.second) return "the mail file " + f.first + " has other contents"; }
	for (auto &f : got.tree) if (! want.tree.count (f.first)) return "unexpected mail file " + f.first;
    }
    return "";
}

Op writer_op (Gen &g, bool compact)
{
    Rng &r = g.r;
    Op o;
    int k = r.below (100);
    if (k < 30) o = real_op (gen_tagq (g));
    else if (k < 45) o = real_op (gen_batch (g, false));
    else if (k < 57) {
	o = Op ("run", { "restore" });
	if (r.pct (30)) o.a.push_back ("--accumulate");
	o.in = rdump (g, true);
	if (r.pct (40)) for (int i = r.range (1, 8); i > 0; i--) o.chunks.push_back (r.range (1, 80));
    } else if (k < 70) o = new_op (r);
    else if (k < 82) {
	o = Op ("run", { "insert" });
	std::string nm = r.pct (30) ? g.copy_def (r.of (g.names)) : g.msg (r.pct (50) ? VS{ g.anymid () } : VS ());
	if (r.pct (40)) o.a.push_back ("--folder=" + r.of (g.dirs));
	if (r.pct (40)) o.a.push_back ("+" + g.anytag ());
	for (auto &q : g.p.ops) if (q.verb == "msg" && q.a[0] == nm) o.in = q.a[2];
    } else if (k < 90) o = Op ("run", { "reindex", "--", rquery (g, 1).infix () });
    else if (k < 96 || ! compact) o = Op ("run", { "config", "set", "--database", fmt ("query.q%d", r.below (3)), r.of (VS{ "tag:inbox", "a \"b\" % c", "é" }) });
    else o = Op ("run", { "compact", "--quiet" });
    if (o.env.empty () && r.pct (50)) o.env.push_back (fmt ("XAPIAN_FLUSH_THRESHOLD=%d", r.range (1, 3)));
    return o;
}

// messages so long that the tables of the database have several levels
static void big (Gen &g)
{
    for (auto &o : g.p.ops) {
	if (o.verb != "msg" || ! g.r.pct (70)) continue;
	std::string &b = o.a[2];
	for (int i = g.r.range (100, 1200); i > 0; i--) b += fmt (i % 12 ? "w%d " : "w%d\n", g.r.below (6000));
	b += "\n";
    }
}

// a slow machine: the process gets stuck for a while
void stall (Rng &r, Op &o, int lo, int hi)
{
    Fault f;
    f.at = r.range (lo, hi);
    f.kind = F_STALL;
    f.arg = r.range (50, 3000);
    o.faults.push_back (f);
}

// a moment worth starting at
std::string moment (Rng &r, bool compact)
{
    static const VS m = { "rename|0|*iamglass", "rename|1|*iamglass", "rename|2|*iamglass", "rename|5|*iamglass", "openw|0|*flintlock", "openw|1|*flintlock", "lock|0|*flintlock", "lock|1|*flintlock",
			  "fsync|0|*/xapian/", "write|3|*/xapian/", "rename|0|*/cur/", "link|0|*/new/", "rename|0|*/new/" };
    static const VS c = { "rename|0|*/xapian -> ", "rename|0|*.compact -> ", "rename|0|*/xapian -> ", "rename|0|*.compact -> ", "unlink|0|*/xapian.old/", "unlink|3|*/xapian.old/", "write|2|*xapian.compact/" };
    return compact && r.pct (70) ? r.of (c) : r.of (m);
}

// ---------------------------------------------------------------- P13
struct P13 : Workload {
    P13 () { prop = "P13"; }
    Plan gen (Rng &r, int tier) override
    {
	Plan p;
	p.prop = prop;
	p.kind = "writers";
	Gen g (r, p);
	bool dies = r.pct (30);
	Conf c = rconf (r);
	if (dies) c.sync = false; // it would rename files
	g.start (c);
	initial (g, 2, 6);
	if (r.pct (20)) big (g);
	g.adv ();
	p.ops.push_back (new_op (r));
	tagging (g, r.below (4));
	if (r.pct (60)) {
	    p.add ("adv", { "2500000000" });
	    for (int i = r.range (1, 4); i > 0; i--) g.mutate ();
	}
	p.add ("adv", { "2500000000" });
	Op par ("par", {});
	int n = r.of (std::vector<int>{ 2, 2, 3, 3, 4 });
	bool compact = r.pct (25);
	for (int i = 0; i < n; i++) par.sub.push_back (writer_op (g, compact));
	if (compact && r.pct (60)) { par.sub[0] = Op ("run", { "compact", "--quiet" }); }
	if (dies) { // one that dies on the way, changing a tag nobody else does
	    Op o ("run", { "tag", "+zz", "*" });
	    Fault f;
	    f.at = r.range (20, 200);
	    f.kind = r.of (std::vector<FaultKind>{ F_KILL, F_KILL, F_ERR, F_STICKY });
	    f.arg = f.kind == F_KILL ? 9 : f.kind == F_STICKY ? ENOSPC : 0;
	    o.faults.push_back (f);
	    o.env.push_back (fmt ("XAPIAN_FLUSH_THRESHOLD=%d", r.range (1, 3)));
	    par.sub.insert (par.sub.begin () + r.below (par.sub.size () + 1), o);
	}
	for (auto &s : par.sub) {
	    if (r.pct (25)) stall (r, s, 1, 150);
	    int k = r.below (100);
	    if (k < 30) s.delay = r.range (1, 600);
	    else if (k < 55) s.await = moment (r, compact);
	}
	par.sched.seed = r.next () % 1000000;
	par.sched.pct = r.of (std::vector<int>{ 1, 3, 10, 30 });
	p.ops.push_back (par);
	return p;
    }
    bool masked (const Op &s) { for (auto &f : s.faults) if (f.kind != F_STALL) return true; return false; }
    Pic mask (Pic p, bool sync)
    {
	for (auto &m : p.m) { m.second.tags.erase ("zz"); }
	(void) sync;
	return p;
    }
    void exec (Exec &x, Plan &p) override
    {
	x.begin ();
	x.plan = &p;
	for (auto &o : p.ops) {
	    if (o.verb != "par") { x.apply (o); continue; }
	    x.w.fs.sync_all ();
	    Snap s0 = x.snap ();
	    bool waited = false; // somebody waits for the lock of the database that compact replaces
	    x.w.after_step = [&](Node *, Sys k, const std::string &path) {
		if (k != S_RENAME || path.find (".compact -> ") == std::string::npos) return;
		for (auto &n : x.w.nodes) if (n->st == Node::LOCKW) waited = true;
	    };
	    NmState S0 = x.observe (NM_RAW);
	    auto rs = x.par (o);
	    x.w.after_step = nullptr;
	    x.stats->add ("runs");
	    if (waited) x.stats->add ("chk.compact_with_waiter");
	    std::string cmds;
	    for (size_t i = 0; i < rs.size (); i++) cmds += (i ? "; " : "") + join (o.sub[i].a) + " (" + rs[i].str () + ")";
	    for (size_t i = 0; i < rs.size (); i++)
		if (died (rs[i])) { x.fail ("crash", "notmuch " + join (o.sub[i].a) + " " + rs[i].str () + " " + rs[i].err + " in: " + cmds); return; }
	    NmState S = x.observe (NM_RAW | NM_AUDIT);
	    x.stats->states.insert (model_hash (S) ^ x.w.hash);
	    std::string d = problems (S);
	    if (! d.empty ()) { x.fail ("db", d + " after: " + cmds); return; }
	    Pic got = mask (picture (x, S), x.conf.sync);
	    bool faulted = false;
	    std::vector<int> ok;
	    for (size_t i = 0; i < rs.size (); i++) {
		if (masked (o.sub[i])) { faulted = true; continue; }
		if (rs[i].ok ()) { ok.push_back (i); continue; }
		x.stats->add ("chk.failed_command");
		if (rs[i].err.empty ()) { x.fail ("silent", "notmuch " + join (o.sub[i].a) + " " + rs[i].str () + " without a message, in: " + cmds); return; }
	    }
	    // some order that agrees with real time explains the outcome
	    std::vector<int> perm = ok;
	    std::sort (perm.begin (), perm.end (), [&](int a, int b) { return rs[a].end_step < rs[b].end_step; });
	    std::vector<int> first = perm;
	    Snap end = x.snap ();
	    std::string why;
	    bool found = false;
	    std::vector<std::vector<int>> orders = { first };
	    std::sort (perm.begin (), perm.end ());
	    do { if (perm != first) orders.push_back (perm); } while (std::next_permutation (perm.begin (), perm.end ()));
	    int tried = 0;
	    for (auto &ord : orders) {
		bool real = true;
		for (size_t i = 0; i < ord.size (); i++)
		    for (size_t j = i + 1; j < ord.size (); j++)
			if (rs[ord[j]].end_step < rs[ord[i]].start_step) real = false;
		if (! real) continue;
		tried++;
		x.restore (s0);
		bool runs = true;
		for (int i : ord) {
		    Op t = o.sub[i];
		    t.faults.clear ();
		    ProcResult r = x.run (t);
		    if (! r.ok ()) { runs = false; if (why.empty ()) why = "notmuch " + join (o.sub[i].a) + " fails on its own: " + r.str () + " " + r.err; break; }
		}
		if (! runs) continue;
		NmState T = x.observe (NM_RAW);
		// flags of files follow the tags a faulted command changed: it changes none that have flags
		d = pic_diff (mask (picture (x, T), x.conf.sync), got, true);
		if (d.empty ()) { found = true; break; }
		if (why.empty () || ord == first) why = d;
	    }
	    x.restore (end);
	    x.stats->add ("chk.orders_tried", tried);
	    if (! found) { x.fail ("order", "no order explains the outcome of: " + cmds + ". In the order they ended: " + why); return; }
	    if (! faulted && ok.size () == rs.size ()) x.stats->add ("chk.all_succeeded");
	}
    }
};

// ---------------------------------------------------------------- P14
struct P14 : Workload {
    P14 () { prop = "P14"; }
    Plan gen (Rng &r, int tier) override
    {
	Plan p;
	p.prop = prop;
	p.kind = "readers";
	Gen g (r, p);
	Conf c = rconf (r);
	c.sync = false;
	if (r.pct (30)) c.exclude = excl;
	g.start (c);
	bool large = r.pct (50);
	initial (g, 2, large ? 20 : r.pct (30) ? 14 : 6);
	if (large) big (g);
	g.adv ();
	p.ops.push_back (new_op (r));
	tagging (g, r.below (4));
	if (r.pct (60)) {
	    p.add ("adv", { "2500000000" });
	    for (int i = r.range (1, 5); i > 0; i--) g.mutate ();
	}
	p.add ("adv", { "2500000000" });
	Op par ("par", {});
	int nw = r.range (1, 2), nr = r.range (1, 3);
	bool compact = r.pct (15);
	for (int i = 0; i < nw; i++) {
	    Op o = writer_op (g, compact);
	    if (i == 0 && r.pct (50)) { // one that commits again and again
		o = Op ("run", { "tag", "--batch" });
		for (int j = r.range (3, 20); j > 0; j--) o.in += (r.pct (50) ? "+" : "-") + r.of (VS{ "inbox", "unread", "work", "churn" }) + " -- " + r.of (VS{ "*", "*", "tag:inbox", "tag:churn" }) + "\n";
		o.env.push_back ("XAPIAN_FLUSH_THRESHOLD=1");
	    }
	    if (r.pct (60)) { o.env.clear (); o.env.push_back ("XAPIAN_FLUSH_THRESHOLD=1"); }
	    if (r.pct (10)) {
		Fault f;
		f.at = r.range (20, 300);
		f.kind = F_KILL;
		f.arg = 9;
		o.faults.push_back (f);
	    }
	    par.sub.push_back (o);
	}
	for (int i = 0; i < nr; i++) {
	    Op o;
	    do o = reader_op (g); while (o.a[0] == "config" || o.a.size () > 1 && ! o.a[1].compare (0, 9, "--output=/"));
	    if (r.pct (12)) { // many questions through one handle
		o = Op ("run", { "count", "--batch", "--output=" + r.of (VS{ "messages", "threads", "files" }) });
		for (int j = r.range (2, 8); j > 0; j--) { o.in += rquery (g, 1).infix () + "\n"; o.chunks.push_back (r.range (1, 40)); }
	    }
	    if (r.pct (60)) stall (r, o, 10, large ? 200 : 60);
	    int k = r.below (100);
	    if (k < 40) o.delay = r.range (1, large ? 4000 : 1000);
	    else if (k < 70) o.await = moment (r, compact);
	    par.sub.push_back (o);
	}
	par.sched.seed = r.next () % 1000000;
	par.sched.pct = r.of (std::vector<int>{ 3, 10, 30, 50 });
	p.ops.push_back (par);
	return p;
    }
    static bool lines (const Op &o)
    {
	if (o.a[0] == "count" || o.a[0] == "dump") return true;
	if (o.a[0] != "search") return false;
	bool ids = false;
	for (auto &a : o.a) {
	    if (! a.compare (0, 9, "--format=") && a != "--format=text") return false;
	    if (! a.compare (0, 9, "--output=") && a != "--output=summary") ids = true;
	}
	return ids;
    }
    // the parts an output consists of: lines if each speaks of one message, or else words
    static void atoms_of (const std::string &out, bool lines, SS &to)
    {
	std::string cur;
	for (char c : out + "\n") {
	    bool sep = lines ? c == '\n' || ! c : ! isalnum ((unsigned char) c);
	    if (! sep) { cur += c; continue; }
	    bool num = cur.find_first_not_of ("0123456789") == std::string::npos;
	    if (! cur.empty () && (lines || ! num)) to.insert (cur);
	    cur.clear ();
	}
    }
    static bool reads (const Op &o)
    {
	static const SS w = { "tag", "restore", "new", "insert", "reindex", "config", "compact" };
	return ! w.count (o.a[0]);
    }
    void exec (Exec &x, Plan &p) override
    {
	x.begin ();
	x.plan = &p;
	for (auto &o : p.ops) {
	    if (o.verb != "par") { x.apply (o); continue; }
	    x.w.fs.sync_all ();
	    struct Commit { uint64_t step; FS fs; };
	    std::vector<Commit> commits;
	    commits.push_back ({ 0, x.w.fs });
	    Snap s0 = x.snap ();
	    std::string locks;
	    std::vector<bool> rd;
	    for (auto &s : o.sub) rd.push_back (reads (s) && s.a[0] != "dump");
	    x.w.after_step = [&](Node *n, Sys k, const std::string &path) {
		if (k != S_RENAME || path.find ("/.notmuch/xapian") == std::string::npos) return;
		commits.push_back ({ x.w.gstep, x.w.fs });
	    };
	    std::map<int, int> opens; // how often each process looks for the current revision
	    x.w.on_step = [&](Node *n, Sys k, const std::string &path) {
		if (! n->quiet && k == S_OPEN && path.size () > 9 && ! path.compare (path.size () - 9, 9, "/iamglass")) opens[n->idx]++;
		if (n->quiet || n->idx >= (int) rd.size () || ! rd[n->idx] || ! locks.empty ()) return;
		if ((mutating (k) || k == S_OPENW || k == S_LOCK) && path.compare (0, x.root.size (), x.root) == 0) locks = join (o.sub[n->idx].a) + " does " + sys_name[k] + " " + path;
	    };
	    auto rs = x.par (o);
	    x.w.after_step = nullptr;
	    std::map<int, int> seen = opens;
	    x.w.on_step = [&](Node *n, Sys k, const std::string &path) {
		if (! n->quiet && k == S_OPEN && path.size () > 9 && ! path.compare (path.size () - 9, 9, "/iamglass")) opens[0]++;
	    };
	    x.stats->add ("runs");
	    x.stats->add ("chk.commits_seen", commits.size ());
	    std::string cmds;
	    for (size_t i = 0; i < rs.size (); i++) cmds += (i ? "; " : "") + join (o.sub[i].a) + " (" + rs[i].str () + ")";
	    for (size_t i = 0; i < rs.size (); i++)
		if (died (rs[i])) { x.fail ("crash", "notmuch " + join (o.sub[i].a) + " " + rs[i].str () + " " + rs[i].err + " in: " + cmds); return; }
	    if (! locks.empty ()) { x.fail ("blocks", locks); return; }
	    Snap end = x.snap ();
	    uint64_t h = x.w.hash;
	    for (size_t i = 0; i < rs.size (); i++) {
		if (! reads (o.sub[i])) continue;
		const ProcResult &r = rs[i];
		std::string what = "notmuch " + join (o.sub[i].a);
		size_t last = 0, best = 0;
		for (size_t k = 0; k < commits.size (); k++) if (commits[k].step <= r.start_step) last = k;
		bool over = last + 1 < commits.size () && commits[last + 1].step <= r.end_step;
		if (! r.ok ()) {
		    x.stats->add ("chk.reader_failed");
		    if (! over) { // nothing changed meanwhile: writers at work are no excuse
			x.restore (s0);
			x.w.fs = commits[last].fs;
			for (auto &q : x.w.fs.in) q.second.opens = 0;
			Op t = o.sub[i];
			t.faults.clear ();
			ProcResult q = x.run (t);
			if (q.ok ()) { x.fail ("unavailable", what + " " + r.str () + " " + r.err + " although nothing is committed while it runs, in: " + cmds); return; }
			x.stats->add ("chk.reader_failed_alone_too");
		    }
		    if (r.err.empty ()) { x.fail ("silent", what + " " + r.str () + " without a message, in: " + cmds); return; }
		    continue;
		}
		x.stats->add ("chk.reader_ok");
		bool found = false;
		int tried = 0;
		std::string one;
		SS atoms;
		bool again = false, empty = false;
		for (size_t k = last; k < commits.size () && ! found; k++) {
		    if (commits[k].step > r.end_step) break;
		    x.restore (s0);
		    x.w.fs = commits[k].fs;
		    for (auto &q : x.w.fs.in) q.second.opens = 0;
		    Op t = o.sub[i];
		    t.faults.clear ();
		    opens.clear ();
		    ProcResult q = x.run (t);
		    tried++;
		    if (opens[0] < seen[i]) again = true;
		    if (q.ok ()) atoms_of (q.out, lines (t), atoms);
		    if (q.out.empty ()) empty = true;
		    if (q.ok () && q.out == r.out) found = true;
		    else { // the most similar output
			size_t e = 0;
			while (e < q.out.size () && e < r.out.size () && q.out[e] == r.out[e]) e++;
			if (one.empty () || e > best) { best = e; size_t b = e > 60 ? e - 60 : 0; one = "'" + r.out.substr (b, 160) + "' instead of '" + q.out.substr (b, 160) + "' at best"; }
		    }
		}
		x.stats->add ("chk.states_compared", tried);
		if (! found && again) { // it found its revision gone and went on with a later one, message by message
		    SS mine;
		    atoms_of (r.out, lines (o.sub[i]), mine);
		    x.stats->add ("chk.reader_moved_on");
		    found = empty || ! r.out.empty ();
		    for (auto &a : mine) if (! atoms.count (a)) { found = false; one = "'" + a + "' which is in no state"; break; }
		}
		if (over) x.stats->add ("chk.reader_overlapped_commits");
		if (! found) {
		    x.fail ("mixed", what + " exits 0 with output of none of the " + fmt ("%d", tried) + " states committed while it ran, in: " + cmds + ". Output: " + r.out.substr (0, 600) + " stderr: " + r.err.substr (0, 300) + " Before: " + one.substr (0, 600));
		    return;
		}
	    }
	    x.w.on_step = nullptr;
	    x.restore (end);
	    x.w.hash = h;
	    NmState S = x.observe (NM_RAW | NM_AUDIT);
	    x.stats->states.insert (model_hash (S) ^ x.w.hash);
	    std::string d = problems (S);
	    if (! d.empty ()) { x.fail ("db", d + " after: " + cmds); return; }
	}
    }
};

static P13 p13;
static P14 p14;

Workload *workload_par (const std::string &prop, const std::string &)
{
    if (prop == "P13") return &p13;
    if (prop == "P14") return &p14;
    return nullptr;
}

}
