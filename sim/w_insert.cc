// Workloads around "notmuch insert": P04, P05, P06.
#include "target.h"
#include <algorithm>

namespace sim {

// What insert was asked to do, read off its command line and input.
struct Job {
    std::string folder, bytes, expect, mid; // mid empty: not mail
    bool keep = false;
    VS plus_minus;
};

static Job job_of (Exec &x, const Op &o)
{
    Job j;
    for (size_t i = 1; i < o.a.size (); i++) {
	const std::string &s = o.a[i];
	if (s.compare (0, 9, "--folder=") == 0) j.folder = s.substr (9);
	else if (s == "--keep") j.keep = true;
	else if (s[0] == '+' || (s[0] == '-' && s[1] != '-')) j.plus_minus.push_back (s);
    }
    j.bytes = o.in;
    j.expect = j.bytes.compare (0, 5, "From ") == 0 ? "X-Envelope-From: " + j.bytes.substr (5) : j.bytes;
    auto i = x.bybytes.find (j.expect);
    if (i == x.bybytes.end ()) i = x.bybytes.find (j.bytes);
    if (i != x.bybytes.end ()) j.mid = x.defs[i->second].mid;
    return j;
}

static SS tags_of (Exec &x, const Job &j)
{
    SS t (x.conf.newtags.begin (), x.conf.newtags.end ());
    for (auto &s : j.plus_minus) if (s[0] == '+') t.insert (s.substr (1)); else t.erase (s.substr (1));
    return t;
}

// every file below cur/ and new/ of any folder
static std::map<std::string, std::string> mailfiles (const FS &fs, const std::string &root)
{
    std::map<std::string, std::string> r;
    fs.walk (root, [&](const std::string &p, const Inode &i) {
	if (! i.isreg () || p.find ("/.notmuch/") != std::string::npos) return;
	size_t k = p.rfind ('/'), j = p.rfind ('/', k - 1);
	std::string d = p.substr (j + 1, k - j - 1);
	if (d == "new" || d == "cur") r[p.substr (root.size () + 1)] = i.data;
    });
    return r;
}

static VS pm_tags (Rng &r)
{
    VS v;
    int n = r.below (4);
    for (int i = 0; i < n; i++) {
	std::string t = r.pct (80) ? r.of (plaintags) : r.of (oddtags);
	if (r.pct (30) && t[0] != '-') v.push_back ("-" + t); else v.push_back ("+" + t);
    }
    return v;
}

static std::vector<int> rchunks (Rng &r, size_t len)
{
    std::vector<int> c;
    int mode = r.below (6);
    if (mode == 0) return c;
    if (mode == 1) { c.push_back (r.range (1, 8)); return c; }
    if (mode == 2) { for (int i = 0; i < 12; i++) c.push_back (r.range (1, 7)); return c; }
    if (mode == 3) { c = { 5 }; return c; }
    size_t n = 0;
    while (n < len && c.size () < 30) { int k = r.pct (50) ? r.range (1, 300) : r.range (1, 5000); c.push_back (k); n += k; }
    return c;
}

// One delivery.
static Op insert_op (Gen &g, bool allow_bad)
{
    Rng &r = g.r;
    Op o ("run", { "insert" });
    std::string folder;
    int k = r.below (100);
    if (k < 45) folder = "";
    else if (k < 80) folder = r.of (g.dirs);
    else folder = r.of (VS{ "fresh", "fresh/deeper", "work/sub", "odd name" });
    bool have = std::find (g.dirs.begin (), g.dirs.end (), folder) != g.dirs.end ();
    if (! folder.empty () || r.pct (20)) o.a.push_back ("--folder=" + folder);
    if (! have ? r.pct (90) || ! allow_bad : r.pct (10)) o.a.push_back ("--create-folder");
    if (r.pct (25)) o.a.push_back ("--keep");
    if (r.pct (15)) o.a.push_back ("--world-readable");
    if (r.pct (40)) o.a.push_back ("--no-hooks");
    for (auto &t : pm_tags (r)) o.a.push_back (t);
    // the message
    std::string bytes;
    k = r.below (100);
    if (allow_bad && k < 6) bytes = r.of (VS{ "no mail at all", "\n\n", "", "\x7f\x45LF" });
    else {
	std::string nm;
	if (k < 20 && ! g.names.empty ()) nm = g.copy_def (r.of (g.names));
	else if (k < 26 && ! g.names.empty ()) nm = r.of (g.names);
	else {
	    VS refs;
	    if (! g.mids.empty () && r.pct (50)) refs.push_back (g.anymid ());
	    nm = g.msg (refs);
	}
	for (auto &q : g.p.ops) if (q.verb == "msg" && q.a[0] == nm) bytes = q.a[2];
	bool sha = false;
	for (auto &q : g.p.ops) if (q.verb == "msg" && q.a[0] == nm) sha = q.a[1].compare (0, 12, "notmuch-sha1") == 0;
	if (! sha && r.pct (25)) { // as handed over by an mbox-minded transport
	    std::string env = r.of (VS{ "someone@example.org Thu Jan  1 00:00:00 1970", "x", "" });
	    for (auto &q : g.p.ops)
		if (q.verb == "msg" && q.a[0] == nm) {
		    Op c = q;
		    c.a[0] = fmt ("d%d", g.nm++);
		    c.a[2] = "X-Envelope-From: " + env + "\n" + bytes;
		    g.p.ops.push_back (c);
		    break;
		}
	    bytes = "From " + env + "\n" + bytes;
	}
    }
    o.in = bytes;
    o.chunks = rchunks (r, bytes.size ());
    if (r.pct (30)) o.env.push_back (fmt ("XAPIAN_FLUSH_THRESHOLD=%d", r.range (1, 3)));
    return o;
}

struct InsertBase : TargetWorkload {
    std::map<std::string, std::string> files0;
    Plan gen (Rng &r, int) override
    {
	Plan p;
	p.prop = prop;
	p.kind = "insert";
	Gen g (r, p);
	g.start (rconf (r));
	if (r.pct (40)) p.par["strict"] = "1";
	initial (g, 1, 5);
	g.adv ();
	p.ops.push_back (new_op (r));
	tagging (g, r.below (3));
	g.adv ();
	Op o = insert_op (g, true);
	p.add ("target", {});
	p.ops.push_back (o);
	return p;
    }
    bool setup (Exec &x, Plan &p) override
    {
	x.w.fs.strict = p.geti ("strict");
	files0 = mailfiles (x.w.fs, x.root);
	Job j = job_of (x, p.ops[target_index (p)]);
	std::string want = j.expect;
	Exec *px = &x;
	x.w.on_step = [this, want, px](Node *n, Sys k, const std::string &) {
	    if (n->quiet || ! mutating (k) || ! px->viols.empty ()) return;
	    partial (*px, want);
	};
	return true;
    }
    // files delivered so far; complains about one with other contents
    VS partial (Exec &x, const std::string &want)
    {
	VS nw;
	for (auto &f : mailfiles (x.w.fs, x.root)) {
	    auto i = files0.find (f.first);
	    if (i != files0.end () && i->second == f.second) continue;
	    if (i != files0.end ()) { // old mail touched
		x.fail ("old-mail-changed", "the file " + f.first + " was overwritten");
		return nw;
	    }
	    bool renamed = false; // flag synchronisation of a message delivered again
	    for (auto &o : files0) if (o.second == f.second && o.first.substr (0, o.first.find (":2,")).substr (o.first.rfind ('/') + 1) == f.first.substr (0, f.first.find (":2,")).substr (f.first.rfind ('/') + 1)) renamed = true;
	    if (renamed) continue;
	    if (f.second != want) { x.fail ("partial-file", fmt ("%s is visible with %d bytes that are not the message of %d bytes", f.first.c_str (), (int) f.second.size (), (int) want.size ())); return nw; }
	    nw.push_back (f.first);
	}
	return nw;
    }
    // the message as the database has it
    std::string indb (Exec &x, const Ctx &c, const Job &j, const NmState &s, const VS &nw)
    {
	if (j.mid.empty ()) return "";
	auto i = s.msgs.find (j.mid);
	if (i == s.msgs.end ()) return "message " + j.mid + " is not in the database";
	MM m = model_of (s).at (j.mid);
	if (! m.files.count (nw[0])) return "message " + j.mid + " has files {" + join (m.files) + "}, not " + nw[0];
	auto o = c.M0.find (j.mid);
	SS want = o != c.M0.end () ? o->second.tags : tags_of (x, j);
	SS got = m.tags;
	for (auto &t : x.autotags (j.mid)) if (got.count (t)) want.insert (t);
	if (want != got) return "message " + j.mid + " has tags {" + join (got) + "} instead of {" + join (want) + "}";
	return "";
    }
    bool accepted (Exec &x, Ctx &c, const Op &target, const ProcResult &)
    {
	Job j = job_of (x, target);
	VS nw = partial (x, j.expect);
	if (x.failed ()) return false;
	if (nw.size () != 1) { x.fail ("not-one-file", fmt ("notmuch insert exited 0 and left %d new files", (int) nw.size ())); return false; }
	std::string tmp = x.root + (j.folder.empty () ? "" : "/" + j.folder) + "/" + nw[0].substr (nw[0].rfind ('/') + 1);
	auto others = [&](const NmState &s) -> std::string {
	    Model m = model_of (s), want = c.M0;
	    if (! j.mid.empty ()) { m.erase (j.mid); want.erase (j.mid); }
	    return diff_model (want, m);
	};
	NmState s = x.observe (NM_RAW | NM_AUDIT);
	std::string d = problems (s);
	if (! d.empty ()) { x.fail ("db", d); return false; }
	d = others (s);
	if (! d.empty ()) { x.fail ("others", "another message changed: " + d); return false; }
	if (! j.keep) {
	    d = indb (x, c, j, s, nw);
	    if (j.mid.empty ()) d = "a file that is no mail was accepted";
	    if (! d.empty ()) { x.fail ("not-indexed", d); return false; }
	}
	// and now the power goes
	Snap sn = x.snap ();
	PowerSpec ps;
	x.w.fs.power_loss (ps);
	int n = 0;
	std::string stem = nw[0].substr (nw[0].rfind ('/') + 1);
	stem = stem.substr (0, stem.find (":2,"));
	VS nw2;
	for (auto &f : mailfiles (x.w.fs, x.root))
	    if (f.first.find ("/" + stem) != std::string::npos || f.first.compare (0, stem.size (), stem) == 0) {
		if (f.second == j.expect) { n++; nw2.push_back (f.first); }
	    }
	if (! n) x.fail ("not-durable", "after exit 0 and a power loss the delivered file " + nw[0] + " is gone or damaged");
	bool strict = x.w.fs.strict;
	x.restore (sn);
	x.w.fs.strict = strict;
	if (! x.failed () && ! j.keep) { // names survive, unsynced contents do not
	    ps.keep_pct = 100;
	    x.w.fs.power_loss (ps);
	    NmState s2 = x.observe ();
	    d = problems (s2);
	    if (d.empty ()) d = indb (x, c, j, s2, nw);
	    if (! d.empty ()) x.fail ("index-not-durable", "after exit 0 and a power loss: " + d);
	    x.restore (sn);
	    x.w.fs.strict = strict;
	}
	return ! x.failed ();
    }
    bool rejected (Exec &x, Ctx &c, const Op &target, const ProcResult &res)
    {
	Job j = job_of (x, target);
	VS nw = partial (x, j.expect);
	if (x.failed ()) return false;
	if (! nw.empty ()) { x.fail ("left-behind", "notmuch insert " + res.str () + " but left " + nw[0] + "; " + res.err); return false; }
	NmState s = x.observe (NM_RAW);
	std::string d = problems (s);
	if (! d.empty ()) { x.fail ("db", d); return false; }
	Model m = model_of (s);
	for (auto &q : m)
	    for (auto &f : q.second.files)
		if (! x.w.fs.exists (x.root + "/" + f) && ! files0.count (f) && ! (c.M0.count (q.first) && c.M0.at (q.first).files.count (f))) { x.fail ("db-refers", "notmuch insert " + res.str () + " and message " + q.first + " in the database has the missing file " + f + "; " + res.err); return false; }
	d = diff_model (c.M0, m);
	if (! d.empty ()) { x.fail ("db-changed", "notmuch insert " + res.str () + " and the database changed: " + d + "; " + res.err); return false; }
	return true;
    }
};

struct P04 : InsertBase {
    P04 () { prop = "P04"; budget_quick = 50; budget_thorough = 300; }
    FaultMix mix () override { FaultMix m; m.kill = m.power = m.err = m.sig = m.shortio = m.sticky = true; return m; }
    void check_dry (Exec &x, Plan &p, Ctx &c) override
    {
	const Op &o = p.ops[target_index (p)];
	Job j = job_of (x, o);
	if (c.dry.ok ()) accepted (x, c, o, c.dry);
	else if (! j.mid.empty () && c.dry.err.find ("No such file or directory") == std::string::npos)
	    x.fail ("refused", "an undisturbed delivery fails: " + c.dry.str () + " " + c.dry.err);
    }
    void check (Exec &x, Plan &, Ctx &c, const Op &target, const ProcResult &res) override
    {
	if (died (res)) { x.fail ("crash", "notmuch insert " + res.str () + " " + res.err); return; }
	if (x.failed ()) return;
	x.statehash = x.w.hash;
	if (res.ok ()) { accepted (x, c, target, res); return; }
	Job j = job_of (x, target);
	VS nw = partial (x, j.expect);
	if (! x.failed () && nw.size () > 1) x.fail ("not-one-file", fmt ("%d new files", (int) nw.size ()));
    }
};

struct P05 : InsertBase {
    P05 () { prop = "P05"; budget_quick = 50; budget_thorough = 300; }
    // a mail file that cannot be removed stays
    bool allow (const StepRec &s) override { return s.kind != S_UNLINK || s.path.find ("/.notmuch/") != std::string::npos; }
    FaultMix mix () override { FaultMix m; m.err = m.sig = m.shortio = m.sticky = true; return m; }
    void check_dry (Exec &x, Plan &p, Ctx &c) override
    {
	if (c.dry.how == H_EXITED && c.dry.code) rejected (x, c, p.ops[target_index (p)], c.dry);
    }
    void check (Exec &x, Plan &, Ctx &c, const Op &target, const ProcResult &res) override
    {
	if (died (res)) { x.fail ("crash", "notmuch insert " + res.str () + " " + res.err); return; }
	if (x.failed ()) return;
	x.statehash = x.w.hash;
	if (res.how == H_EXITED && res.code) rejected (x, c, target, res);
    }
};

// ---------------------------------------------------------------- P06
// Concurrent deliveries, scans, and other programs working on the same maildirs.
struct P06 : Workload {
    P06 () { prop = "P06"; }
    Plan gen (Rng &r, int) override
    {
	Plan p;
	p.prop = prop;
	p.kind = "concurrent";
	Gen g (r, p);
	g.start (rconf (r));
	static const std::vector<std::string> ticks = { "1", "5", "50", "50", "300", "20000", "20000", "1000000" };
	p.par["tick"] = r.of (ticks);
	if (r.pct (30)) p.par["stale"] = "1";
	initial (g, 1, 4);
	g.adv ();
	p.ops.push_back (new_op (r));
	g.adv ();
	int rounds = r.range (1, 2);
	for (int k = 0; k < rounds; k++) {
	    Op par ("par", {});
	    int n = r.range (2, 4);
	    bool same = r.pct (50);
	    std::string folder = g.dirs[r.below (g.dirs.size ())];
	    for (int i = 0; i < n; i++) {
		Op o = insert_op (g, false);
		if (same) { // all into one folder
		    VS a;
		    for (auto &s : o.a) if (s.compare (0, 9, "--folder=") && s != "--create-folder") a.push_back (s);
		    if (! folder.empty ()) a.insert (a.begin () + 1, "--folder=" + folder);
		    o.a = a;
		}
		if (r.pct (20)) {
		    Fault f;
		    f.at = r.range (10, 200);
		    f.kind = r.pct (50) ? F_ERR : F_KILL;
		    f.arg = f.kind == F_KILL ? 9 : 0;
		    o.faults.push_back (f);
		}
		par.sub.push_back (o);
	    }
	    if (r.pct (50)) par.sub.push_back (new_op (r));
	    if (r.pct (40)) { // a mail reader that moves new mail to cur/
		Op a ("act", {});
		int m = r.range (1, 4);
		for (int i = 0; i < m; i++) a.a.push_back ("sweep " + pct_enc (same ? folder : r.of (g.dirs)) + " " + pct_enc (r.pct (50) ? ":2," : ":2,S"));
		par.sub.push_back (a);
	    }
	    if (r.pct (30)) {
		Op a ("act", {});
		std::string nm = g.msg ({});
		std::string f = g.fname (same ? folder : r.of (g.dirs));
		a.a.push_back ("put " + pct_enc (f) + " " + pct_enc (nm));
		g.files[f] = nm;
		par.sub.push_back (a);
	    }
	    par.sched.seed = r.next () % 1000000;
	    par.sched.pct = r.of (std::vector<int>{ 3, 10, 30 });
	    p.ops.push_back (par);
	    g.adv ();
	}
	return p;
    }
    void exec (Exec &x, Plan &p) override
    {
	x.begin ();
	x.plan = &p;
	x.w.tick = atoll (p.get ("tick", "20000").c_str ());
	std::map<std::string, std::pair<int, int>> count; // bytes -> least and most files
	std::map<std::string, std::vector<SS>> tags;      // mid -> tags each delivery would give
	std::map<std::string, int> low;
	SS other;
	bool first = true;
	bool sweeps = false, slack = false; // slack: flags may come back from file names
	auto all = [&]() { std::map<std::string, int> n; for (auto &f : mailfiles (x.w.fs, x.root)) n[f.second]++; return n; };
	Model before;
	for (auto &o : p.ops) {
	    if (o.verb != "par") { x.apply (o); if (o.verb == "run") before = model_of (x.observe ()); continue; }
	    std::map<std::string, int> n0 = all ();
	    if (first) for (auto &t : x.tree ()) other.insert (t.first); // there without being delivered by insert
	    std::map<std::string, std::string> stale;
	    if (first && p.geti ("stale")) { // files of the names about to be used lie in tmp/ already
		Snap sn = x.snap ();
		for (auto &r : x.par (o, true))
		    for (auto &s : r.trace) if (s.kind == S_CREATE && s.path.find ("/tmp/") != std::string::npos) stale[s.path] = "stale";
		x.restore (sn);
		for (auto f = stale.begin (); f != stale.end (); ) {
		    if (! x.w.fs.isdir (f->first.substr (0, f->first.rfind ('/')))) { f = stale.erase (f); continue; }
		    x.w.fs.put (f->first, f->second);
		    ++f;
		}
		x.stats->add ("stale_tmp_files", stale.size ());
	    }
	    first = false;
	    auto rs = x.par (o);
	    for (auto &f : stale) {
		std::string b;
		if ((! x.w.fs.slurp (f.first, &b) || b != f.second)) { x.fail ("tmp-overwritten", "the file " + f.first + " of another program was overwritten or removed"); return; }
	    }
	    x.stats->add ("runs");
	    count.clear ();
	    for (auto &q : n0) count[q.first] = { q.second, q.second };
	    for (auto &s : o.sub) {
		if (s.verb != "act") continue;
		for (auto &it : s.a) {
		    VS t = split (it, ' ');
		    if (t[0] == "sweep") sweeps = slack = true;
		    if (t[0] == "put") other.insert (x.defs[pct_dec (t[2])].mid);
		}
	    }
	    for (size_t i = 0; i < rs.size (); i++) {
		const Op &s = o.sub[i];
		const ProcResult &r = rs[i];
		if (died (r)) { x.fail ("crash", s.str ().substr (0, 60) + " " + r.str () + " " + r.err); return; }
		if (s.verb == "act") {
		    for (auto &it : s.a) {
			VS t = split (it, ' ');
			if (t[0] == "put") { auto &c = count[x.defs[pct_dec (t[2])].bytes]; c.first++; c.second++; }
		    }
		    continue;
		}
		if (s.a[0] != "insert") continue;
		if (! r.ok () || ! s.faults.empty ()) slack = true;
		Job j = job_of (x, s);
		auto &c = count[j.expect];
		if (r.ok ()) { c.first++; c.second++; }
		else if (r.how != H_EXITED || sweeps) c.second++; // killed, or the other program took the file away first
		if (r.ok () || r.how != H_EXITED || sweeps) if (! j.mid.empty ()) tags[j.mid].push_back (tags_of (x, j));
		if (r.ok () && ! j.keep && ! j.mid.empty ()) low[j.mid]++;
	    }
	    std::map<std::string, int> n1 = all ();
	    for (auto &q : n1) if (! count.count (q.first)) { x.fail ("unknown-file", "a file with contents nobody delivered: " + q.first.substr (0, 80)); return; }
	    for (auto &q : count) {
		int n = n1.count (q.first) ? n1[q.first] : 0;
		auto b = x.bybytes.find (q.first);
		std::string what = b == x.bybytes.end () ? "?" : x.defs[b->second].mid;
		if (n < q.second.first) { x.fail ("lost", fmt ("message %s: %d copies in the maildirs, at least %d were accepted", what.c_str (), n, q.second.first)); return; }
		if (n > q.second.second) { x.fail ("twice", fmt ("message %s: %d copies in the maildirs, at most %d were delivered", what.c_str (), n, q.second.second)); return; }
	    }
	}
	x.w.tick = 20000;
	x.w.clock += 2000000000LL;
	// what the deliveries themselves put into the database
	NmState s1 = x.observe ();
	std::string d = problems (s1);
	if (! d.empty ()) { x.fail ("db", d); return; }
	for (auto &q : low)
	    if (! s1.msgs.count (q.first) && ! sweeps) { x.fail ("not-indexed", "message " + q.first + " was accepted but is not in the database"); return; }
	ProcResult r = x.cmd ({ "new" });
	if (! r.ok ()) { x.fail ("final-scan", "an undisturbed scan fails: " + r.str () + " " + r.err); return; }
	NmState s = x.observe (NM_RAW | NM_AUDIT);
	x.stats->states.insert (model_hash (s) ^ x.w.hash);
	d = problems (s);
	if (! d.empty ()) { x.fail ("db", d); return; }
	Model m = model_of (s);
	auto t = x.tree ();
	for (auto &q : t) {
	    if (! m.count (q.first)) { x.fail ("missed", "message " + q.first + " is not in the database after a scan"); return; }
	    if (m[q.first].files != q.second) { x.fail ("files-differ", "message " + q.first + " has files {" + join (m[q.first].files) + "} in the database, the tree has {" + join (q.second) + "}"); return; }
	}
	for (auto &q : m) if (! t.count (q.first)) { x.fail ("stale", "message " + q.first + " has no file"); return; }
	for (auto &q : tags) {
	    if (before.count (q.first) || ! low.count (q.first)) continue;
	    bool ok = false;
	    std::string w;
	    SS nt (x.conf.newtags.begin (), x.conf.newtags.end ());
	    auto alt = q.second;
	    if ((int) alt.size () > low[q.first] || other.count (q.first)) alt.push_back (nt);
	    for (auto &a : alt) {
		bool sl = slack || other.count (q.first);
		SS want = sl ? nonflag (a) : a, got = sl ? nonflag (m[q.first].tags) : m[q.first].tags;
		for (auto &at : x.autotags (q.first)) if (got.count (at)) want.insert (at);
		if (want == got) ok = true;
		w += " {" + join (want) + "}";
	    }
	    if (! ok) { x.fail ("delivery-tags", "message " + q.first + " has tags {" + join (m[q.first].tags) + "}, its deliveries would give" + w); return; }
	}
    }
};

static P04 p04;
static P05 p05;
static P06 p06;

Workload *workload_insert (const std::string &prop, const std::string &)
{
    if (prop == "P04") return &p04;
    if (prop == "P05") return &p05;
    if (prop == "P06") return &p06;
    return nullptr;
}

}
