// Workloads around writing commands: P07 (maildir flags), P15 (success means saved), P21 (mail is never altered).
#include "model.h"
#include "target.h"
#include <algorithm>
#include <cstring>

namespace sim {

// the folder and the name without maildir flags
static std::string stem_of (const std::string &rel)
{
    if (! is_mailfile (rel)) return rel;
    size_t s = rel.rfind ('/'), d = s - 3;
    return rel.substr (0, d) + "*" + rel.substr (s, rel.find (":2,", s) - s);
}

static SS stems (const SS &f) { SS r; for (auto &x : f) r.insert (stem_of (x)); return r; }

static bool exists (Exec &x, const std::string &path) { ino_num i; return x.w.fs.lookup (path, false, &i) == 0; }

// every file with its identity
struct FileId { std::string path, data; };
static std::map<ino_num, FileId> by_inode (const FS &fs, const std::string &root)
{
    std::map<ino_num, FileId> r;
    fs.walk (root, [&](const std::string &p, const Inode &i) {
	if (i.isdir () || p.find ("/.notmuch/") != std::string::npos) return;
	r[i.ino] = FileId{ p.substr (root.size () + 1), i.data };
    });
    return r;
}

// Has any mail file been lost or altered, or renamed in a way that is no flag change?
static std::string mail_changed (const std::map<ino_num, FileId> &a, const std::map<ino_num, FileId> &b, bool renames)
{
    for (auto &f : a) {
	auto i = b.find (f.first);
	if (i == b.end ()) return "the mail file " + f.second.path + " is gone";
	if (i->second.data != f.second.data) return "the mail file " + f.second.path + " has other contents";
	if (i->second.path == f.second.path) continue;
	if (! renames || stem_of (i->second.path) != stem_of (f.second.path)) return "the mail file " + f.second.path + " was renamed to " + i->second.path;
    }
    return "";
}

static std::string dumpline (const std::string &id, const SS &tags)
{
    std::string l;
    for (auto &t : tags) l += (l.empty () ? "+" : " +") + hexq (t);
    std::string q;
    bool plain = true;
    for (char c : id) { if (c == '"') q += '"'; q += c; if (! isalnum ((unsigned char) c) && ! strchr ("@._-+", c)) plain = false; }
    return l + (l.empty () ? "" : " ") + "-- id:" + (plain ? id : "\"" + q + "\"") + "\n";
}

// a dump file in the order a program might write it
std::string rdump (Gen &g, bool props)
{
    Rng &r = g.r;
    std::string s = "#notmuch-dump batch-tag:3 config,properties,tags\n";
    for (auto &m : g.mids) {
	if (r.pct (25)) continue;
	bool plain = m.find_first_of ("%\"'= ") == std::string::npos;
	if (props && plain && r.pct (40)) s += "#= " + m + fmt (" key=value%d", r.below (5)) + (r.pct (30) ? " other=a%20b" : "") + "\n";
    }
    for (auto &m : g.mids) {
	if (r.pct (25)) continue;
	SS t;
	int n = r.below (4);
	for (int i = 0; i < n; i++) t.insert (g.anytag ());
	s += dumpline (m, t);
    }
    return s;
}

// ---------------------------------------------------------------- P15
// An operation that exits 0 has left the database exactly as the same operation does when nothing fails.
struct P15 : TargetWorkload {
    std::vector<Model> stages;
    P15 () { prop = "P15"; budget_quick = 50; budget_thorough = 400; }
    FaultMix mix () override { FaultMix m; m.err = m.sticky = m.shortio = m.sig = true; return m; }
    // Xapian itself ignores a failing fsync of a database it compacts
    bool allow (const StepRec &s) override { return ! (s.kind == S_FSYNC && s.path.find ("/xapian.compact/") != std::string::npos); }
    Plan gen (Rng &r, int) override
    {
	Plan p;
	p.prop = prop;
	Gen g (r, p);
	g.start (rconf (r));
	initial (g, 2, 6);
	g.adv ();
	p.ops.push_back (new_op (r));
	tagging (g, r.below (4));
	int k = r.below (100);
	Op o;
	if (k < 20) { o = real_op (gen_tagq (g)); p.kind = "tag"; }
	else if (k < 40) { o = real_op (gen_batch (g, false)); p.kind = "batch"; }
	else if (k < 58) {
	    g.p.add ("adv", { "2500000000" });
	    int n = r.range (1, 4);
	    for (int i = 0; i < n; i++) g.mutate ();
	    g.p.add ("adv", { "2500000000" });
	    o = new_op (r);
	    p.kind = "new";
	} else if (k < 76) {
	    o = Op ("run", { "restore" });
	    if (r.pct (30)) o.a.push_back ("--accumulate");
	    o.in = rdump (g, true);
	    if (r.pct (50)) for (int i = r.range (1, 8); i > 0; i--) o.chunks.push_back (r.range (1, 80));
	    p.kind = "restore";
	} else if (k < 86) { o = Op ("run", { "reindex", "--", rquery (g, 1).infix () }); p.kind = "reindex"; }
	else if (k < 92) { o = Op ("run", { "config", "set", "--database", fmt ("query.q%d", r.below (3)), r.of (VS{ "tag:inbox", "a \"b\" % c", "é" }) }); p.kind = "config"; }
	else { o = Op ("run", { "compact", "--quiet" }); p.kind = "compact"; }
	if (o.env.empty () && r.pct (50)) o.env.push_back (fmt ("XAPIAN_FLUSH_THRESHOLD=%d", r.range (1, 3)));
	p.add ("target", {});
	p.ops.push_back (o);
	return p;
    }
    bool setup (Exec &x, Plan &p) override
    {
	// what the first lines of the input alone would do
	Op o = p.ops[target_index (p)];
	stages.clear ();
	if (o.in.empty ()) return true;
	o.faults.clear ();
	o.chunks.clear ();
	x.w.fs.sync_all ();
	Snap s = x.snap ();
	std::string in = o.in;
	for (size_t i = 0; i != std::string::npos; ) {
	    o.in = in.substr (0, i);
	    x.run (o);
	    stages.push_back (model_of (x.observe ()));
	    x.restore (s);
	    if (i >= in.size ()) break;
	    size_t n = in.find ('\n', i);
	    i = n == std::string::npos ? in.size () : n + 1;
	}
	return true;
    }
    void check_dry (Exec &x, Plan &p, Ctx &c) override
    {
	if (! c.dry.ok () && p.kind != "new") x.fail ("fails", "undisturbed: " + c.dry.str () + " " + c.dry.err);
	std::string d = problems (c.S1);
	if (! d.empty ()) x.fail ("db", d);
    }
    static std::string same (const NmState &want, const NmState &got, bool names)
    {
	Model a = model_of (want), b = model_of (got);
	std::string d = tags_differ (a, b);
	if (! d.empty ()) return d;
	for (auto &m : a)
	    if (names ? m.second.files != b[m.first].files : stems (m.second.files) != stems (b[m.first].files))
		return "message " + m.first + " has files {" + join (b[m.first].files) + "} instead of {" + join (m.second.files) + "}";
	for (auto &m : want.msgs) {
	    const NmMsg &o = got.msgs.at (m.first);
	    if (m.second.files != o.files) continue;
	    if (m.second.from != o.from || m.second.subject != o.subject || m.second.date != o.date) return "message " + m.first + " has other headers";
	    if (m.second.fp != o.fp || m.second.vals != o.vals) return "message " + m.first + " is indexed under other terms";
	}
	if (thread_key (want) != thread_key (got)) return "threads are {" + thread_key (got) + "} instead of {" + thread_key (want) + "}";
	if (want.config != got.config) return "the configuration in the database differs";
	return "";
    }
    void check (Exec &x, Plan &p, Ctx &c, const Op &target, const ProcResult &res) override
    {
	if (died (res)) { x.fail ("crash", join (target.a) + " " + res.str () + " " + res.err); return; }
	NmState s = x.observe (NM_RAW | NM_AUDIT);
	x.statehash = model_hash (s) ^ fnv (res.str ());
	std::string d = problems (s);
	// a disk that fails for good can stop compaction between its last renames (see P16)
	if (! d.empty () && p.kind == "compact" && ! res.ok () && exists (x, x.root + "/.notmuch/xapian.old")) return;
	if (! d.empty ()) { x.fail ("db", join (target.a) + " " + res.str () + ": " + d); return; }
	bool names = x.conf.sync && p.kind != "new"; // renaming a mail file may have failed, which is no failure of tagging
	if (res.ok ()) {
	    x.stats->add ("ok_under_fault");
	    // where renaming failed, queries by path select other messages
	    std::string text = join (target.a) + target.in;
	    if (names && (text.find ("path") != std::string::npos || text.find ("folder") != std::string::npos)) return;
	    d = same (c.S1, s, ! names);
	    if (! d.empty ()) { x.fail ("not-saved", "notmuch " + join (target.a) + " exits 0, but " + d); return; }
	    Snap sn = x.snap ();
	    PowerSpec ps;
	    ps.keep_pct = 100;
	    x.w.fs.power_loss (ps);
	    NmState s2 = x.observe ();
	    d = problems (s2);
	    if (d.empty ()) d = same (s, s2, true);
	    if (! d.empty ()) x.fail ("not-durable", "notmuch " + join (target.a) + " exits 0, but after a power loss " + d);
	    x.restore (sn);
	    return;
	}
	x.stats->add ("failed_under_fault");
	if (p.kind == "tag" || p.kind == "batch" || p.kind == "restore" || p.kind == "config" || p.kind == "compact" || p.kind == "reindex") {
	    // each message as some number of input lines leaves it, one line at most half done
	    std::vector<Model> st = stages;
	    if (st.empty ()) st = { c.M0, c.M1 };
	    Model m = model_of (s);
	    std::string why;
	    for (size_t k = 0; k < st.size (); k++) {
		const Model &a = st[k], &b = st[std::min (k + 1, st.size () - 1)];
		why.clear ();
		for (auto &q : m) {
		    auto i = a.find (q.first), j = b.find (q.first);
		    bool fits = false;
		    if (i != a.end () && i->second.tags == q.second.tags && i->second.props == q.second.props && stems (i->second.files) == stems (q.second.files)) fits = true;
		    if (j != b.end () && j->second.tags == q.second.tags && j->second.props == q.second.props && stems (j->second.files) == stems (q.second.files)) fits = true;
		    if (! fits && p.kind == "restore" && i != a.end () && j != b.end () && stems (i->second.files) == stems (q.second.files) && q.second.tags == i->second.tags) fits = true; // properties one by one
		    if (! fits) { why = "message " + q.first + " is " + q.second.str (); break; }
		}
		for (auto &q : a) if (! m.count (q.first) && b.count (q.first)) why = "message " + q.first + " is gone";
		if (why.empty ()) break;
	    }
	    if (! why.empty ()) x.fail ("half", "notmuch " + join (target.a) + " " + res.str () + ": " + why + "; " + res.err);
	} else {
	    d = between (c.S0, c.S1, s, true);
	    if (d.find ("lost") != std::string::npos && res.err.find ("Unexpected error with file") != std::string::npos) d.clear (); // the recorded finding F2 of P02
	    if (! d.empty ()) x.fail ("half", "notmuch " + join (target.a) + " " + res.str () + ": " + d + "; " + res.err);
	}
    }
};

    // a command that only reads
Op reader_op (Gen &g)
    {
	Rng &r = g.r;
	Op o ("run", {});
	Q q = rquery (g, 1);
	auto add = [&](const VS &v) { o.a.insert (o.a.end (), v.begin (), v.end ()); };
	auto fin = [&]() { add ({ "--", q.infix () }); };
	int k = r.below (12);
	if (k < 3) {
	    add ({ "search", "--output=" + r.of (VS{ "summary", "threads", "messages", "files", "tags" }), "--format=" + r.of (VS{ "json", "sexp", "text" }) });
	    if (r.pct (30)) add ({ "--sort=oldest-first" });
	    fin ();
	} else if (k < 6) {
	    std::string f = r.of (VS{ "json", "sexp", "text", "mbox", "raw" });
	    add ({ "show", "--format=" + f });
	    if (f == "raw") q = Q::parse ("( id " + pct_enc (pct_enc (g.anymid ())) + " )");
	    else if (r.pct (40)) add ({ "--entire-thread=true" });
	    bool st = f == "json" || f == "sexp" || f == "text";
	    if ((st || r.pct (5)) && r.pct (30)) add ({ "--body=false" });
	    if ((st || r.pct (5)) && r.pct (30)) add ({ "--include-html" });
	    if (f == "raw") add ({ "--", idq (g.anymid ()) }); else fin ();
	} else if (k == 6) { add ({ "count", "--output=" + r.of (VS{ "messages", "threads", "files" }) }); fin (); }
	else if (k == 7) { add ({ "address", "--output=" + r.of (VS{ "sender", "recipients", "count" }) }); fin (); }
	else if (k == 8) { add ({ "reply", "--", idq (g.anymid ()) }); }
	else if (k == 9) { add ({ "dump", "--output=/sim/home/out.dump" }); if (r.pct (40)) add ({ "--gzip" }); }
	else if (k == 10) { add ({ "dump" }); if (r.pct (50)) fin (); }
	else { add ({ "config" }); add (r.pct (50) ? VS{ "list" } : VS{ "get", "search.exclude_tags" }); }
	return o;
    }

// ---------------------------------------------------------------- P21
struct P21 : TargetWorkload {
    std::map<ino_num, FileId> files0;
    std::map<std::string, std::pair<ino_num, std::string>> all0;
    std::string outside;
    P21 () { prop = "P21"; budget_quick = 40; budget_thorough = 300; }
    FaultMix mix () override { FaultMix m; m.err = m.sticky = m.shortio = m.kill = m.sig = true; return m; }
    Plan gen (Rng &r, int) override
    {
	Plan p;
	p.prop = prop;
	Gen g (r, p);
	Conf c = rconf (r);
	if (r.pct (30)) c.exclude = excl;
	g.start (c);
	initial (g, 2, 6);
	if (r.pct (25)) for (int i = r.range (1, 3); i > 0; i--) g.mutate ();
	p.ops.push_back (new_op (r));
	tagging (g, r.below (4));
	Op o;
	if (r.pct (45)) { o = reader_op (g); p.kind = "read"; }
	else {
	    p.kind = "write";
	    int k = r.below (100);
	    if (k < 22) o = real_op (gen_tagq (g));
	    else if (k < 38) o = real_op (gen_batch (g, true));
	    else if (k < 58) {
		g.p.add ("adv", { "2500000000" });
		for (int i = r.range (0, 4); i > 0; i--) g.mutate ();
		o = new_op (r);
	    } else if (k < 72) { o = Op ("run", { "restore" }); o.in = rdump (g, true); }
	    else if (k < 82) o = Op ("run", { "reindex", "--", rquery (g, 1).infix () });
	    else if (k < 86) o = Op ("run", { "config", "set", "--database", "query.q1", "tag:inbox" });
	    else if (k < 90) o = Op ("run", { "compact", "--quiet" });
	    else {
		o = Op ("run", { "insert" });
		std::string nm = r.pct (50) ? g.copy_def (r.of (g.names)) : g.msg ();
		if (r.pct (50)) o.a.push_back ("--folder=" + r.of (g.dirs));
		for (auto &q : p.ops) if (q.verb == "msg" && q.a[0] == nm) o.in = q.a[2];
	    }
	}
	p.add ("target", {});
	p.ops.push_back (o);
	return p;
    }
    std::map<std::string, std::pair<ino_num, std::string>> everything (Exec &x)
    {
	std::map<std::string, std::pair<ino_num, std::string>> r;
	x.w.fs.walk ("/sim/home", [&](const std::string &p, const Inode &i) {
	    if (p.compare (0, 18, "/sim/home/out.dump") == 0) return;
	    r[p] = { i.ino, i.isdir () ? "" : i.data };
	});
	return r;
    }
    bool setup (Exec &x, Plan &p) override
    {
	files0 = by_inode (x.w.fs, x.root);
	all0 = everything (x);
	outside.clear ();
	bool reads = p.kind == "read", dump = p.ops[target_index (p)].a[0] == "dump";
	std::string root = x.root;
	x.w.on_step = [this, reads, dump, root](Node *n, Sys k, const std::string &path) {
	    if (n->quiet || ! outside.empty ()) return;
	    if (dump && (k == S_OPENW || k == S_LOCK) && path.find ("/.notmuch/xapian/") != std::string::npos) return; // dump holds the lock on purpose
	    if (reads && (mutating (k) || k == S_OPENW || k == S_LOCK) && path.compare (0, root.size (), root) == 0) outside = std::string (sys_name[k]) + " " + path;
	};
	return true;
    }
    void verdict (Exec &x, Plan &p, const Op &target, const ProcResult &res)
    {
	if (died (res)) { x.fail ("crash", "notmuch " + join (target.a) + " " + res.str () + " " + res.err); return; }
	std::string what = "notmuch " + join (target.a) + " " + res.str ();
	if (! outside.empty ()) { x.fail ("reader-writes", what + ": " + outside); outside.clear (); return; }
	std::string d = mail_changed (files0, by_inode (x.w.fs, x.root), x.conf.sync && p.kind == "write");
	if (! d.empty ()) { x.fail ("mail-changed", what + ": " + d); return; }
	if (p.kind == "read") {
	    auto now = everything (x);
	    for (auto &f : all0) if (! now.count (f.first) || now[f.first] != f.second) { x.fail ("reader-changes", what + " changed or removed " + f.first); return; }
	    for (auto &f : now) if (! all0.count (f.first)) { x.fail ("reader-changes", what + " left " + f.first); return; }
	}
    }
    void check_dry (Exec &x, Plan &p, Ctx &c) override { verdict (x, p, p.ops[target_index (p)], c.dry); outside.clear (); }
    void check (Exec &x, Plan &p, Ctx &, const Op &target, const ProcResult &res) override
    {
	x.statehash = x.w.hash;
	verdict (x, p, target, res);
	outside.clear ();
    }
};

// ---------------------------------------------------------------- P07
struct P07 : TargetWorkload {
    std::map<ino_num, FileId> files0;
    QEnv e;
    P07 () { prop = "P07"; budget_quick = 40; budget_thorough = 300; }
    void check (Exec &, Plan &, Ctx &, const Op &, const ProcResult &) override {}
    FaultMix mix () override { FaultMix m; m.err = m.sticky = m.kill = m.sig = m.power = true; return m; }
    // a file in a maildir, with all kinds of names
    std::string deliver (Gen &g, const std::string &def)
    {
	Rng &r = g.r;
	static const VS fl = { "", "S", "FS", "R", "PS", "DFPRST", "RS", "T", "Sab", "az", "SF", "SS", "S\xc3\xa9", "DR", "F", "P", "D" };
	std::string d = r.of (g.dirs), pre = d.empty () ? "" : d + "/", base;
	if (! g.files.empty () && r.pct (20)) { // another file with the same base name
	    std::string f = g.anyfile ();
	    f = f.substr (f.rfind ('/') + 1);
	    base = f.substr (0, f.find (":2,"));
	} else base = fmt ("%d.P%dQ%d.host", 1600000000 + r.below (1000), 100 + r.below (50), g.nf++);
	if (r.pct (6)) base += r.of (VS{ ",S=12", ":1,x", " odd", ",W:3" });
	std::string to = r.pct (40) ? pre + "new/" + base + (r.pct (15) ? ":2," + r.of (fl) : "") : pre + "cur/" + base + (r.pct (88) ? ":2," + r.of (fl) : "");
	if (g.files.count (to)) return "";
	g.p.add ("put", { to, def });
	g.files[to] = def;
	return to;
    }
    Plan gen (Rng &r, int) override
    {
	Plan p;
	p.prop = prop;
	p.kind = "sync";
	Gen g (r, p);
	Conf c = rconf (r);
	c.sync = true;
	g.start (c);
	int n = r.range (1, 4);
	for (int i = 0; i < n; i++) {
	    std::string nm = g.msg ();
	    deliver (g, nm);
	    while (r.pct (45)) deliver (g, r.pct (50) ? nm : g.copy_def (nm));
	}
	if (r.pct (10)) p.add ("put", { "plain/x:2,S", r.of (g.names) });
	p.add ("adv", { "2500000000" });
	p.ops.push_back (new_op (r));
	for (int i = r.below (3); i > 0; i--) p.ops.push_back (real_op (gen_tagq (g)));
	if (r.pct (30)) { // another program changes flags, and the scan takes notice
	    p.add ("adv", { "2500000000" });
	    g.mutate ();
	    p.add ("adv", { "2500000000" });
	    p.ops.push_back (new_op (r));
	}
	Op o;
	if (r.pct (70)) o = gen_tagq (g); else o = gen_batch (g, false);
	if (r.pct (75)) { // of the tags that have a flag
	    static const VS ft = { "unread", "flagged", "replied", "passed", "draft" };
	    if (o.verb == "tagq") { o.a.resize (2); for (int i = r.range (1, 3); i > 0; i--) o.a.push_back (r.of (VS{ "+", "-" }) + r.of (ft)); }
	    else for (size_t i = 1; i < o.a.size (); i++) o.a[i] = r.of (VS{ "+", "-" }) + r.of (ft) + " " + r.of (VS{ "+", "-" }) + r.of (ft) + o.a[i].substr (o.a[i].find ('|'));
	}
	p.add ("target", {});
	p.ops.push_back (o);
	if (r.pct (20)) p.par["reader"] = fmt ("%d", r.range (1, 1000000));
	return p;
    }
    // the target is given by meaning; run it as a command
    bool prefix7 (Exec &x, Plan &p, Ctx &c)
    {
	x.begin ();
	x.plan = &p;
	int t = target_index (p);
	if (t < 0 || t >= (int) p.ops.size ()) return false;
	for (int i = 0; i < t - 1; i++) {
	    ProcResult r;
	    if (p.ops[i].verb == "run") {
		files0 = by_inode (x.w.fs, x.root);
		r = x.run (p.ops[i]);
		if (died (r)) { x.fail ("crash", r.str () + " " + r.err); return false; }
		std::string d = mail_changed (files0, by_inode (x.w.fs, x.root), true);
		if (! d.empty ()) { x.fail ("clobbered", "notmuch " + join (p.ops[i].a) + ": " + d); return false; }
	    } else x.apply (p.ops[i]);
	}
	x.w.fs.sync_all ();
	files0 = by_inode (x.w.fs, x.root);
	c.S0 = x.observe (NM_RAW);
	c.M0 = model_of (c.S0);
	std::string d = agrees (x, c.M0);
	if (! d.empty ()) { x.fail ("names", "after the scan " + d); return false; }
	e = qenv (x, c.S0);
	c.s0 = x.snap ();
	x.say ("---- state before the target\n" + state_str (c.M0));
	return true;
    }
    // the database names exactly the files there are
    std::string agrees (Exec &x, const Model &m)
    {
	auto t = x.tree ();
	for (auto &q : t) { auto i = m.find (q.first); if (i == m.end () || i->second.files != q.second) return "message " + q.first + " has the files {" + join (q.second) + "}, the database says {" + (i == m.end () ? "" : join (i->second.files)) + "}"; }
	for (auto &q : m) if (! t.count (q.first)) return "message " + q.first + " has no file";
	return "";
    }
    // whether each file may have its name after the messages went from tags a through those of st
    std::string renamed_well (Exec &x, const Model &m0, const std::vector<Model> &st, bool strict)
    {
	auto now = by_inode (x.w.fs, x.root);
	std::map<std::string, std::string> owner; // file -> message
	for (auto &m : m0) for (auto &f : m.second.files) owner[f] = m.first;
	SS present, before;
	for (auto &f : now) present.insert (f.second.path);
	for (auto &f : files0) before.insert (f.second.path);
	for (auto &f : files0) {
	    const std::string &from = f.second.path, &to = now.at (f.first).path;
	    if (! owner.count (from)) { if (from != to) return "the file " + from + " of no message was renamed to " + to; continue; }
	    const std::string &id = owner[from];
	    SS ok = { from };
	    std::string cur = from;
	    SS tags = m0.at (id).tags, names = m0.at (id).files;
	    std::string last = from;
	    for (auto &s : st) {
		auto i = s.find (id);
		if (i == s.end () || (i->second.tags == tags && i->second.files == names)) continue;
		tags = i->second.tags;
		names = i->second.files;
		SS add;
		for (auto &n : ok) add.insert (flag_name (n, tags));
		last = flag_name (last, tags);
		ok.insert (add.begin (), add.end ());
	    }
	    if (! ok.count (to)) return "the file " + from + " of message " + id + " was renamed to " + to + "; with tags {" + join (tags) + "} it should be " + last;
	    // it keeps an older name only where the new one was taken
	    if (strict && to != last && exists (x, x.root + "/" + last.substr (0, last.rfind ('/') == std::string::npos ? 0 : last.rfind ('/'))) && ! present.count (last) && ! before.count (last)) {
		bool other = false; // or an intermediate name was
		for (auto &g : files0) if (g.first != f.first && stem_of (g.second.path) == stem_of (from)) other = true;
		if (! other) return "the file " + from + " of message " + id + " is named " + to + "; with tags {" + join (tags) + "} it should be " + last;
	    }
	}
	return "";
    }
    bool verdict (Exec &x, Plan &p, Ctx &c, const Op &target, const ProcResult &res)
    {
	std::string what = "notmuch " + join (real_op (target).a) + (target.verb == "batch" ? " [" + real_op (target).in.substr (0, 300) + "]" : "") + " " + res.str ();
	if (died (res)) { x.fail ("crash", what + " " + res.err); return false; }
	std::string d = mail_changed (files0, by_inode (x.w.fs, x.root), true);
	if (! d.empty ()) { x.fail ("clobbered", what + ": " + d); return false; }
	Snap s = c.s0;
	Stages st;
	{ // the meaning, from the state before
	    Snap now = x.snap ();
	    x.restore (c.s0);
	    st = stages_of (x, target, e);
	    x.restore (now);
	}
	bool clean = res.ok () && target.faults.empty ();
	SS base;
	bool shared = false; // files of one base name compete for names
	for (auto &f : files0) if (! base.insert (stem_of (f.second.path)).second) shared = true;
	// where a rename failed, queries by path select other messages
	bool pathq = target.str ().find ("path") != std::string::npos || target.str ().find ("folder") != std::string::npos;
	d = pathq && (shared || ! target.faults.empty ()) ? "" : renamed_well (x, c.M0, st.t, clean);
	if (! d.empty ()) { x.fail ("flags", what + ": " + d); return false; }
	NmState S = x.observe (NM_RAW | NM_AUDIT);
	d = problems (S);
	if (! d.empty ()) { x.fail ("db", what + ": " + d); return false; }
	Model m = model_of (S);
	x.statehash = model_hash (S) ^ fnv (res.str ());
	if (res.ok ()) {
	    d = pathq && (shared || ! target.faults.empty ()) ? "" : tags_differ (st.t.back (), m);
	    if (! d.empty ()) { x.fail ("tags", what + ": " + d); return false; }
	    d = agrees (x, m);
	    if (! d.empty ()) { x.fail ("names", what + ": " + d); return false; }
	}
	// the next scan brings both together again, unless messages share a base name: an interrupted
	// synchronisation may then have reused one's old name for the other
	if (shared && ! clean) return true;
	x.w.clock += 2500000000LL;
	ProcResult r = x.cmd ({ "new" });
	if (! r.ok ()) { x.fail ("recovery", what + "; then notmuch new " + r.str () + " " + r.err); return false; }
	NmState S2 = x.observe (NM_RAW);
	Model m2 = model_of (S2);
	d = problems (S2);
	if (d.empty ()) d = agrees (x, m2);
	if (! d.empty ()) { x.fail ("recovery", what + "; after notmuch new " + d); return false; }
	for (auto &q : m2) {
	    auto i = m.find (q.first);
	    if (i == m.end ()) { x.fail ("recovery", what + "; after notmuch new there is a new message " + q.first); return false; }
	    SS want = i->second.files == q.second.files ? i->second.tags : flags_to_tags (q.second.files, i->second.tags);
	    if (i->second.files != q.second.files) { SS at = x.autotags (q.first); want.insert (at.begin (), at.end ()); } // indexing adds them again
	    if (want != q.second.tags) {
		// names that were still listed count as well
		if (! (has_info (i->second.files) && nonflag (want) == nonflag (q.second.tags) && ! has_info (q.second.files)))
		{ x.fail ("recovery", what + "; after notmuch new message " + q.first + " with files {" + join (q.second.files) + "} has tags {" + join (q.second.tags) + "} instead of {" + join (want) + "}"); return false; }
	    }
	}
	return true;
    }
    void dry7 (Exec &x, Plan &p, Ctx &c)
    {
	Op o = p.ops[target_index (p)];
	o.faults.clear ();
	c.dry = x.run (real_op (o), true);
	if (! c.dry.ok ()) x.fail ("fails", "undisturbed: " + c.dry.str () + " " + c.dry.err);
	else verdict (x, p, c, o, c.dry);
	x.restore (c.s0);
    }
    void one (Exec &x, Plan &p, Ctx &c)
    {
	if (x.about) x.about (p);
	x.w.hash = 1469598103934665603ULL;
	Op &o = p.ops[target_index (p)];
	ProcResult r = x.run (real_op (o));
	x.stats->add ("runs");
	if (r.fired) x.stats->add ("runs_with_fault");
	verdict (x, p, c, o, r);
	x.stats->states.insert (x.statehash);
	x.statehash = 0;
    }
    void exec (Exec &x, Plan &p) override
    {
	Ctx c;
	if (! prefix7 (x, p, c)) return;
	if (p.ops[target_index (p)].faults.empty ()) dry7 (x, p, c);
	else one (x, p, c);
    }
    void explore (Exec &x, Plan &p, Rng &r, int tier, const std::function<bool(const Plan &)> &report) override
    {
	Ctx c;
	if (x.about) x.about (p);
	if (! prefix7 (x, p, c)) { if (x.failed ()) report (p); return; }
	dry7 (x, p, c);
	x.stats->add ("runs");
	if (x.failed ()) { report (p); return; }
	int t = target_index (p);
	auto sets = fault_sets (c.dry.trace, mix (), r, tier ? budget_thorough : budget_quick, nullptr);
	for (auto &fs : sets) {
	    p.ops[t].faults = fs;
	    x.restore (c.s0);
	    x.viols.clear ();
	    x.knownhit.clear ();
	    one (x, p, c);
	    if (x.failed () && ! report (p)) return;
	}
	p.ops[t].faults.clear ();
    }
};

static P07 p07;
static P15 p15;
static P21 p21;

Workload *workload_prog (const std::string &prop, const std::string &)
{
    if (prop == "P07") return &p07;
    if (prop == "P15") return &p15;
    if (prop == "P21") return &p21;
    return nullptr;
}

}
