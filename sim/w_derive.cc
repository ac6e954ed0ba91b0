// Workloads around data derived from the mail: P19 (re-indexing), P17 (upgrades of old databases).
#include "model.h"
#include "target.h"
#include <algorithm>
#include <cstring>

namespace sim {

static SS marks (const std::string &b)
{
    SS r;
    for (size_t i = 0; (i = b.find ("zzmk", i)) != std::string::npos; ) {
	size_t e = i + 4;
	while (e < b.size () && isdigit ((unsigned char) b[e])) e++;
	r.insert (b.substr (i, e - i));
	i = e;
    }
    return r;
}

// a changed version of a message: same id and references
static std::string edit_def (Gen &g, const std::string &name, int &mark)
{
    for (auto &o : g.p.ops)
	if (o.verb == "msg" && o.a[0] == name) {
	    Op c = o;
	    if (c.a[1].compare (0, 12, "notmuch-sha1") == 0 && c.a[1].size () > 20 && c.a[2].find ("Message-ID") == std::string::npos) return "";
	    c.a[0] = fmt ("d%d", g.nm++);
	    std::string &b = c.a[2], m = fmt ("zzmk%d", ++mark);
	    // drop the mark of an earlier version
	    for (auto &old : marks (b)) {
		size_t i;
		while ((i = b.find (old)) != std::string::npos) b.replace (i, old.size (), "zzold");
	    }
	    size_t i;
	    if (g.r.pct (40)) b.insert (b.find ("Subject: ") + 9, m + " ");
	    else if ((i = b.find ("<p>")) != std::string::npos) b.insert (i + 3, m + " ");
	    else if ((i = b.find ("Content-Type: text/plain\n\n")) != std::string::npos) b.insert (i + 26, m + " ");
	    else b += m + "\n";
	    if (g.r.pct (15)) b += "\n" + std::string (g.r.range (1, 40) * 200, 'y') + "\n";
	    g.p.ops.push_back (c);
	    return c.a[0];
	}
    return "";
}

// ---------------------------------------------------------------- P19
struct P19 : TargetWorkload {
    P19 () { prop = "P19"; budget_quick = 45; budget_thorough = 400; }
    FaultMix mix () override { FaultMix m; m.err = m.sticky = m.kill = m.sig = m.shortio = true; return m; }
    SS todo;                          // the messages the query selects
    std::map<std::string, SS> found;  // mark -> messages it finds after the undisturbed run
    NmState S2;                       // after re-indexing everything
    Plan gen (Rng &r, int) override
    {
	Plan p;
	p.prop = prop;
	p.kind = "reindex";
	Gen g (r, p);
	g.start (rconf (r));
	int mark = 0;
	history (g, 6);
	// a part of the messages is rewritten, indexed or not
	auto rewrite = [&](int pct) {
	    for (auto &f : g.files)
		if (r.pct (pct)) {
		    std::string d = edit_def (g, f.second, mark);
		    if (d.empty ()) continue;
		    p.add ("put", { f.first, d });
		    f.second = d;
		}
	};
	if (r.pct (70)) {
	    rewrite (50);
	    p.ops.push_back (Op ("run", { "reindex", "*" }));
	}
	if (r.pct (60)) { // second files
	    for (int i = r.range (1, 3); i > 0 && ! g.files.empty (); i--) {
		std::string to = g.fname (r.of (g.dirs)), f = g.anyfile (), d = g.files[f];
		if (r.pct (50)) { std::string e = edit_def (g, d, mark); if (! e.empty ()) d = e; }
		p.add ("put", { to, d });
		g.files[to] = d;
	    }
	    g.adv ();
	    p.ops.push_back (new_op (r));
	}
	if (r.pct (60) && ! g.mids.empty ()) {
	    Op o ("lib", { "open rw" });
	    for (int i = r.range (1, 4); i > 0; i--) {
		std::string it = "m " + pct_enc (g.anymid ());
		for (int j = r.range (1, 3); j > 0; j--)
		    it += " prop " + r.of (VS{ "index.repaired mixedup", "index.x y", "session-key k1", "session-key k2", "key value1", "index value", "indexed v%3db", "index.decryption failure", "a%20b c%20d" });
		if (r.pct (30)) it += " +attachment";
		if (r.pct (20)) it += " +signed";
		if (r.pct (20)) it += " +encrypted";
		if (r.pct (20)) it += " -attachment";
		o.a.push_back (it);
	    }
	    p.ops.push_back (o);
	}
	tagging (g, r.below (3));
	rewrite (r.pct (80) ? 60 : 20);
	if (r.pct (40))
	    for (int i = r.range (1, 3); i > 0 && ! g.files.empty (); i--) {
		std::string f = g.anyfile ();
		p.add ("rm", { f });
		g.files.erase (f);
	    }
	Q q = rquery (g, r.below (3));
	if (r.pct (40)) { q = Q (); q.op = "all"; }
	p.par["query"] = pct_enc (q.str ());
	Op o ("run", { "reindex" });
	if (r.pct (30)) o.a.push_back ("--decrypt=" + r.of (VS{ "false", "false", "auto", "nostash" }));
	bool sexp = r.pct (20);
	if (sexp) o.a.push_back ("--query=sexp");
	o.a.push_back ("--");
	o.a.push_back (sexp ? q.sexp () : q.infix ());
	if (r.pct (60)) o.env.push_back (fmt ("XAPIAN_FLUSH_THRESHOLD=%d", r.range (1, 4)));
	p.add ("target", {});
	p.ops.push_back (o);
	return p;
    }
    static VS everything (const Op &o)
    {
	VS a = { "reindex" };
	for (auto &w : o.a) if (w.compare (0, 10, "--decrypt=") == 0) a.push_back (w);
	a.push_back ("*");
	return a;
    }
    bool setup (Exec &x, Plan &p) override
    {
	if (! x.w.fs.isdir (x.root + "/.notmuch")) return false;
	NmState s = x.observe ();
	todo = eval (qenv (x, s), Q::parse (pct_dec (p.get ("query"))));
	return true;
    }
    std::string bytes (Exec &x, const std::string &f) { std::string b; return x.w.fs.slurp (x.root + "/" + f, &b) ? b : ""; }
    void check_dry (Exec &x, Plan &p, Ctx &c) override
    {
	if (c.S0.status) { x.fail ("db", problems (c.S0)); return; }
	Op o = p.ops[target_index (p)];
	std::string what = "notmuch " + join (o.a);
	if (! c.dry.ok ()) { x.fail ("fails", "undisturbed: " + what + " " + c.dry.str () + " " + c.dry.err); return; }
	bool nokeys = false;
	for (auto &a : o.a) if (a == "--decrypt=false") nokeys = true;
	auto t = x.tree ();
	Model want = c.M0;
	std::map<std::string, SS> should; // mark -> messages
	for (auto i = want.begin (); i != want.end (); ) {
	    const std::string &id = i->first;
	    MM &m = i->second;
	    if (! todo.count (id)) { ++i; continue; }
	    SS keep;
	    for (auto &f : m.files) { ino_num n; if (x.w.fs.lookup (x.root + "/" + f, false, &n) == 0) keep.insert (f); }
	    if (keep.empty ()) { i = want.erase (i); continue; }
	    m.files = keep;
	    for (const char *a : { "attachment", "signed", "encrypted" }) m.tags.erase (a);
	    for (auto &f : keep) {
		std::string b = bytes (x, f);
		for (auto &k : marks (b)) should[k].insert (id);
		if (x.bybytes.count (b)) { auto &d = x.defs[x.bybytes[b]]; m.tags.insert (d.autotags.begin (), d.autotags.end ()); }
	    }
	    for (auto k = m.props.begin (); k != m.props.end (); )
		if (k->first.compare (0, 6, "index.") == 0 || nokeys && k->first == "session-key") k = m.props.erase (k); else ++k;
	    ++i;
	}
	std::string d = problems (c.S1);
	if (d.empty ()) d = diff_model (want, c.M1);
	if (! d.empty ()) { x.fail ("kept", "undisturbed " + what + ": " + d); return; }
	// threads
	for (auto &m : c.S1.msgs) if (m.second.thread != c.S0.msgs[m.first].thread) { x.fail ("threads", what + " moved message " + m.first + " to another thread"); return; }
	// the rest is as it was
	for (auto &m : c.S1.msgs)
	    if (! todo.count (m.first)) {
		auto &b = c.S0.msgs[m.first];
		if (m.second.fp != b.fp || m.second.vals != b.vals || m.second.subject != b.subject || m.second.from != b.from || m.second.date != b.date || m.second.lastmod != b.lastmod) { x.fail ("others", what + " changed message " + m.first + ", which the query does not select"); return; }
	    }
	// searches
	SS all;
	for (auto &def : x.defs) for (auto &k : marks (def.second.bytes)) all.insert (k);
	for (auto &k : all) {
	    ProcResult q = x.cmd ({ "search", "--output=messages", "--format=text0", "--exclude=false", k });
	    SS got;
	    for (auto &l : lines0 (q.out)) got.insert (l.compare (0, 3, "id:") ? l : l.substr (3));
	    for (auto i = got.begin (); i != got.end (); ) if (! todo.count (*i)) i = got.erase (i); else ++i;
	    if (got != should[k]) { x.fail ("search", "after " + what + " a search for " + k + " finds " + join (got) + " but the files of " + join (should[k]) + " contain it"); return; }
	}
	Snap s = x.snap ();
	// twice is once
	o.faults.clear ();
	ProcResult q = x.run (o);
	SS todo2 = eval (qenv (x, c.S1), Q::parse (pct_dec (p.get ("query"))));
	bool same = true;
	for (auto &i : todo2) if (! todo.count (i)) same = false;
	if (same) {
	    d = identical (c.S1, x.observe (), false);
	    if (! q.ok () || ! d.empty ()) { x.fail ("again", what + " a second time " + q.str () + ": " + d); return; }
	}
	x.restore (s);
	// the whole database; against one made from nothing
	q = x.cmd (everything (o));
	S2 = x.observe ();
	if (! q.ok () || ! (d = problems (S2)).empty ()) { x.fail ("fails", "notmuch reindex * " + q.str () + " " + q.err + d); return; }
	Model before = model_of (S2);
	q = x.cmd ({ "new", "--no-hooks" });
	if (! q.ok ()) { x.fail ("fails", "notmuch new " + q.str () + " " + q.err); return; }
	NmState S3 = x.observe ();
	d = diff_model (x.scan_model (before), model_of (S3), false);
	if (! d.empty ()) { x.fail ("scan", "the scan after notmuch reindex *: " + d); return; }
	tree_remove (x.w.fs, x.root + "/.notmuch/xapian");
	q = x.cmd ({ "new", "--no-hooks" });
	NmState F = x.observe ();
	for (auto &m : F.msgs) {
	    auto i = S2.msgs.find (m.first);
	    if (i == S2.msgs.end () || m.second.files.size () != 1 || i->second.files != m.second.files) continue;
	    x.stats->add ("chk.fresh");
	    if (m.second.fp != i->second.fp || m.second.vals != i->second.vals || m.second.subject != i->second.subject || m.second.from != i->second.from || m.second.date != i->second.date) {
		x.fail ("fresh", "after notmuch reindex * message " + m.first + " is indexed in another way than by a first scan");
		return;
	    }
	}
	x.restore (s);
    }
    // each message is as before or as after
    std::string mixed (const NmState &A, const NmState &B, const NmState &S)
    {
	auto same = [](const NmMsg &a, const NmMsg &b) {
	    return a.files == b.files && a.tags == b.tags && a.props == b.props && a.thread == b.thread && a.fp == b.fp && a.vals == b.vals && a.subject == b.subject && a.from == b.from && a.date == b.date;
	};
	for (auto &m : S.msgs) {
	    auto i = A.msgs.find (m.first), j = B.msgs.find (m.first);
	    if (i != A.msgs.end () && same (i->second, m.second)) continue;
	    if (j != B.msgs.end () && same (j->second, m.second)) continue;
	    Model a = model_of (A), b = model_of (B), s = model_of (S);
	    return "message " + m.first + " is neither as before nor as re-indexed: " + s[m.first].str () + "; before " + (a.count (m.first) ? a[m.first].str () : "absent") + "; after " + (b.count (m.first) ? b[m.first].str () : "absent");
	}
	for (auto &m : A.msgs) if (! S.msgs.count (m.first) && B.msgs.count (m.first)) return "message " + m.first + " is gone";
	return "";
    }
    void check (Exec &x, Plan &p, Ctx &c, const Op &target, const ProcResult &res) override
    {
	std::string what = "notmuch " + join (target.a) + " " + res.str () + " " + res.err;
	if (died (res)) { x.fail ("crash", what); return; }
	NmState S = x.observe (NM_RAW | NM_AUDIT);
	x.statehash = model_hash (S) * 31 + res.ok ();
	std::string d = problems (S);
	if (! d.empty ()) { x.fail ("db", what + ": " + d); return; }
	if (res.ok ()) {
	    d = identical (c.S1, S, false);
	    if (! d.empty ()) { x.fail ("ok", what + " but " + d); return; }
	    x.stats->add ("chk.success");
	    return;
	}
	x.stats->add (res.how == H_EXITED ? "chk.failure" : "chk.kill");
	d = mixed (c.S0, c.S1, S);
	if (! d.empty ()) { x.fail ("half", what + ": " + d); return; }
	ProcResult q = x.cmd (everything (target));
	if (! q.ok ()) { x.fail ("again", what + "; then notmuch reindex * " + q.str () + " " + q.err); return; }
	d = identical (S2, x.observe (), false);
	if (! d.empty ()) { x.fail ("again", what + "; after notmuch reindex * " + d); return; }
    }
};
// ---------------------------------------------------------------- P17
struct P17 : TargetWorkload {
    P17 () { prop = "P17"; budget_quick = 45; budget_thorough = 400; }
    FaultMix mix () override { FaultMix m; m.err = m.sticky = m.kill = m.sig = m.shortio = m.power = m.meta_kept = true; return m; }
    Snap pre;                         // before the database was made an old one
    size_t from = 0, at = 0;
    bool down = false, changes = false;
    NmState O, R;                     // with the present format: before and after the target
    std::string D;                    // its dump
    Plan gen (Rng &r, int) override
    {
	Plan p;
	p.prop = prop;
	p.kind = "upgrade";
	Gen g (r, p);
	Conf c = rconf (r);
	c.sync = false;
	g.start (c);
	bool single = r.pct (35);
	if (single) { // every message has one file: so the oldest format can hold it
	    for (int i = r.range (1, 6); i > 0; i--) {
		VS refs;
		for (int j = r.below (3); j > 0; j--) refs.push_back (! g.mids.empty () && r.pct (60) ? g.anymid () : fmt ("absent%d@sim", r.below (4)));
		g.deliver (g.msg (refs), r.pct (15) ? "plain/deep er" : r.of (g.dirs));
	    }
	    g.adv ();
	    p.ops.push_back (new_op (r));
	    tagging (g, r.below (3));
	} else history (g, 6);
	p.add ("adv", { "2500000000" });
	p.ops.push_back (new_op (r)); // the records are up to date
	std::string level = r.of (VS{ "0", "0", "1", "2", "2", "3l", "3g", "3gl", "3fgl", "3f" });
	if (! single && level == "0") level = "1";
	p.add ("down", { level });
	if (r.pct (35)) tagging (g, r.range (1, 2));
	if (r.pct (25)) {
	    p.add ("adv", { "2500000000" });
	    for (int i = r.range (1, 3); i > 0; i--) g.deliver (g.msg (g.mids.empty () || r.pct (50) ? VS{} : VS{ g.anymid () }), r.of (g.dirs));
	}
	p.add ("adv", { "2500000000" });
	Op o;
	if (r.pct (25)) {
	    o = Op ("lib", { "strict", "open rw", r.pct (50) ? "upgrade" : "upgrade progress" });
	    if (r.pct (60)) o.a.push_back ("destroy");
	} else {
	    o = Op ("run", { "new", "--no-hooks" });
	    if (r.pct (50)) o.a.push_back ("--quiet");
	}
	if (r.pct (60)) o.env.push_back (fmt ("XAPIAN_FLUSH_THRESHOLD=%d", r.range (1, 4)));
	p.add ("target", {});
	p.ops.push_back (o);
	down = false;
	return p;
    }
    void other (Exec &x, Plan &p, const Op &o) override
    {
	if (o.verb != "down") return;
	if (! x.w.fs.isdir (x.root + "/.notmuch")) return;
	pre = x.snap ();
	down = true;
	x.run (Op ("lib", { "downgrade " + o.a[0] }));
    }
    bool setup (Exec &x, Plan &p) override
    {
	if (! down) return false;
	down = false; // for the next plan
	int t = target_index (p);
	Snap s = x.snap ();
	x.restore (pre);
	bool seen = false;
	changes = false;
	for (int i = 0; i < t - 1; i++) {
	    if (p.ops[i].verb == "down") seen = true;
	    else if (seen) {
		x.apply (p.ops[i]);
		if (p.ops[i].verb != "run" && p.ops[i].verb != "adv" && p.ops[i].verb != "msg") changes = true;
	    }
	}
	O = x.observe (NM_RAW | NM_AUDIT);
	D = x.cmd ({ "dump" }).out;
	Op o = p.ops[t];
	o.faults.clear ();
	x.run (o);
	R = x.observe (NM_RAW | NM_AUDIT);
	x.restore (s);
	return problems (O).empty () && problems (R).empty ();
    }
    static bool is_new (const Op &o) { return o.verb == "run"; }
    static NmState plain (NmState s) { for (auto &m : s.msgs) m.second.vals = 0; s.version = 0; return s; }
    static NmState nodirs (NmState s) { s.dirs.clear (); return s; }
    static std::multiset<std::string> lines (const std::string &d) { std::multiset<std::string> r; for (auto &l : split (d, '\n')) r.insert (l); return r; }
    std::string backup (Exec &x)
    {
	std::string dir = "/sim/home/.local/share/notmuch/default/backups";
	if (! x.w.fs.isdir (dir)) dir = x.root + "/.notmuch/backups";
	int n = 0;
	if (x.w.fs.isdir (dir))
	    for (auto &f : x.w.fs.list (dir)) {
		if (f.size () < 3 || f.compare (f.size () - 3, 3, ".gz")) continue;
		std::string b;
		x.w.fs.slurp (dir + "/" + f, &b);
		n++;
		if (lines (gunzip (b)) == lines (D)) return "";
	    }
	return n ? "no backup holds all the tags" : "there is no backup";
    }
    void check_dry (Exec &x, Plan &p, Ctx &c) override
    {
	Op o = p.ops[target_index (p)];
	std::string what = (is_new (o) ? "notmuch " : "client ") + join (o.a), d = problems (c.S0);
	if (d.empty () && ! c.S0.needs_upgrade) d = "no upgrade needed";
	if (d.empty ()) d = diff_model (model_of (O), c.M0);
	for (auto &m : O.msgs) if (d.empty () && (m.second.thread != c.S0.msgs[m.first].thread || m.second.from != c.S0.msgs[m.first].from || m.second.subject != c.S0.msgs[m.first].subject || m.second.date != c.S0.msgs[m.first].date)) d = "message " + m.first + " has another thread or other headers";
	if (! d.empty ()) { x.fail ("old", "a database of the old format reads differently: " + d); return; }
	if (! c.dry.ok ()) { x.fail ("fails", "undisturbed: " + what + " " + c.dry.str () + " " + c.dry.err + c.dry.out); return; }
	d = problems (c.S1);
	if (d.empty () && c.S1.needs_upgrade) d = "the database still needs an upgrade";
	if (d.empty ()) d = identical (plain (R), plain (c.S1), false);
	if (d.empty () && R.uuid != c.S1.uuid) d = "the database identity changed";
	if (! d.empty ()) { x.fail ("upgrade", "undisturbed " + what + ": " + d); return; }
	if (is_new (o) && ! (d = backup (x)).empty ()) { x.fail ("backup", "after " + what + " " + d); return; }
	x.stats->add (changes ? "chk.changes" : "chk.plain");
    }
    void check (Exec &x, Plan &p, Ctx &c, const Op &target, const ProcResult &res) override
    {
	std::string what = (is_new (target) ? "notmuch " : "client ") + join (target.a) + " " + res.str () + " " + res.err + (is_new (target) ? "" : res.out);
	if (died (res)) { x.fail ("crash", what); return; }
	if (res.how == H_POWER) x.observe (); // (what is read first after the restart)
	NmState S = x.observe (NM_RAW | NM_AUDIT);
	x.statehash = model_hash (S) * 31 + res.ok () + 2 * S.needs_upgrade;
	std::string d = problems (S);
	if (! d.empty ()) { x.fail ("db", what + ": " + d); return; }
	if (res.ok ()) {
	    d = S.needs_upgrade ? "the database still needs an upgrade" : identical (c.S1, S, false);
	    if (! d.empty ()) { x.fail ("ok", what + " but " + d); return; }
	    if (is_new (target) && ! (d = backup (x)).empty ()) { x.fail ("backup", "after " + what + " " + d); return; }
	    x.stats->add ("chk.success");
	    return;
	}
	x.stats->add (S.needs_upgrade ? "chk.still_old" : "chk.upgraded");
	if (S.needs_upgrade) d = identical (c.S0, S);
	else if (! changes) d = identical (nodirs (c.S1), nodirs (S), false);
	else d = between (O, c.S1, S, true);
	if (! d.empty ()) { x.fail ("half", what + ", the database " + (S.needs_upgrade ? "still of the old format: " : "upgraded: ") + d); return; }
	if (is_new (target) && ! S.needs_upgrade && ! (d = backup (x)).empty ()) { x.fail ("backup", "the database is upgraded after " + what + " but " + d); return; }
	Op o = target;
	o.faults.clear ();
	x.w.clock += 2500000000LL;
	ProcResult q = x.run (o);
	if (! q.ok ()) { x.fail ("again", what + "; then the same again " + q.str () + " " + q.err + (is_new (target) ? "" : q.out)); return; }
	S = x.observe (NM_RAW | NM_AUDIT);
	d = problems (S);
	if (d.empty () && S.needs_upgrade) d = "the database still needs an upgrade";
	if (d.empty ()) d = changes ? diff_model (c.M1, model_of (S), false) : identical (c.S1, S, false);
	if (! d.empty ()) { x.fail ("again", what + "; after the same again " + d); return; }
    }
};

static P17 p17;
static P19 p19;
Workload *workload_derive (const std::string &prop, const std::string &)
{
    return prop == "P19" ? (Workload *) &p19 : prop == "P17" ? &p17 : nullptr;
}

}
