// Workloads of library clients: P12 (atomic sections), P11 (change tracking), P10 (threads).
#include "model.h"
#include "target.h"
#include <algorithm>
#include <cstring>

namespace sim {

static bool is_commit (Sys k, const std::string &path) { return k == S_RENAME && path.find ("/.notmuch/xapian/") != std::string::npos && path.find ("iamglass") != std::string::npos; }
static std::string verb_of (const std::string &item) { return item.substr (0, item.find (' ')); }

// ---------------------------------------------------------------- P12
// What a script does, sections undone that were left: the operations that count, and after which of them others may see the database.
struct Script {
    VS eff;                  // operations
    std::vector<int> cuts;   // numbers of operations after which the state may be committed
    std::vector<int> item;   // script item of each operation
    SS gone;                 // items ("number") in sections that were left
    bool open_end = false;   // the end may lose what was not yet committed
};
static Script reading (const VS &items)
{
    Script s;
    int depth = 0;
    size_t start = 0;
    VS buf;
    std::vector<int> bufi;
    s.cuts.push_back (0);
    auto leave = [&]() { for (int i : bufi) s.gone.insert (std::to_string (i)); buf.clear (); bufi.clear (); depth = 0; };
    (void) start;
    for (size_t i = 0; i < items.size (); i++) {
	std::string v = verb_of (items[i]);
	if (v == "strict" || v == "open" || v == "rev" || v == "look" || v == "q") continue;
	if (v == "begin") { depth++; continue; }
	if (v == "end") {
	    if (depth > 0 && --depth == 0) {
		s.eff.insert (s.eff.end (), buf.begin (), buf.end ());
		s.item.insert (s.item.end (), bufi.begin (), bufi.end ());
		s.cuts.push_back (s.eff.size ());
		buf.clear ();
		bufi.clear ();
	    }
	    continue;
	}
	if (v == "close" || v == "destroy" || v == "reopen" || v == "quit") {
	    if (v == "quit") { s.open_end = true; leave (); break; }
	    leave ();
	    continue;
	}
	if (depth > 0) { buf.push_back (items[i]); bufi.push_back (i); }
	else { s.eff.push_back (items[i]); s.item.push_back (i); s.cuts.push_back (s.eff.size ()); }
    }
    leave ();
    return s;
}

// directory records may be made for nothing
static std::string differ (const NmState &a, const NmState &b) { NmState x = a, y = b; x.dirs.clear (); y.dirs.clear (); return identical (x, y, false); }

struct P12 : TargetWorkload {
    P12 () { prop = "P12"; budget_quick = 50; budget_thorough = 400; }
    FaultMix mix () override { FaultMix m; m.err = m.sticky = m.kill = m.shortio = m.power = m.meta_kept = true; return m; }
    struct Commit { FS fs; int ops; };
    std::vector<Commit> commits;
    std::vector<NmState> allowed;
    Script sc;
    bool loose = false;

    int ntag = 0;
    VS unscanned;
    std::string one (Gen &g, bool section) // one operation
    {
	Rng &r = g.r;
	int k = r.below (100);
	auto tag = [&]() { return "+" + (loose ? fmt ("t%d", ntag++) : r.pct (30) ? fmt ("t%d", ntag++) : pct_enc (g.anytag ())); };
	auto untag = [&]() { return "-" + pct_enc (g.anytag ()); };
	if (k < 50 || (loose && k < 75)) {
	    std::string it = "m " + pct_enc (g.anymid ());
	    if (! section && ! loose && r.pct (40)) it += " freeze";
	    bool fr = it.find (" freeze") != std::string::npos;
	    if (loose) return it + " " + tag ();
	    it += " " + (r.pct (70) ? tag () : untag ());
	    if (section || fr) {
		for (int i = r.below (4); i > 0; i--) {
		    int q = r.below (10);
		    if (q < 4) it += " " + tag ();
		    else if (q < 6) it += " " + untag ();
		    else if (q < 7) it += " clear";
		    else if (section && q < 9) it += " prop " + fmt ("k%d v%d", r.below (3), r.below (5));
		    else if (section) it += " noprops";
		}
	    }
	    if (fr) it += " thaw";
	    return it;
	}
	if (k < 62 && section) return "each " + r.of (VS{ "*", "tag:inbox", "not%20tag:unread" }) + " " + tag () + (r.pct (50) ? " " + untag () : "");
	if (k < 75 && ! unscanned.empty ()) {
	    std::string f = unscanned.back ();
	    if (r.pct (80)) unscanned.pop_back ();
	    return "index " + pct_enc (f) + (section && r.pct (60) ? " " + tag () + " +inbox" : "");
	}
	if (k < 82 && ! loose && section) return "reindex " + pct_enc (g.anymid ());
	if (k < 90 && ! loose && section && ! g.files.empty ()) return "remove " + pct_enc (g.anyfile ());
	return "cfg " + fmt ("k%d v%d", r.below (3), r.below (9));
    }
    void section (Gen &g, VS &s, int depth)
    {
	Rng &r = g.r;
	s.push_back ("begin");
	for (int i = r.range (0, depth ? 2 : 5); i > 0; i--) {
	    if (depth < 3 && r.pct (20)) section (g, s, depth + 1);
	    else s.push_back (one (g, true));
	}
	s.push_back ("end");
    }
    Plan gen (Rng &r, int) override
    {
	Plan p;
	p.prop = prop;
	Gen g (r, p);
	loose = r.pct (30);
	p.kind = loose ? "loose" : "strict";
	Conf c = rconf (r);
	c.sync = false;
	if (r.pct (25)) c.extra += fmt ("\n[database]\nautocommit=%d\n", r.range (1, 4));
	g.start (c);
	initial (g, 2, 6);
	g.adv ();
	p.ops.push_back (new_op (r));
	tagging (g, r.below (3));
	unscanned.clear ();
	ntag = 0;
	auto known = g.files;
	for (int i = r.below (5); i > 0; i--) unscanned.push_back (g.deliver (r.pct (25) ? g.copy_def (r.of (g.names)) : g.msg (r.pct (60) ? VS{ g.anymid () } : VS ()), r.of (g.dirs)));
	g.files = known;
	if (r.pct (10)) { std::string f = "new/nomail"; p.add ("put", { f, "this is no mail\n" }); unscanned.push_back (f); }
	Op o ("lib", {});
	VS &s = o.a;
	std::string rw = "open rw";
	if (! loose) s.push_back ("strict");
	if (r.pct (40)) rw = "open rw conf";
	s.push_back (rw);
	bool pending = false; // changes that may not be committed yet
	for (int n = r.range (1, 5); n > 0; n--) {
	    int k = r.below (100);
	    if (k < 25) { s.push_back (one (g, false)); pending = true; }
	    else if (k < 70) { section (g, s, 0); pending = true; }
	    else { // a section that is left
		if (pending) s.push_back ("reopen rw");
		if (r.pct (20)) section (g, s, 0), s.push_back ("reopen rw");
		VS t;
		section (g, t, 0);
		int b = 0, cut = r.range (1, t.size () - 1);
		for (int i = 0; i < cut; i++) { b += t[i] == "begin" ? 1 : t[i] == "end" ? -1 : 0; s.push_back (t[i]); }
		(void) b;
		switch (r.below (6)) {
		case 0: case 1: s.push_back ("reopen rw"); break;
		case 2: s.push_back ("destroy"); s.push_back (rw); break;
		case 3: s.push_back ("close"); s.push_back ("reopen rw"); break;
		case 4: s.push_back ("reopen ro"); s.push_back ("reopen rw"); break;
		default: s.push_back ("close"); s.push_back ("destroy"); s.push_back (rw); break;
		}
		pending = false;
	    }
	}
	if (r.pct (15)) { // the end without a word
	    if (r.pct (60)) { s.push_back ("begin"); s.push_back (one (g, true)); }
	    s.push_back ("quit");
	}
	if (r.pct (70)) o.env.push_back (fmt ("XAPIAN_FLUSH_THRESHOLD=%d", r.of (std::vector<int>{ 1, 1, 2, 3, 5 })));
	p.add ("target", {});
	p.ops.push_back (o);
	return p;
    }
    void watch (Exec &x)
    {
	commits.clear ();
	commits.push_back ({ x.w.fs, 0 });
	x.w.after_step = [this, &x](Node *n, Sys k, const std::string &path) {
	    if (n->quiet || ! is_commit (k, path)) return;
	    commits.push_back ({ x.w.fs, (int) std::count (n->res.out.begin (), n->res.out.end (), '\n') });
	};
    }
    // every committed state is one of those allowed, in order; returns the number of the last
    int follow (Exec &x, const std::string &what, const NmState &S, int at = 0)
    {
	for (size_t k = at; k < allowed.size (); k++)
	    if (differ (allowed[k], S).empty ()) return k;
	std::string d = allowed.empty () ? "" : differ (allowed[std::min<size_t> (at, allowed.size () - 1)], S), e = differ (allowed.back (), S);
	for (int k = 0; k < at; k++) if (differ (allowed[k], S).empty ()) { x.fail ("rewound", what + fmt (": the database is back at step %d of %d, after step %d: ", k, (int) allowed.size () - 1, at) + d); return -1; }
	x.fail ("half", what + ": no state between the sections; compared with the last one before: " + d + "; with the last of all: " + e);
	return -1;
    }
    int check_commits (Exec &x, const std::string &what)
    {
	x.stats->add ("chk.commits", commits.size ());
	int at = 0;
	for (size_t i = 1; i < commits.size (); i++) {
	    NmState S = x.observe_fs (commits[i].fs);
	    std::string d = problems (S);
	    if (! d.empty ()) { x.fail ("db", what + fmt (": commit %d: ", (int) i) + d); return -1; }
	    at = follow (x, what + fmt (": commit %d", (int) i), S, at);
	    if (at < 0) return -1;
	}
	return at;
    }
    static std::string text (const Op &o) { std::string s; for (auto &i : o.a) s += (s.empty () ? "" : "; ") + i; return s.substr (0, 1500); }
    bool setup (Exec &x, Plan &p) override
    {
	loose = p.kind == "loose";
	const Op &t = p.ops[target_index (p)];
	sc = reading (t.a);
	allowed.clear ();
	watch (x);
	return true;
    }
    void check_dry (Exec &x, Plan &p, Ctx &c) override
    {
	x.w.after_step = nullptr;
	const Op &t = p.ops[target_index (p)];
	std::string what = "client " + text (t) + " " + c.dry.str () + "\n" + c.dry.out + c.dry.err;
	if (! c.dry.ok ()) { x.fail ("fails", what); return; }
	// the same without sections, up to each place between them
	std::vector<Commit> mine;
	std::swap (mine, commits);
	for (int n : sc.cuts) {
	    if (loose && n != (int) sc.eff.size ()) continue;
	    x.restore (c.s0);
	    Op o ("lib", { "strict", "open rw" });
	    o.a.insert (o.a.end (), sc.eff.begin (), sc.eff.begin () + n);
	    ProcResult r = x.run (o);
	    if (! r.ok ()) { x.fail ("reference", "client " + text (o) + " " + r.str () + " " + r.out + r.err); return; }
	    allowed.push_back (x.observe ());
	}
	x.restore (c.s1);
	std::swap (mine, commits);
	std::string d = problems (c.S1);
	if (! d.empty ()) { x.fail ("db", what + ": " + d); return; }
	if (! sc.open_end) { d = differ (allowed.back (), c.S1); if (! d.empty ()) { x.fail ("effect", what + ": " + d); return; } }
	if (loose) loose_checks (x, what, c, t, c.dry, c.S1);
	else {
	    int at = check_commits (x, what);
	    if (at >= 0) follow (x, what, c.S1, at);
	}
	watch (x);
    }
    void check (Exec &x, Plan &p, Ctx &c, const Op &target, const ProcResult &res) override
    {
	x.w.after_step = nullptr;
	std::string what = "client " + text (target) + " " + res.str () + "\n" + res.out + res.err;
	if (died (res)) { x.fail ("crash", what); return; }
	NmState S = x.observe (NM_RAW | NM_AUDIT);
	x.statehash = model_hash (S);
	std::string d = problems (S);
	if (! d.empty ()) { x.fail ("db", what + ": " + d); return; }
	if (loose) loose_checks (x, what, c, target, res, S);
	else {
	    int at = check_commits (x, what);
	    if (at >= 0) at = follow (x, what, S, at);
	    if (at >= 0 && res.ok () && ! sc.open_end) {
		d = differ (allowed.back (), S);
		if (! d.empty ()) x.fail ("not-all", what + ": " + d);
	    }
	}
	watch (x); // for the next one
    }
    // a client that goes on after errors
    void loose_checks (Exec &x, const std::string &what, Ctx &c, const Op &target, const ProcResult &res, const NmState &S)
    {
	struct Line { std::string verb, item; bool ok; int depth; int n; };
	std::vector<Line> l;
	VS log = split (res.out, '\n');
	std::vector<int> of; // items that are logged
	for (size_t i = 0; i < target.a.size (); i++) { std::string v = verb_of (target.a[i]); if (v != "strict" && v != "sleep" && v != "quit") of.push_back (i); else if (v == "quit") break; }
	int depth = 0;
	bool judge = true, ended = false;
	for (auto &e : log) {
	    VS w = split (e, ' ');
	    if (w.size () < 2) continue;
	    if (w[0] == "end") { ended = w[1] == "ok"; continue; }
	    size_t k = l.size ();
	    if (k >= of.size () || w.size () < 3 || w[1] != verb_of (target.a[of[k]])) { x.fail ("log", "unexpected log " + what); return; }
	    bool ok = w[2] == "ok";
	    l.push_back ({ w[1], target.a[of[k]], ok, depth, of[k] });
	    if (e.find (" absent") != std::string::npos) l.back ().item = "absent";
	    if (w[1] == "begin" || w[1] == "end" || w[1] == "open" || w[1] == "reopen" || w[1] == "close" || w[1] == "destroy") if (! ok) judge = false;
	    if (w[1] == "begin") depth++;
	    else if (w[1] == "end") depth--;
	    else if (w[1] == "reopen" || w[1] == "close" || w[1] == "destroy") depth = 0;
	    if (! judge) break;
	}
	// nothing appears in the middle of a section
	NmState last = c.S0;
	for (size_t i = 1; i < commits.size (); i++) {
	    size_t k = commits[i].ops;     // during this operation
	    NmState T = x.observe_fs (commits[i].fs);
	    std::string d = problems (T);
	    if (! d.empty ()) { x.fail ("db", what + fmt (": commit %d: ", (int) i) + d); return; }
	    int dep = k < l.size () ? l[k].depth : judge ? depth : -1;
	    std::string v = k < l.size () ? l[k].verb : k < of.size () && judge ? verb_of (target.a[of[k]]) : "";
	    bool ends = v == "end" && dep == 1;
	    if (dep > 0 && ! ends) {
		d = differ (last, T);
		if (! d.empty ()) { x.fail ("early", what + fmt (": operation %d (%s) inside a section made changes visible: ", (int) k, v.c_str ()) + d); return; }
	    }
	    last = T;
	}
	// what was left is not there; what was done without an error later is
	if (! judge) return;
	int lasterr = -1;
	for (size_t i = 0; i < l.size (); i++) if (! l[i].ok) lasterr = i;
	for (size_t i = 0; i < l.size (); i++) {
	    if (l[i].verb != "m" || l[i].item == "absent") continue;
	    VS w = split (l[i].item, ' ');
	    std::string id = pct_dec (w[1]), tag;
	    for (auto &e : w) if (e[0] == '+') tag = e.substr (1);
	    auto m = S.msgs.find (id);
	    bool there = m != S.msgs.end () && m->second.tags.count (tag), left = sc.gone.count (std::to_string (l[i].n));
	    if (left && there) { x.fail ("left", what + ": tag " + tag + " of a section that was left is there"); return; }
	    if (ended && (int) i > lasterr && l[i].ok && ! left && ! there) { x.fail ("lost", what + ": tag " + tag + " of message " + id + " is not there"); return; }
	}
    }
};

// ---------------------------------------------------------------- P10
typedef std::map<std::string, int> Parts; // message id -> part
static std::string canon (const std::string &id) { return id.size () > 200 ? "notmuch-sha1-" + sha1_hex (id + std::string (1, 0)) : id; }

// parts of messages that are connected through the ids they name
static Parts components (const std::map<std::string, SS> &refs)
{
    std::map<std::string, std::string> up;
    std::function<std::string (const std::string &)> root = [&](const std::string &a) { std::string r = a; while (up.count (r) && up[r] != r) r = up[r]; return r; };
    for (auto &m : refs)
	for (auto &e : m.second) { std::string a = root (m.first), b = root (e); if (a != b) up[a] = b; }
    Parts p;
    std::map<std::string, int> n;
    for (auto &m : refs) { std::string a = root (m.first); if (! n.count (a)) { int k = n.size (); n[a] = k; } p[m.first] = n[a]; }
    return p;
}
static Parts thread_parts (const NmState &s)
{
    Parts p;
    std::map<std::string, int> n;
    for (auto &m : s.msgs) { if (! n.count (m.second.thread)) { int k = n.size (); n[m.second.thread] = k; } p[m.first] = n[m.second.thread]; }
    return p;
}
// messages of one part of a are in one part of b
static std::string refines (const Parts &a, const Parts &b)
{
    std::map<int, std::pair<int, std::string>> to;
    for (auto &m : a) {
	auto i = b.find (m.first);
	if (i == b.end ()) continue;
	auto j = to.find (m.second);
	if (j == to.end ()) to[m.second] = { i->second, m.first };
	else if (j->second.first != i->second) return j->second.second + " and " + m.first;
    }
    return "";
}

struct P10 : TargetWorkload {
    P10 () { prop = "P10"; budget_quick = 30; budget_thorough = 300; }
    FaultMix mix () override { FaultMix m; m.err = m.sticky = m.kill = m.sig = m.power = m.meta_kept = true; return m; }
    VS ids;
    std::map<std::string, std::string> bodies;
    std::string message (Gen &g, const std::string &id, const VS &refs, const VS &reply)
    {
	Rng &r = g.r;
	auto br = [&](const std::string &e) { return r.pct (5) ? "< " + e + " >" : "<" + e + ">"; };
	std::string h = fmt ("From: u%d@example.org\nTo: sim@example.org\nSubject: %ssubject %d\n", r.below (4), r.pct (50) ? "Re: " : "", r.below (5));
	h += fmt ("Date: %02d Feb 20%02d %02d:00:00 +0000\n", r.range (1, 28), r.range (1, 19), r.below (24));
	h += "Message-ID: " + br (id) + "\n";
	if (! refs.empty ()) {
	    h += "References:";
	    static const VS seps = { " ", "\n ", "\n\t", " (note) ", ", ", " and " };
	    for (auto &e : refs) h += (r.pct (75) ? " " : r.of (seps)) + br (e);
	    h += "\n";
	}
	if (! reply.empty ()) {
	    h += "In-Reply-To: ";
	    bool text = r.pct (15);
	    if (text) h += "Your message of Monday ";
	    for (auto &e : reply) h += br (e) + (r.pct (20) ? " (your mail)" : "");
	    h += "\n";
	}
	std::string name = fmt ("x%d", g.nm++);
	VS a = { name, canon (id), h + fmt ("\nbody %d\n", g.nm) };
	for (auto &e : refs) a.push_back (canon (e));
	for (auto &e : reply) a.push_back (canon (e));
	g.p.add ("msg", a);
	g.names.push_back (name);
	return name;
    }
    std::string some (Gen &g)
    {
	Rng &r = g.r;
	std::string id = r.of (ids);
	VS refs, reply;
	int n = r.of (std::vector<int>{ 0, 0, 1, 1, 1, 2, 3, 5 });
	for (int i = 0; i < n; i++) refs.push_back (r.pct (8) ? id : r.of (ids));
	if (r.pct (60)) reply.push_back (r.pct (70) && n ? refs.back () : r.pct (10) ? id : r.of (ids));
	if (r.pct (5)) reply.push_back (r.of (ids));
	if (reply.size () && r.pct (15)) refs.clear ();
	return message (g, id, refs, reply);
    }
    Op add_op (Gen &g, const std::string &name)
    {
	Op o ("run", { "insert" });
	if (g.r.pct (30)) o.a.push_back ("--folder=" + g.r.of (g.dirs));
	for (auto &q : g.p.ops) if (q.verb == "msg" && q.a[0] == name) o.in = q.a[2];
	return o;
    }
    Plan gen (Rng &r, int) override
    {
	Plan p;
	p.prop = prop;
	Gen g (r, p);
	Conf c = rconf (r);
	if (r.pct (70)) c.sync = false;
	c.ignore.clear ();
	g.start (c);
	bool shrink = r.pct (40);
	p.kind = shrink ? "shrink" : "grow";
	ids.clear ();
	int n = r.range (2, 9);
	for (int i = 0; i < n; i++) {
	    int k = r.below (16);
	    ids.push_back (k == 0 ? std::string (r.pct (25) ? r.range (120, 170) : r.range (240, 270), 'l') + fmt ("%d@sim", i) : k == 1 ? fmt ("odd+%d/=%%'\"@sim", i) : k == 2 ? fmt ("T%d@sim", i / 2) : k == 3 ? fmt ("par(en%d)@sim", i) : fmt ("t%d@sim", i));
	}
	std::map<std::string, std::string> files;
	auto batch = [&](int k) {
	    for (; k > 0; k--) {
		std::string nm = g.names.empty () || r.pct (85) ? some (g) : r.of (g.names);
		g.deliver (nm, r.of (g.dirs));
	    }
	    g.adv ();
	    g.p.add ("adv", { "2500000000" });
	};
	Op o;
	if (r.pct (6)) { // long threads that come together
	    int len = r.range (20, 120);
	    for (int i = 0; i < len; i++) g.deliver (message (g, fmt ("long%d@sim", i), { fmt ("long%d@sim", i < 2 ? i : i - 2) }, {}), r.of (g.dirs));
	    g.adv ();
	    p.ops.push_back (new_op (r));
	    std::string nm = message (g, "joint@sim", { "long0@sim", "long1@sim" }, {});
	    o = add_op (g, nm);
	    p.kind = "grow";
	    shrink = false;
	} else {
	    batch (r.range (1, 4));
	    p.ops.push_back (new_op (r));
	    for (int i = r.below (4); i > 0; i--) {
		if (r.pct (40)) { p.ops.push_back (add_op (g, some (g))); continue; }
		batch (r.range (1, 4));
		p.ops.push_back (new_op (r));
	    }
	    auto drop = [&]() {
		for (int i = r.range (1, 3); i > 0 && ! g.files.empty (); i--) { std::string f = g.anyfile (); p.add ("rm", { f }); g.files.erase (f); }
		g.p.add ("adv", { "2500000000" });
	    };
	    if (shrink) {
		for (int i = r.below (3); i > 0; i--) {
		    drop ();
		    p.ops.push_back (r.pct (70) ? new_op (r) : Op ("run", { "reindex", "*" }));
		    if (r.pct (40)) { batch (r.range (1, 3)); p.ops.push_back (new_op (r)); }
		}
		if (r.pct (70)) drop ();
		if (r.pct (30)) batch (r.range (1, 3));
		o = r.pct (55) ? new_op (r) : Op ("run", { "reindex", r.of (VS{ "*", "id:" + std::string ("t0@sim"), "tag:inbox", "tag:unread" }) });
	    } else if (r.pct (40)) o = add_op (g, some (g));
	    else { batch (r.range (1, 5)); o = new_op (r); }
	}
	if (o.env.empty () && r.pct (60)) o.env.push_back (fmt ("XAPIAN_FLUSH_THRESHOLD=%d", r.range (1, 4)));
	p.add ("target", {});
	p.ops.push_back (o);
	return p;
    }
    bool setup (Exec &x, Plan &p) override
    {
	for (auto &o : p.ops)
	    if (o.verb == "run" && ! o.in.empty ()) {
		bool known = false;
		for (auto &m : p.ops) known = known || (m.verb == "msg" && m.a[2] == o.in);
		if (! known) return false;
	    }
	return x.w.fs.isdir (x.root + "/.notmuch");
    }
    // content of a message file, which may have been renamed for other flags
    static bool content (Exec &x, const FS &fs, const std::string &f, std::string *b)
    {
	if (fs.slurp (x.root + "/" + f, b)) return true;
	size_t at = f.rfind ('/');
	std::string base = f.substr (at == std::string::npos ? 0 : at + 1), dir = at == std::string::npos ? "" : f.substr (0, at);
	base = base.substr (0, base.find (":2,"));
	VS dirs = { dir };
	size_t up = dir.rfind ('/');
	std::string leaf = dir.substr (up == std::string::npos ? 0 : up + 1), parent = up == std::string::npos ? "" : dir.substr (0, up + 1);
	if (leaf == "new") dirs.push_back (parent + "cur");
	for (auto &d : dirs)
	    for (auto &e : fs.list (x.root + "/" + d))
		if (e.substr (0, e.find (":2,")) == base && fs.slurp (x.root + "/" + d + "/" + e, b)) return true;
	return false;
    }
    // what the messages there name now; and what they ever named
    std::string judge (Exec &x, const FS &fs, const NmState &s, bool exact)
    {
	std::map<std::string, SS> cur, all;
	for (auto &m : s.msgs) {
	    cur[m.first];
	    for (auto &f : m.second.files) {
		std::string b;
		if (! content (x, fs, f, &b)) continue;
		auto d = x.bybytes.find (b);
		if (d == x.bybytes.end ()) return "the file " + f + " is none that was delivered";
		for (auto &e : x.defs.at (d->second).refs) cur[m.first].insert (e);
	    }
	}
	for (auto &d : x.defs) all[d.second.mid].insert (d.second.refs.begin (), d.second.refs.end ());
	Parts c = components (cur), t = thread_parts (s), a = components (all);
	std::string d = refines (c, t);
	if (! d.empty ()) return d + " are connected, but in different threads: " + thread_key (s);
	d = refines (t, exact ? c : a);
	if (! d.empty ()) return d + " are in one thread, but " + (exact ? "not connected: " : "never were connected: ") + thread_key (s);
	return "";
    }
    static void tree (const J &j, std::vector<std::string> *out)
    {
	if (j.t == 'o') { const J *i = j.get ("id"); if (i && i->t == 's') out->push_back (i->s); return; }
	if (j.t == 'a') for (auto &e : j.v) tree (e, out);
    }
    // each message of a thread appears in it exactly once
    std::string shown (Exec &x, const NmState &s)
    {
	// (notmuch show needs the files)
	for (auto &m : s.msgs) {
	    bool any = false;
	    for (auto &f : m.second.files) { std::string b; any = any || x.w.fs.slurp (x.root + "/" + f, &b); }
	    if (! any) return "";
	}
	ProcResult r = x.cmd ({ "show", "--format=json", "--body=false", "--entire-thread=true", "--exclude=false", "*" });
	J j;
	if (! r.ok () || ! json_parse (r.out, &j) || j.t != 'a') return "notmuch show " + r.str () + " " + r.err;
	std::map<std::string, int> seen;
	SS threads;
	for (auto &th : j.v) {
	    std::vector<std::string> l;
	    tree (th, &l);
	    std::string t;
	    for (auto &id : l) {
		if (seen[id]++) return "notmuch show prints message " + id + " twice";
		auto m = s.msgs.find (id);
		if (m == s.msgs.end ()) return "notmuch show prints the unknown message " + id;
		if (t.empty ()) t = m->second.thread;
		else if (t != m->second.thread) return "notmuch show puts message " + id + " into another thread";
	    }
	    if (! l.empty () && ! threads.insert (t).second) return "notmuch show prints the thread of " + l[0] + " twice";
	}
	for (auto &m : s.msgs) if (! seen.count (m.first)) return "notmuch show does not print message " + m.first;
	r = x.cmd ({ "search", "--format=json", "--exclude=false", "*" });
	if (! r.ok () || ! json_parse (r.out, &j)) return "notmuch search " + r.str () + " " + r.err;
	std::map<std::string, int> n;
	for (auto &m : s.msgs) n[m.second.thread]++;
	std::map<std::string, int> got;
	for (auto &e : j.v) { const J *t = e.get ("thread"), *k = e.get ("total"); if (t && k) got[t->s] = (int) k->n; }
	if (n != got) return "notmuch search counts other numbers of messages in the threads";
	return "";
    }
    void check_dry (Exec &x, Plan &p, Ctx &c) override
    {
	std::string what = "notmuch " + join (p.ops[target_index (p)].a) + " " + c.dry.str () + " " + c.dry.err;
	bool exact = p.kind == "grow";
	std::string d = problems (c.S0);
	if (d.empty ()) d = judge (x, c.s0.fs, c.S0, exact);
	if (d.empty ()) d = problems (c.S1);
	if (! d.empty ()) { x.fail ("db", what + ": " + d); return; }
	d = judge (x, x.w.fs, c.S1, exact);
	if (! d.empty ()) { x.fail ("threads", what + ": " + d); return; }
	d = shown (x, c.S1);
	if (! d.empty ()) x.fail ("shown", what + ": " + d);
    }
    void check (Exec &x, Plan &p, Ctx &, const Op &target, const ProcResult &res) override
    {
	std::string what = "notmuch " + join (target.a) + " " + res.str () + " " + res.err;
	if (died (res)) { x.fail ("crash", what); return; }
	bool exact = p.kind == "grow";
	NmState S = x.observe (NM_RAW | NM_AUDIT);
	x.statehash = model_hash (S) ^ fnv (thread_key (S));
	std::string d = problems (S);
	if (! d.empty ()) { x.fail ("db", what + ": " + d); return; }
	d = judge (x, x.w.fs, S, exact && (res.how == H_KILLED || res.how == H_POWER || res.ok ()));
	if (! d.empty ()) { x.fail ("threads", what + ": " + d); return; }
	x.w.clock += 2500000000LL;
	ProcResult r = x.cmd ({ "new", "--full-scan" });
	if (! r.ok ()) { x.fail ("again", what + "; then notmuch new " + r.str () + " " + r.err); return; }
	S = x.observe ();
	d = problems (S);
	if (d.empty ()) d = judge (x, x.w.fs, S, exact);
	if (! d.empty ()) { x.fail ("threads", what + "; after another notmuch new: " + d); return; }
	if (x.statehash % 8 == 0) {
	    d = shown (x, S);
	    if (! d.empty ()) x.fail ("shown", what + "; after another notmuch new: " + d);
	}
    }
};

// ---------------------------------------------------------------- P11
struct P11 : Workload {
    P11 () { prop = "P11"; }
    int ntag = 0;
    void faults (Rng &r, Op &o, int pct)
    {
	if (! r.pct (pct)) return;
	Fault f;
	f.at = r.range (1, r.of (std::vector<int>{ 60, 200, 600 }));
	int k = r.below (10);
	f.kind = k < 4 ? F_KILL : k < 6 ? F_ERR : k < 8 ? F_STICKY : k < 9 ? F_SHORT : F_SIGINT;
	f.arg = f.kind == F_KILL ? 9 : f.kind == F_SHORT ? r.range (0, 3) : f.kind == F_SIGINT ? 2 : r.of (std::vector<int>{ 0, 28, 5 });
	o.faults.push_back (f);
    }
    // a client that changes messages and looks at the revision
    Op client (Gen &g)
    {
	Rng &r = g.r;
	Op o ("lib", { "strict", "open rw" });
	int depth = 0;
	for (int i = r.range (2, 9); i > 0; i--) {
	    int k = r.below (10);
	    if (k < 3) o.a.push_back ("rev");
	    else if (k < 4) { o.a.push_back ("begin"); depth++; }
	    else if (k < 5 && depth) { o.a.push_back ("end"); depth--; }
	    else {
		std::string it = "m " + pct_enc (g.anymid ());
		bool fr = r.pct (25);
		if (fr) it += " freeze";
		it += fmt (" +t%d", ntag++);
		if (r.pct (30)) it += r.of (VS{ " prop k v", " noprops", " -inbox", " clear +again" });
		if (fr) it += " thaw";
		o.a.push_back (it);
	    }
	}
	while (depth-- > 0) o.a.push_back ("end");
	o.a.push_back ("rev");
	if (r.pct (60)) o.env.push_back (fmt ("XAPIAN_FLUSH_THRESHOLD=%d", r.range (1, 4)));
	return o;
    }
    Op poller (Rng &r)
    {
	Op o ("lib", { "open ro" });
	for (int i = r.range (1, 6); i > 0; i--) {
	    o.a.push_back ("since");
	    if (r.pct (70)) o.a.push_back (fmt ("sleep %d", r.range (1, 5000)));
	    o.a.push_back ("reopen ro");
	}
	o.a.push_back ("since");
	o.a.push_back ("sleep 60000000");
	o.a.push_back ("reopen ro");
	o.a.push_back ("since");
	o.a.push_back ("look *");
	if (r.pct (40)) o.delay = r.range (1, 600);
	if (r.pct (40)) stall (r, o, 10, 100);
	return o;
    }
    Plan gen (Rng &r, int) override
    {
	Plan p;
	p.prop = prop;
	p.kind = "track";
	Gen g (r, p);
	ntag = 0;
	Conf c = rconf (r);
	if (r.pct (60)) c.sync = false;
	if (r.pct (15)) c.extra += fmt ("\n[database]\nautocommit=%d\n", r.range (1, 4));
	g.start (c);
	initial (g, 1, r.pct (30) ? 12 : 5);
	g.adv ();
	p.ops.push_back (new_op (r));
	tagging (g, r.below (3));
	p.add ("target", {});
	for (int n = r.range (2, 7); n > 0; n--) {
	    int k = r.below (100);
	    if (r.pct (50)) p.add ("poll", {});
	    if (k < 15) {
		p.add ("adv", { "2500000000" });
		for (int i = r.range (1, 4); i > 0; i--) g.mutate ();
		p.add ("adv", { "2500000000" });
		Op o = new_op (r);
		faults (r, o, 40);
		p.ops.push_back (o);
	    } else if (k < 22) { // (almost) nothing stays
		p.add ("adv", { "2500000000" });
		int keep = r.pct (60) ? 0 : 1;
		while ((int) g.files.size () > keep) { std::string f = g.anyfile (); p.add ("rm", { f }); g.files.erase (f); }
		p.ops.push_back (new_op (r));
		p.add ("poll", {});
		p.add ("adv", { "2500000000" });
		for (int i = r.range (1, 3); i > 0; i--) g.deliver (r.pct (50) ? r.of (g.names) : g.msg (VS ()), r.of (g.dirs));
		p.add ("adv", { "2500000000" });
		p.ops.push_back (new_op (r));
	    } else if (k < 45) {
		Op o = client (g);
		faults (r, o, 40);
		p.ops.push_back (o);
	    } else if (k < 65) {
		Op o = writer_op (g, true);
		faults (r, o, 50);
		p.ops.push_back (o);
	    } else {
		Op par ("par", {});
		bool compact = r.pct (15);
		for (int i = r.range (1, 3); i > 0; i--) {
		    Op o = r.pct (40) ? client (g) : writer_op (g, compact);
		    if (r.pct (50)) { o.env.clear (); o.env.push_back ("XAPIAN_FLUSH_THRESHOLD=1"); }
		    if (r.pct (30)) o.delay = r.range (1, 500);
		    if (r.pct (30)) stall (r, o, 10, 300);
		    faults (r, o, 15);
		    par.sub.push_back (o);
		}
		for (int i = r.range (1, 2); i > 0; i--) {
		    par.sub.push_back (poller (r));
		    if (r.pct (25)) par.sub.back ().await = moment (r, compact);
		}
		par.sched.seed = r.next () % 1000000;
		par.sched.pct = r.of (std::vector<int>{ 3, 10, 30, 50 });
		p.ops.push_back (par);
	    }
	}
	p.add ("poll", {});
	return p;
    }
    struct Commit { FS fs; };
    std::vector<Commit> commits;
    NmState last;                          // the last committed state seen
    bool any = false;
    std::string seenid;                    // the polling client
    uint64_t seen = 0;
    Model view;

    static bool same (const NmMsg &a, const NmMsg &b) { return a.files == b.files && a.tags == b.tags && a.props == b.props; }
    // from one committed state to the next one
    void step (Exec &x, const std::string &what, const NmState &S)
    {
	if (S.status) return; // (no database there for a moment: P16)
	if (any && S.uuid != last.uuid) x.stats->add ("chk.new_identity");
	if (any) {
	    if (S.rev < last.rev) { x.fail ("rewound", what + fmt (": the revision went from %llu back to %llu", (unsigned long long) last.rev, (unsigned long long) S.rev)); return; }
	    for (auto &m : S.msgs) {
		auto o = last.msgs.find (m.first);
		if (o != last.msgs.end () && same (o->second, m.second)) continue;
		x.stats->add ("chk.changes");
		if (m.second.lastmod <= last.rev) { x.fail ("unnoticed", what + fmt (": message %s changed, but was last modified at %llu, when the revision before the change was %llu", m.first.c_str (), (unsigned long long) m.second.lastmod, (unsigned long long) last.rev)); return; }
	    }
	}
	for (auto &m : S.msgs)
	    if (m.second.lastmod > S.rev) { x.fail ("beyond", what + fmt (": message %s was last modified at %llu, the revision is %llu", m.first.c_str (), (unsigned long long) m.second.lastmod, (unsigned long long) S.rev)); return; }
	last = S;
	any = true;
    }
    void chain (Exec &x, const std::string &what)
    {
	for (auto &c : commits) {
	    x.stats->add ("chk.commits");
	    step (x, what, x.observe_fs (c.fs));
	    if (x.failed ()) return;
	}
	commits.clear ();
	NmState S = x.observe ();
	if (S.status) { x.fail ("db", what + ": " + problems (S)); return; }
	step (x, what + " (after all)", S);
    }
    void poll (Exec &x)
    {
	ProcResult r = x.cmd ({ "count", "--lastmod", "--exclude=false", "*" });
	VS w = split (r.out.substr (0, r.out.find ('\n')), '\t');
	if (! r.ok () || w.size () != 3) { x.fail ("poll", "notmuch count --lastmod " + r.str () + " " + r.out + r.err); return; }
	bool known = w[1] == seenid;
	if (known && strtoull (w[2].c_str (), nullptr, 10) < seen) { x.fail ("rewound", "notmuch count --lastmod printed revision " + w[2] + fmt (" after %llu", (unsigned long long) seen)); return; }
	ProcResult q = x.cmd ({ "search", "--exclude=false", "--output=messages", known ? fmt ("lastmod:%llu..", (unsigned long long) seen + 1) : "*" });
	if (! q.ok ()) { x.fail ("poll", "notmuch search lastmod: " + q.str () + " " + q.err); return; }
	SS learned;
	for (auto &l : split (q.out, '\n')) if (! l.compare (0, 3, "id:")) learned.insert (l.substr (3));
	NmState S = x.observe ();
	Model m = model_of (S), v;
	for (auto &e : m) {
	    if (learned.count (e.first)) view[e.first] = e.second;
	    auto i = view.find (e.first);
	    if (i == view.end () || ! (i->second == e.second)) { x.fail ("missed", fmt ("a client that knew the revision %llu did not learn of the change of message %s: ", (unsigned long long) seen, e.first.c_str ()) + (i == view.end () ? "unknown" : i->second.str ()) + " is now " + e.second.str ()); return; }
	    v[e.first] = e.second;
	}
	view = v;
	seenid = w[1];
	seen = strtoull (w[2].c_str (), nullptr, 10);
	x.stats->add ("chk.polls");
    }
    void watched (Exec &x, const Op &o, const ProcResult &r)
    {
	std::map<std::string, std::string> v, now;
	unsigned long rev = 0;
	std::string id;
	bool end = false, fine = true;
	for (auto &l : split (r.out, '\n')) {
	    VS w = split (l, ' ');
	    if (w.size () < 3) continue;
	    if (w[0].empty () || ! isdigit (w[0][0])) continue;
	    bool ok = w[2] == "ok";
	    fine = ok;
	    if (w[1] == "open" && ! ok) return;
	    // a commit came in between twice; the client would have to open the database again
	    if (w[1] == "reopen" && ! ok) { x.stats->add ("chk.reopen_failed"); return; }
	    std::map<std::string, std::string> got;
	    std::string rest = l, cur;
	    for (size_t at = l.find (" ["); at != std::string::npos; at = l.find (" [", at + 1)) {
		size_t b = l.rfind (' ', at - 1), e = l.find (']', at);
		got[l.substr (b + 1, at - b - 1)] = l.substr (at + 2, e - at - 2);
	    }
	    if (w[1] == "since" && ok) {
		unsigned long n = strtoul (w[4].c_str (), nullptr, 10);
		if (w[5] == id && n < rev) { x.fail ("rewound", "a client saw the revision go from " + std::to_string (rev) + " to " + w[4]); return; }
		if (w[5] != id) v.clear ();
		id = w[5];
		rev = n;
		for (auto &e : got) v[e.first] = e.second;
	    }
	    if (w[1] == "look" && ok) { now = got; end = true; }
	}
	if (! fine || ! end) { x.fail ("poll", "a reading client could not read after the writers were done: " + r.out + r.err); return; }
	x.stats->add ("chk.watchers");
	for (auto &e : now)
	    if (! v.count (e.first) || v[e.first] != e.second) { x.fail ("missed", "a client that asked for changes again and again has message " + e.first + " as " + (v.count (e.first) ? v[e.first] : "unknown") + ", it is " + e.second + "\n" + r.out); return; }
    }
    // what a writing client changes after it saw a revision is newer
    void wrote (Exec &x, const Op &o, const ProcResult &r)
    {
	if (! r.ok ()) return;
	VS items, log = split (r.out, '\n');
	for (auto &i : o.a) if (verb_of (i) != "strict") items.push_back (i);
	uint64_t rev = 0;
	size_t k = 0;
	for (auto &l : log) {
	    VS w = split (l, ' ');
	    if (w.size () < 3 || w[0] == "end") continue;
	    if (k >= items.size () || w[1] != verb_of (items[k])) return;
	    if (w[2] != "ok") return;
	    if (w[1] == "rev") {
		uint64_t n = strtoull (w[3].c_str (), nullptr, 10);
		if (n < rev) { x.fail ("rewound", "a client saw its revision go from " + std::to_string (rev) + " to " + w[3]); return; }
		rev = n;
	    }
	    if (w[1] == "m" && l.find (" absent") == std::string::npos) {
		std::string id = pct_dec (split (items[k], ' ')[1]);
		auto m = last.msgs.find (id);
		if (m != last.msgs.end () && m->second.lastmod <= rev) { x.fail ("unnoticed", fmt ("a client saw revision %llu, and then changed message %s, which was last modified at %llu", (unsigned long long) rev, id.c_str (), (unsigned long long) m->second.lastmod)); return; }
	    }
	    k++;
	}
    }
    void exec (Exec &x, Plan &p) override
    {
	x.begin ();
	x.plan = &p;
	any = false;
	commits.clear ();
	seenid.clear ();
	seen = 0;
	view.clear ();
	bool on = false;
	for (auto &o : p.ops) {
	    if (o.verb == "target") {
		on = true;
		if (! x.w.fs.isdir (x.root + "/.notmuch")) return;
		chain (x, "before");
		if (x.failed ()) return;
		x.w.after_step = [this, &x](Node *n, Sys k, const std::string &path) {
		    if (! n->quiet && k == S_RENAME && path.find ("/.notmuch/xapian") != std::string::npos) commits.push_back ({ x.w.fs });
		};
		continue;
	    }
	    if (! on) { x.apply (o); continue; }
	    if (o.verb == "poll") { poll (x); if (x.failed ()) break; continue; }
	    std::string what;
	    std::vector<ProcResult> rs;
	    if (o.verb == "par") {
		rs = x.par (o);
		for (size_t i = 0; i < rs.size (); i++) what += (i ? "; " : "") + (o.sub[i].verb == "lib" ? std::string ("client ") : "notmuch ") + join (o.sub[i].a) + " (" + rs[i].str () + ")";
	    } else if (o.verb == "run" || o.verb == "lib") {
		rs.push_back (x.run (o));
		what = (o.verb == "lib" ? "client " : "notmuch ") + join (o.a) + " " + rs[0].str ();
	    } else { x.apply (o); continue; }
	    x.stats->add ("runs");
	    for (size_t i = 0; i < rs.size (); i++) if (died (rs[i])) { x.fail ("crash", what + " " + rs[i].err); break; }
	    if (! x.failed ()) chain (x, what);
	    for (size_t i = 0; i < rs.size () && ! x.failed (); i++) {
		const Op &s = o.verb == "par" ? o.sub[i] : o;
		if (s.verb == "lib" && s.a[0] != "strict") watched (x, s, rs[i]);
	    }
	    if (o.verb == "lib" && ! x.failed ()) wrote (x, o, rs[0]);
	    if (x.failed ()) break;
	}
	x.w.after_step = nullptr;
	x.statehash = any ? model_hash (last) ^ last.rev : 0;
	x.stats->states.insert (x.statehash);
    }
};

static P10 p10;
static P11 p11;
static P12 p12;
Workload *workload_lib (const std::string &prop, const std::string &)
{
    if (prop == "P10") return &p10;
    if (prop == "P11") return &p11;
    if (prop == "P12") return &p12;
    return nullptr;
}
}
