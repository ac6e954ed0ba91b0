// Workloads around dump and restore: P08 (round trip), P09 (the dump file).
#include "model.h"
#include "target.h"
#include <algorithm>
#include <cstring>
#include <zlib.h>

namespace sim {

std::string gunzip (const std::string &s)
{
    z_stream z;
    memset (&z, 0, sizeof z);
    if (inflateInit2 (&z, 31) != Z_OK) return "";
    z.next_in = (Bytef *) s.data ();
    z.avail_in = s.size ();
    std::string out;
    char b[4096];
    int st;
    do {
	z.next_out = (Bytef *) b;
	z.avail_out = sizeof b;
	st = inflate (&z, Z_NO_FLUSH);
	out.append (b, sizeof b - z.avail_out);
    } while (st == Z_OK);
    inflateEnd (&z);
    return st == Z_STREAM_END ? out : "(broken)";
}
static std::string gzip (const std::string &s)
{
    z_stream z;
    memset (&z, 0, sizeof z);
    deflateInit2 (&z, 6, Z_DEFLATED, 31, 8, Z_DEFAULT_STRATEGY);
    std::string out (s.size () + 200 + s.size () / 100, 0);
    z.next_in = (Bytef *) s.data ();
    z.avail_in = s.size ();
    z.next_out = (Bytef *) &out[0];
    z.avail_out = out.size ();
    deflate (&z, Z_FINISH);
    out.resize (z.total_out);
    deflateEnd (&z);
    return out;
}

// ids, tags, keys and values with all kinds of bytes
static const VS hardids = { "par(en)@sim", "(@sim", "a)b@sim", "q\"uo\"te@sim", "\"lead@sim", "#hash@sim", "p%41ct@sim", "%%@sim", "+plus@sim", "--@sim", "id:x@sim", "a,b@sim", "x'y@sim", "caf\xc3\xa9@sim", "\xe9latin@sim",
			    "back\\slash@sim", "a*@sim", "=eq=@sim", "#=@sim", "(inbox)", "-", "tab\x01@sim", "x\x7f@sim" };
static std::string rbytes (Rng &r, int max, bool utf = false)
{
    static const VS pieces = { "a", "Z9", " ", "  ", "\t", "\n", "%", "%%", "%4", "%41", "#", "+", "-", "--", " -- ", "\"", "'", "(", ")", ";", ",", "=", ":", "\\", "\r", "\x01", "\x7f", "\xc3\xa9", "\xe2\x82\xac", "@", ".", "/", "*", "id:x", "tag:" };
    static const VS raw = { "\xff", "\xc3", "\x80\xfe" };
    std::string s;
    for (int i = r.range (1, max); i > 0; i--) s += ! utf && r.pct (10) ? r.of (raw) : r.of (pieces);
    return s;
}
static std::string rtag (Gen &g)
{
    Rng &r = g.r;
    if (r.pct (40)) return g.anytag ();
    if (r.pct (5)) return std::string (r.of (std::vector<int>{ 1, 199, 200 }), 't');
    std::string t = rbytes (r, 5);
    return t.size () > 200 ? t.substr (0, 200) : t;
}
// a client of the library changes tags, properties and configuration
static Op change (Gen &g, int n)
{
    Rng &r = g.r;
    Op o ("lib", { "open rw" });
    for (int i = 0; i < n; i++) {
	std::string it;
	int k = r.below (10);
	if (k == 9) it = "cfg " + pct_enc (r.pct (50) ? fmt ("query.q%d", r.below (3)) : "k" + rbytes (r, 4)) + " " + pct_enc (rbytes (r, 6));
	else {
	    it = "m " + pct_enc (g.anymid ());
	    if (r.pct (20)) it += " clear";
	    for (int j = r.range (1, 3); j > 0; j--) it += " " + pct_enc ("+" + rtag (g));
	    if (r.pct (25)) it += " -inbox -unread";
	    if (r.pct (30)) {
		if (r.pct (25)) it += " noprops";
		for (int j = r.range (1, 3); j > 0; j--) {
		    std::string key = r.pct (50) ? fmt ("k%d", r.below (3)) : rbytes (r, 3);
		    for (auto &c : key) if (c == '=') c = '_';
		    it += " prop " + pct_enc (key) + " " + pct_enc (r.pct (8) ? "" : rbytes (r, 5));
		}
	    }
	}
	o.a.push_back (it);
    }
    return o;
}

// ---------------------------------------------------------------- P08
struct P08 : TargetWorkload {
    P08 () { prop = "P08"; budget_quick = 30; budget_thorough = 300; }
    FaultMix mix () override { FaultMix m; m.err = m.sticky = m.kill = m.sig = m.shortio = true; return m; }
    bool sup = false, acc = false, dt = true, dp = true, dc = true, rt = true, rp = true, rc = true;
    std::string query, dumped;
    NmState D;                 // the database when it was dumped
    SS named;                  // messages in the dump
    NmState W;                 // what is expected
    SS skip;                   // messages the format cannot carry
    static void include (Rng &r, VS &a, std::string &par)
    {
	par = "cpt";
	if (r.pct (60)) return;
	par.clear ();
	static const VS what = { "config", "properties", "tags" };
	while (par.empty ())
	    for (auto &w : what) if (r.pct (60)) { par += w[0]; a.push_back ("--include=" + w); }
    }
    Plan gen (Rng &r, int) override
    {
	Plan p;
	p.prop = prop;
	p.kind = "roundtrip";
	Gen g (r, p);
	Conf c = rconf (r);
	if (r.pct (70)) c.sync = false;
	g.start (c);
	initial (g, 1, 4);
	for (int i = r.below (4); i > 0; i--) {
	    std::string id = r.pct (60) ? r.of (hardids) : fmt ("z%d", r.below (99)) + rbytes (r, 3) + "@sim", clean;
	    for (char ch : id) if (! isspace ((unsigned char) ch) && ch != '>' && ch != '<') clean += ch;
	    g.deliver (g.msg ({}, clean), r.of (g.dirs));
	}
	g.adv ();
	p.ops.push_back (new_op (r));
	if (r.pct (90)) p.ops.push_back (change (g, r.range (1, 8)));
	if (r.pct (30)) tagging (g, 2);
	Op d ("dump", {}); // becomes the input of the target
	std::string inc;
	include (r, d.a, inc);
	p.par["dinc"] = inc;
	bool su = r.pct (20);
	if (su) { d.a.push_back ("--format=sup"); p.par["sup"] = "1"; }
	else if (r.pct (20)) d.a.push_back ("--format=batch-tag");
	bool tofile = r.pct (40), gz = r.pct (30);
	if (gz) d.a.push_back ("--gzip");
	if (tofile) d.a.push_back ("--output=/sim/home/the dump");
	if (r.pct (25)) {
	    std::string q = r.of (VS{ "tag:inbox", "not tag:unread", "id:" + g.anymid (), "tag:nosuch", "*" });
	    if (q.find_first_of ("\"()* ") != std::string::npos && q.compare (0, 3, "not")) q = "*";
	    for (unsigned char ch : q) if (ch < 32 || ch > 126) q = "*";
	    p.par["query"] = q;
	    d.a.push_back ("--");
	    d.a.push_back (q);
	}
	p.ops.push_back (d);
	for (int i = r.below (3); i > 0; i--) p.ops.push_back (change (g, r.range (1, 6)));
	if (r.pct (30)) tagging (g, 2);
	if (r.pct (15)) {
	    g.deliver (g.msg (), r.of (g.dirs));
	    g.adv ();
	    p.ops.push_back (new_op (r));
	}
	if (r.pct (10)) { p.add ("rm", { g.anyfile () }); p.add ("adv", { "2500000000" }); p.ops.push_back (new_op (r)); }
	Op t ("run", { "restore" });
	include (r, t.a, inc);
	p.par["rinc"] = inc;
	if (su ? r.pct (30) : r.pct (20)) t.a.push_back (su ? "--format=sup" : "--format=batch-tag");
	else if (r.pct (20)) t.a.push_back ("--format=auto");
	if (r.pct (25)) { t.a.push_back ("--accumulate"); p.par["acc"] = "1"; }
	if (r.pct (15)) p.par["regz"] = "1"; // packed or unpacked on the way
	if (r.pct (40)) { t.a.push_back ("--input=/sim/home/the dump"); p.par["file"] = "1"; }
	else if (r.pct (70)) for (int i = r.range (1, 40); i > 0; i--) t.chunks.push_back (r.pct (60) ? r.range (1, 9) : r.range (1, 300));
	if (r.pct (30)) t.env.push_back ("XAPIAN_FLUSH_THRESHOLD=" + fmt ("%d", r.range (1, 4)));
	p.add ("target", {});
	p.ops.push_back (t);
	return p;
    }
    void other (Exec &x, Plan &p, const Op &o) override
    {
	if (o.verb != "dump") return;
	D = x.observe ();
	named.clear ();
	std::string q = p.get ("query", "*");
	for (auto &m : D.msgs) {
	    bool in = q == "*" || (q == "tag:inbox" && m.second.tags.count ("inbox")) || (q == "not tag:unread" && ! m.second.tags.count ("unread")) || q == "id:" + m.first;
	    if (in) named.insert (m.first);
	}
	VS a = { "dump" };
	a.insert (a.end (), o.a.begin (), o.a.end ());
	ProcResult r = x.cmd (a);
	if (! r.ok ()) { x.fail ("dump", "notmuch " + join (a) + " " + r.str () + " " + r.err); return; }
	dumped = r.out;
	bool gz = false;
	for (auto &e : o.a) {
	    if (e == "--gzip") gz = true;
	    if (! e.compare (0, 9, "--output=") && ! x.w.fs.slurp (e.substr (9), &dumped)) x.fail ("dump", "notmuch " + join (a) + " exits 0 and makes no file");
	}
	if (p.geti ("regz")) dumped = gz ? gunzip (dumped) : gzip (dumped);
	x.w.fs.put ("/sim/home/the dump", dumped);
	if (! p.geti ("file")) p.ops[target_index (p)].in = dumped;
    }
    bool setup (Exec &x, Plan &p) override
    {
	sup = p.geti ("sup");
	acc = p.geti ("acc");
	std::string d = p.get ("dinc", "cpt"), r = p.get ("rinc", "cpt");
	auto has = [](const std::string &s, char c) { return s.find (c) != std::string::npos; };
	dt = has (d, 't') && has (r, 't');
	dp = has (d, 'p') && has (r, 'p');
	dc = has (d, 'c') && has (r, 'c');
	bool any = false;
	for (auto &o : p.ops) if (o.verb == "dump") any = true;
	return any && ! x.failed ();
    }
    // tags, properties and configuration
    std::string wrong (const NmState &want, const NmState &got, bool files)
    {
	for (auto &p : want.msgs) {
	    if (skip.count (p.first)) continue;
	    auto i = got.msgs.find (p.first);
	    if (i == got.msgs.end ()) return "message " + p.first + " is gone";
	    if (i->second.tags != p.second.tags) return "message " + p.first + " has tags {" + join (i->second.tags) + "} instead of {" + join (p.second.tags) + "}";
	    if (i->second.props != p.second.props) return "message " + p.first + " has other properties";
	    if (i->second.files.size () != p.second.files.size () || (files && i->second.files != p.second.files)) return "message " + p.first + " has other files";
	    if (i->second.thread != p.second.thread) return "message " + p.first + " is in another thread";
	}
	for (auto &p : got.msgs) if (! want.msgs.count (p.first)) return "message " + p.first + " appeared";
	for (auto &q : want.config) { auto i = got.config.find (q.first); if (i == got.config.end () || i->second != q.second) return "setting '" + q.first + "' is '" + (i == got.config.end () ? "(missing)" : i->second) + "' instead of '" + q.second + "'"; }
	for (auto &q : got.config) if (! want.config.count (q.first)) return "setting '" + q.first + "' appeared";
	return "";
    }
    void check_dry (Exec &x, Plan &p, Ctx &c) override
    {
	const Op &t = p.ops[target_index (p)];
	std::string what = "notmuch " + join (t.a) + " " + c.dry.str () + " " + c.dry.err + " of the dump " + (dumped.compare (0, 1, "#") ? "(packed) " + gunzip (dumped) : dumped).substr (0, 500);
	if (died (c.dry)) { x.fail ("crash", what); return; }
	if (! c.dry.ok ()) { x.fail ("fails", what); return; }
	W = c.S0;
	skip.clear ();
	for (auto &id : named) {
	    if (! W.msgs.count (id)) continue;
	    NmMsg &m = W.msgs[id];
	    const NmMsg &d = D.msgs.at (id);
	    if (sup) {
		bool bad = id[0] == '#';
		for (auto &tg : d.tags) if (tg.find_first_of (" )\n\r") != std::string::npos) bad = true;
		if (bad) skip.insert (id);
	    }
	    if (dt) {
		SS old = m.tags;
		m.tags = d.tags;
		if (acc) m.tags.insert (old.begin (), old.end ());
	    }
	    if (dp && ! d.props.empty ()) m.props = d.props;
	}
	if (dc) for (auto &q : D.config) W.config[q.first] = q.second;
	std::string d = problems (c.S1);
	if (! d.empty ()) { x.fail ("db", what + ": " + d); return; }
	d = wrong (W, c.S1, ! x.conf.sync);
	if (! d.empty ()) { x.fail ("round-trip", what + ": " + d); return; }
	// once more: nothing changes
	x.restore (c.s1);
	Op o = t;
	o.faults.clear ();
	ProcResult r = x.run (o);
	NmState S = x.observe ();
	if (! r.ok ()) { x.fail ("again", what + "; again: " + r.str () + " " + r.err); return; }
	d = wrong (c.S1, S, true);
	if (! d.empty ()) { x.fail ("again", what + "; again: " + d); return; }
	x.restore (c.s1);
    }
    void check (Exec &x, Plan &p, Ctx &c, const Op &target, const ProcResult &res) override
    {
	std::string what = "notmuch " + join (target.a) + " " + res.str () + " " + res.err;
	if (died (res)) { x.fail ("crash", what); return; }
	NmState S = x.observe ();
	x.statehash = model_hash (S);
	std::string d = problems (S);
	if (! d.empty ()) { x.fail ("db", what + ": " + d); return; }
	if (res.ok ()) {
	    d = wrong (W, S, false);
	    if (! d.empty ()) { x.fail ("not-all", what + ": " + d); return; }
	} else {
	    for (auto &q : S.msgs) { // tags are changed at once
		auto i = c.S0.msgs.find (q.first), j = c.S1.msgs.find (q.first);
		if (i == c.S0.msgs.end () || j == c.S1.msgs.end ()) { x.fail ("half", what + ": message " + q.first + " appeared"); return; }
		if (q.second.tags != i->second.tags && q.second.tags != j->second.tags) { x.fail ("half", what + ": message " + q.first + " has tags {" + join (q.second.tags) + "}, before {" + join (i->second.tags) + "}, after {" + join (j->second.tags) + "}"); return; }
		if (! named.count (q.first) && (q.second.tags != i->second.tags || q.second.props != i->second.props)) { x.fail ("unnamed", what + " changed message " + q.first); return; }
	    }
	}
	Op o = target;
	o.faults.clear ();
	ProcResult r = x.run (o);
	if (! r.ok ()) { x.fail ("rerun", what + "; again: " + r.str () + " " + r.err); return; }
	S = x.observe ();
	d = problems (S);
	if (d.empty ()) d = wrong (W, S, false);
	if (! d.empty ()) { x.fail ("rerun", what + "; after another restore: " + d); return; }
    }
};

// ---------------------------------------------------------------- P09
static const std::string dumpfile = "/sim/home/out/dump";
struct P09 : TargetWorkload {
    P09 () { prop = "P09"; budget_quick = 60; budget_thorough = 400; }
    FaultMix mix () override { FaultMix m; m.err = m.sticky = m.kill = m.sig = m.shortio = m.power = true; return m; }
    std::string before, after, torn;
    bool had = false, tofile = true;
    static void opts (Gen &g, Op &o)
    {
	Rng &r = g.r;
	if (r.pct (30)) o.a.push_back ("--gzip");
	if (r.pct (15)) o.a.push_back ("--format=sup");
	for (auto i : VS{ "config", "properties", "tags" }) if (r.pct (15)) o.a.push_back ("--include=" + i);
    }
    static void start (Gen &g, bool large)
    {
	Rng &r = g.r;
	Conf c = rconf (r);
	g.start (c);
	initial (g, 1, large ? 16 : 5);
	g.adv ();
	g.p.ops.push_back (new_op (r));
	for (int i = r.below (3); i > 0; i--) g.p.ops.push_back (change (g, r.range (1, 8)));
	tagging (g, r.below (3));
	if (large) { // more than fits into one buffer
	    Op o ("lib", { "open rw" });
	    for (int i = r.range (20, 80); i > 0; i--) {
		std::string it = "m " + pct_enc (g.anymid ());
		for (int j = 4; j > 0; j--) it += " +" + fmt ("%d", r.below (1000000)) + std::string (r.range (20, 180), 'x');
		o.a.push_back (it);
	    }
	    g.p.ops.push_back (o);
	}
	g.p.add ("write", { "/sim/home/out/keep", "" });
	if (r.pct (70)) g.p.add ("write", { dumpfile, r.of (VS{ "", "old dump\n", "#notmuch-dump batch-tag:3 tags\n+old -- id:x\n", std::string (20000, 'o') }) });
    }
    Plan gen (Rng &r, int) override
    {
	Plan p;
	p.prop = prop;
	p.kind = "file";
	Gen g (r, p);
	if (r.pct (25)) return gen_beside (g);
	start (g, r.pct (30));
	Op o ("run", { "dump" });
	opts (g, o);
	if (r.pct (75)) o.a.push_back ("--output=" + dumpfile);
	else p.kind = "stdout";
	if (r.pct (20)) { o.a.push_back ("--"); o.a.push_back (r.of (VS{ "tag:inbox", "*", "not tag:unread" })); }
	p.add ("target", {});
	p.ops.push_back (o);
	return p;
    }
    Plan gen_beside (Gen &g)
    {
	Rng &r = g.r;
	Plan &p = g.p;
	p.kind = "beside";
	start (g, r.pct (40));
	g.p.add ("adv", { "2500000000" });
	for (int i = r.below (4); i > 0; i--) g.mutate ();
	g.p.add ("adv", { "2500000000" });
	Op par ("par", {});
	for (int i = r.range (1, 3); i > 0; i--) {
	    Op o;
	    int k = r.below (10);
	    if (k < 5) {
		o = Op ("run", { "tag", "--batch" });
		for (int j = r.range (1, 20); j > 0; j--) o.in += (r.pct (50) ? "+" : "-") + r.of (VS{ "inbox", "unread", "work", "churn" }) + " -- " + r.of (VS{ "*", "*", "tag:inbox", "tag:churn" }) + "\n";
	    } else if (k < 7) o = new_op (r);
	    else if (k < 8) { o = Op ("run", { "restore" }); o.in = rdump (g, true); }
	    else o = change (g, r.range (1, 8));
	    if (r.pct (60)) o.env.push_back ("XAPIAN_FLUSH_THRESHOLD=1");
	    if (r.pct (40)) o.delay = r.range (1, 500);
	    if (r.pct (40)) { Fault f; f.at = r.range (1, 300); f.kind = F_STALL; f.arg = r.range (10, 1000); o.faults.push_back (f); }
	    par.sub.push_back (o);
	}
	for (int i = r.range (1, 2); i > 0; i--) {
	    Op o ("run", { "dump" });
	    opts (g, o);
	    if (r.pct (80)) o.a.push_back ("--output=" + dumpfile + (i == 2 && r.pct (60) ? "2" : ""));
	    if (r.pct (60)) o.delay = r.range (1, 1000);
	    if (r.pct (50)) { Fault f; f.at = r.range (1, 200); f.kind = F_STALL; f.arg = r.range (10, 2000); o.faults.push_back (f); }
	    par.sub.push_back (o);
	}
	par.sched.seed = r.next () % 1000000;
	par.sched.pct = r.of (std::vector<int>{ 3, 10, 30, 50 });
	p.ops.push_back (par);
	return p;
    }
    void explore (Exec &x, Plan &p, Rng &r, int tier, const std::function<bool(const Plan &)> &report) override
    {
	if (p.kind == "beside") Workload::explore (x, p, r, tier, report);
	else TargetWorkload::explore (x, p, r, tier, report);
    }
    void exec (Exec &x, Plan &p) override
    {
	if (p.kind == "beside") beside (x, p);
	else TargetWorkload::exec (x, p);
    }
    bool setup (Exec &x, Plan &p) override
    {
	tofile = p.kind == "file";
	before.clear ();
	torn.clear ();
	had = x.w.fs.slurp (dumpfile, &before);
	after = before;
	return true;
    }
    void check_dry (Exec &x, Plan &p, Ctx &c) override
    {
	const Op &o = p.ops[target_index (p)];
	std::string what = "notmuch " + join (o.a) + " " + c.dry.str () + " " + c.dry.err;
	if (! c.dry.ok ()) { x.fail ("fails", what); return; }
	std::string d = identical (c.S0, c.S1);
	if (! d.empty ()) { x.fail ("changed", what + ": " + d); return; }
	if (! tofile) { after = c.dry.out; return; }
	if (! x.w.fs.slurp (dumpfile, &after)) { x.fail ("not-new", what + ": there is no file"); return; }
	VS a;
	for (auto &e : o.a) if (e.compare (0, 9, "--output=")) a.push_back (e);
	ProcResult q = x.cmd (a);
	if (! q.ok () || q.out != after) { x.fail ("not-new", what + ": the file and the output of notmuch " + join (a) + " " + q.str () + " differ"); return; }
	bool h = had;
	std::string b = before, n = after;
	x.w.on_step = [this, &x, b, n, h](Node *nd, Sys k, const std::string &path) {
	    if (nd->quiet || ! torn.empty ()) return;
	    std::string now;
	    bool there = x.w.fs.slurp (dumpfile, &now);
	    if (! (there == h && now == b) && ! (there && now == n)) torn = std::string ("before ") + sys_name[k] + " " + path + (there ? fmt (" the file holds %d bytes that are neither the old nor the new dump", (int) now.size ()) : " the file is gone");
	};
    }
    void check (Exec &x, Plan &p, Ctx &c, const Op &target, const ProcResult &res) override
    {
	std::string what = "notmuch " + join (target.a) + " " + res.str () + " " + res.err, now, t = torn;
	torn.clear ();
	x.statehash = x.w.hash;
	if (died (res)) { x.fail ("crash", what); return; }
	if (! tofile) {
	    if (res.ok () && res.out != after) { x.fail ("not-new", what + fmt (": printed %d bytes instead of %d", (int) res.out.size (), (int) after.size ())); return; }
	} else {
	    if (! t.empty ()) { x.fail ("torn", what + ": " + t); return; }
	    bool there = x.w.fs.slurp (dumpfile, &now);
	    bool is0 = there == had && now == before, is1 = there && now == after;
	    if (! is0 && ! is1) { x.fail ("torn", what + ": " + (there ? fmt ("the file holds %d bytes that are neither the old nor the new dump", (int) now.size ()) : "the file is gone")); return; }
	    if (res.ok () && ! is1) { x.fail ("not-new", what + ": the file is as before"); return; }
	    Snap s = x.snap (); // the power fails now
	    for (auto md : std::vector<std::pair<int, int>>{ { 0, 0 }, { 100, 0 }, { 100, 1 }, { 60, 2 } }) {
		if (res.how == H_POWER) break;
		PowerSpec ps;
		ps.keep_pct = md.first;
		ps.data_mode = md.second;
		x.w.fs.power_loss (ps);
		now.clear ();
		there = x.w.fs.slurp (dumpfile, &now);
		x.restore (s);
		if (! (there == had && now == before) && ! (there && now == after)) { x.fail ("torn", what + "; after a power loss the file is neither the old nor the new dump"); return; }
	    }
	}
	NmState S = x.observe ();
	std::string d = problems (S);
	if (d.empty ()) d = identical (c.S0, S);
	if (! d.empty ()) { x.fail ("changed", what + ": " + d); return; }
    }
    // while others want to write
    void beside (Exec &x, Plan &p)
    {
	x.begin ();
	x.plan = &p;
	for (auto &o : p.ops) {
	    if (o.verb != "par") { x.apply (o); continue; }
	    x.w.fs.sync_all ();
	    struct Commit { uint64_t step; FS fs; };
	    std::vector<Commit> commits;
	    commits.push_back ({ 0, x.w.fs });
	    Snap s0 = x.snap ();
	    std::map<std::string, SS> seen; // contents each dump file had
	    x.w.after_step = [&](Node *n, Sys k, const std::string &path) {
		if (n->quiet) return;
		if (k == S_RENAME && path.find ("/.notmuch/xapian") != std::string::npos) commits.push_back ({ x.w.gstep, x.w.fs });
		for (auto f : { dumpfile, dumpfile + "2" }) { std::string now; if (x.w.fs.slurp (f, &now)) seen[f].insert (now); else if (! seen[f].empty ()) seen[f].insert ("(gone)"); }
	    };
	    for (auto f : { dumpfile, dumpfile + "2" }) { std::string now; if (x.w.fs.slurp (f, &now)) seen[f].insert (now); }
	    std::map<std::string, SS> ok = seen;
	    auto rs = x.par (o);
	    x.w.after_step = nullptr;
	    x.stats->add ("runs");
	    std::string cmds;
	    for (size_t i = 0; i < rs.size (); i++) cmds += (i ? "; " : "") + join (o.sub[i].a).substr (0, 200) + " (" + rs[i].str () + ")";
	    for (size_t i = 0; i < rs.size (); i++)
		if (died (rs[i])) { x.fail ("crash", rs[i].str () + " " + rs[i].err + " in: " + cmds); return; }
	    Snap end = x.snap ();
	    uint64_t h = x.w.hash;
	    for (size_t i = 0; i < rs.size (); i++) {
		if (o.sub[i].a[0] != "dump" || ! rs[i].ok ()) continue;
		const ProcResult &r = rs[i];
		Op t = o.sub[i];
		t.faults.clear ();
		std::string file;
		for (auto &e : t.a) if (! e.compare (0, 9, "--output=")) { file = e.substr (9); }
		t.a.erase (std::remove_if (t.a.begin (), t.a.end (), [](const std::string &e) { return ! e.compare (0, 9, "--output="); }), t.a.end ());
		size_t last = 0;
		for (size_t k = 0; k < commits.size (); k++) if (commits[k].step <= r.start_step) last = k;
		bool found = false;
		int tried = 0;
		for (size_t k = last; k < commits.size (); k++) {
		    if (commits[k].step > r.end_step) break;
		    x.restore (s0);
		    x.w.fs = commits[k].fs;
		    for (auto &q : x.w.fs.in) q.second.opens = 0;
		    ProcResult q = x.run (t);
		    tried++;
		    if (! q.ok ()) continue;
		    if (file.empty ()) { if (q.out == r.out) found = true; }
		    else {
			ok[file].insert (q.out);
			if (seen[file].count (q.out)) found = true;
		    }
		}
		x.stats->add ("chk.dumps_compared", tried);
		if (tried > 1) x.stats->add ("chk.dump_overlapped_commits");
		if (! found) { x.fail ("mixed", "notmuch " + join (o.sub[i].a) + fmt (" is none of the %d committed states, in: ", tried) + cmds); return; }
	    }
	    for (auto &f : seen)
		for (auto &s : f.second) {
		    bool fine = ok[f.first].count (s);
		    // a dump that failed after it put its file there
		    if (! fine) for (size_t i = 0; i < rs.size (); i++) if (o.sub[i].a[0] == "dump" && ! rs[i].ok () && join (o.sub[i].a).find ("--output=" + f.first) != std::string::npos) fine = true;
		    if (! fine) { x.fail ("torn", f.first + fmt (" held %d bytes that are no dump, in: ", (int) s.size ()) + cmds); return; }
		}
	    x.restore (end);
	    x.w.hash = h;
	    NmState S = x.observe ();
	    x.stats->states.insert (model_hash (S) ^ x.w.hash);
	    std::string d = problems (S);
	    if (! d.empty ()) { x.fail ("db", d + " after: " + cmds); return; }
	}
    }
};

static P08 p08;
static P09 p09;

Workload *workload_dump (const std::string &prop, const std::string &)
{
    if (prop == "P08") return &p08;
    if (prop == "P09") return &p09;
    return nullptr;
}

}
