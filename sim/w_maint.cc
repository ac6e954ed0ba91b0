// Workloads around maintenance: P16 (compaction), P18 (configuration).
#include "model.h"
#include "target.h"
#include <algorithm>
#include <cstring>
#include <glib.h>

namespace sim {

static bool exists (Exec &x, const std::string &path) { ino_num i; return x.w.fs.lookup (path, false, &i) == 0; }

// a database with some history
void history (Gen &g, int hi)
{
    Rng &r = g.r;
    initial (g, r.pct (10) ? 0 : 1, hi);
    g.adv ();
    g.p.ops.push_back (new_op (r));
    tagging (g, r.below (4));
    if (r.pct (50)) {
	Op o ("run", { "restore" });
	o.in = rdump (g, true);
	g.p.ops.push_back (o);
    }
    if (r.pct (40)) {
	g.p.add ("adv", { "2500000000" });
	for (int i = r.range (1, 4); i > 0; i--) g.mutate ();
	g.p.add ("adv", { "2500000000" });
	g.p.ops.push_back (new_op (r));
    }
    if (r.pct (30)) g.p.add ("run", { "config", "set", "--database", fmt ("query.q%d", r.below (3)), r.of (VS{ "tag:inbox", "a \"b\" % c", "é" }) });
}

// ---------------------------------------------------------------- P16
struct P16 : TargetWorkload {
    P16 () { prop = "P16"; budget_quick = 40; budget_thorough = 400; }
    FaultMix mix () override { FaultMix m; m.err = m.sticky = m.kill = m.sig = m.shortio = true; return m; }
    // Xapian ignores failing fsyncs while it compacts
    bool allow (const StepRec &s) override { return ! (s.kind == S_FSYNC && s.path.find ("xapian.compact") != std::string::npos); }
    std::string backup;
    Plan gen (Rng &r, int) override
    {
	Plan p;
	p.prop = prop;
	p.kind = "compact";
	Gen g (r, p);
	Conf c = rconf (r);
	if (r.pct (50)) c.sync = false;
	g.start (c);
	history (g, 6);
	bool nox = r.pct (35);
	if (nox) p.par["nox"] = "1";
	if (! nox && r.pct (20)) { // an interrupted compaction before
	    Op o ("run", { "compact", "--quiet" });
	    Fault f;
	    f.at = r.range (30, 330);
	    f.kind = F_KILL;
	    f.arg = 9;
	    o.faults.push_back (f);
	    p.ops.push_back (o);
	}
	Op o ("run", { "compact" });
	if (r.pct (70)) o.a.push_back ("--quiet");
	if (r.pct (45)) {
	    std::string b = r.of (VS{ "/sim/home/backup", "/sim/home/mail/.notmuch/old copy", "backup.rel", "/sim/home/mail/.notmuch/xapian.old", "/sim/home/nowhere/backup", "/sim/home/mail" });
	    p.par["backup"] = b;
	    o.a.push_back ("--backup=" + b);
	}
	p.add ("target", {});
	p.ops.push_back (o);
	return p;
    }
    bool setup (Exec &x, Plan &p) override
    {
	x.w.no_exchange = p.geti ("nox");
	backup = p.get ("backup");
	if (! backup.empty () && backup[0] != '/') backup = "/sim/home/" + backup;
	return true;
    }
    // the database at another place
    NmState at (Exec &x, const std::string &path)
    {
	Snap s = x.snap ();
	std::string home = x.root + "/.notmuch/xapian";
	if (path != home) {
	    tree_remove (x.w.fs, home);
	    x.w.fs.rename (path, home);
	}
	NmState st = x.observe (NM_RAW);
	x.restore (s);
	return st;
    }
    std::string whole (Exec &x, Ctx &c, const std::string &path, bool first)
    {
	NmState st = at (x, path);
	std::string d = problems (st);
	if (! d.empty ()) return d;
	if (! first || st.uuid.empty ()) { if (st.uuid != c.S0.uuid) return "the database identity changed"; }
	st.uuid = c.S0.uuid; // compaction gives the database a new one, as documented
	return identical (c.S0, st);
    }
    void verdict (Exec &x, Plan &p, Ctx &c, const Op &target, const ProcResult &res)
    {
	std::string what = "notmuch " + join (target.a) + " " + res.str () + " " + res.err, home = x.root + "/.notmuch/xapian";
	if (died (res)) { x.fail ("crash", what); return; }
	std::string d = whole (x, c, home, true);
	bool nox = p.geti ("nox");
	if (res.ok ()) {
	    if (! d.empty ()) { x.fail ("changed", what + ": " + d); return; }
	    if (! backup.empty ()) {
		d = whole (x, c, backup, false);
		if (! d.empty ()) { x.fail ("backup", what + ": in the backup " + d); return; }
	    }
	    for (auto &n : x.w.fs.list (x.root + "/.notmuch"))
		if (n != "xapian" && n != "hooks" && x.root + "/.notmuch/" + n != backup) { x.fail ("left", what + " left .notmuch/" + n); return; }
	} else if (! d.empty ()) {
	    // killed between the two renames
	    bool stuck = res.how != H_EXITED || (! target.faults.empty () && target.faults[0].kind == F_STICKY);
	    std::string b = backup.empty () ? home + ".old" : backup;
	    std::string d2 = nox && stuck && ! exists (x, home) ? whole (x, c, b, false) : "-";
	    if (! d2.empty ()) { x.fail ("lost", what + ": " + d + (d2 == "-" ? "" : ", and at " + b + " " + d2)); return; }
	    x.stats->add ("chk.between_renames");
	    return;
	}
	// the next compaction does its work
	if (! backup.empty () || exists (x, home + ".old")) return;
	ProcResult q = x.cmd ({ "compact", "--quiet" });
	if (! q.ok ()) { x.fail ("again", what + "; then notmuch compact " + q.str () + " " + q.err); return; }
	d = whole (x, c, home, true);
	if (! d.empty ()) { x.fail ("again", what + "; after another compaction " + d); return; }
	q = x.cmd ({ "tag", "+later", "*" });
	if (! q.ok ()) { x.fail ("again", what + "; then notmuch tag " + q.str () + " " + q.err); return; }
    }
    void check_dry (Exec &x, Plan &p, Ctx &c) override
    {
	if (c.S0.status) { x.fail ("db", problems (c.S0)); return; }
	bool may = backup.empty () || ! (backup == "/sim/home/mail" || backup == "/sim/home/nowhere/backup");
	if (may && ! c.dry.ok ()) { x.fail ("fails", "undisturbed: " + c.dry.str () + " " + c.dry.err); return; }
	if (! may && c.dry.ok ()) { x.fail ("backup", "undisturbed compaction with backup at " + backup + " exits 0"); return; }
	Op o = p.ops[target_index (p)];
	o.faults.clear ();
	verdict (x, p, c, o, c.dry);
    }
    void check (Exec &x, Plan &p, Ctx &c, const Op &target, const ProcResult &res) override
    {
	x.statehash = x.w.hash;
	verdict (x, p, c, target, res);
    }
};

// ---------------------------------------------------------------- P18
struct P18 : TargetWorkload {
    P18 () { prop = "P18"; budget_quick = 60; budget_thorough = 400; }
    FaultMix mix () override { FaultMix m; m.err = m.sticky = m.kill = m.sig = m.shortio = m.power = true; return m; }
    std::string file, before, after, torn;   // the file itself; its contents
    bool had = false;
    std::map<std::string, std::string> around; // what else lies in its directory
    static VS rvalues (Rng &r)
    {
	static const VS v = { "tag:inbox", "a b", " lead", "trail ", "tab\there", "two\nlines", "back\\slash", "\\s", "é ü", "x=y", "#hash", "[br]", "%", "\"quoted\"", "", "cr\rlf", "~/x", "long " + std::string (300, 'y') };
	VS o;
	int n = r.of (std::vector<int>{ 0, 1, 1, 1, 1, 2, 3 });
	for (int i = 0; i < n; i++) o.push_back (r.pct (4) ? r.of (VS{ "a;b", ";", "x;" }) : r.pct (3) ? r.of (VS{ "\xff\xfe", "caf\xe9" }) : r.of (v));
	return o;
    }
    static std::string rextra (Rng &r)
    {
	std::string s;
	static const VS l = { "# a comment\n", "\n", "[query]\nq1 = tag:inbox and not tag:x\n", "[foo]\n# about bar\nbar=1;2;3;\nbaz =  spaced  \n", "[user]\nother_email=a@b.c;d@e.f;\n", "[index]\ndecrypt=auto\n", "[ext]\nlong=" + std::string (5000, 'z') + "\n",
			      "[foo]\nutf=é\nesc=a\\nb\\sc\\\\\n" };
	std::set<std::string> used; // (a name that is there twice has no meaning)
	for (int i = r.below (5); i > 0; i--) {
	    std::string e = r.of (l);
	    if (used.insert (e).second) s += e;
	}
	return s;
    }
    Plan gen (Rng &r, int) override
    {
	Plan p;
	p.prop = prop;
	Gen g (r, p);
	Conf c = rconf (r);
	c.extra = rextra (r);
	g.start (c);
	initial (g, 1, 2);
	g.adv ();
	bool db = r.pct (40);
	if (db || r.pct (80)) p.ops.push_back (new_op (r));
	for (int i = r.below (3); i > 0; i--) p.add ("run", { "config", "set", "--database", fmt ("query.q%d", r.below (3)), "old value" });
	std::string file = "/sim/home/.notmuch-config";
	int k = r.below (100);
	if (k < 12) { // the file lies elsewhere
	    p.add ("write", { "/sim/home/dot/keep", "" });
	    p.add ("mv", { file, "/sim/home/dot/rc" });
	    p.add ("symlink", { "dot/rc", file });
	    file = "/sim/home/dot/rc";
	} else if (k < 20) {
	    p.add ("write", { "/sim/home/dot/keep", "" });
	    p.add ("mv", { file, "/sim/home/dot/rc" });
	    p.add ("symlink", { "/sim/home/dot/link", file });
	    p.add ("symlink", { "rc", "/sim/home/dot/link" });
	    file = "/sim/home/dot/rc";
	}
	p.par["file"] = file;
	Op o ("run", {});
	if (db) {
	    p.kind = "database";
	    VS v = rvalues (r);
	    if (v.size () > 1) v.resize (1);
	    static const VS keys = { "query.q1", "query.q2", "query.a b", "search.exclude_tags", "user.name", "index.header.Xfoo", "my.é", "nodot", "show.extra_headers", "maildir.synchronize_flags" };
	    std::string key = r.of (keys);
	    p.par["key"] = key;
	    o.a = { "config", "set", "--database", key };
	    o.a.insert (o.a.end (), v.begin (), v.end ());
	} else if (r.pct (15)) {
	    p.kind = "setup";
	    bool fresh = r.pct (40);
	    if (fresh && file == "/sim/home/.notmuch-config") p.add ("rm", { file });
	    o.a = { "setup" };
	    o.in = r.of (VS{ "", "New Name", "é" }) + "\n" + r.of (VS{ "", "new@example.org" }) + "\n";
	    for (int i = r.below (3); i > 0; i--) o.in += fmt ("o%d@example.org\n", i);
	    o.in += "\n\n\n";
	    o.in += r.of (VS{ "", "unread new" }) + "\n" + r.of (VS{ "", "spam deleted" }) + "\n" + "\n\n\n";
	    if (r.pct (30)) o.chunks = { r.range (1, 9), r.range (1, 9), r.range (1, 9) };
	} else {
	    p.kind = "file";
	    static const VS keys = { "user.name", "user.primary_email", "search.exclude_tags", "new.tags", "foo.bar", "foo.new", "newgroup.key", "query.q1", "index.header.Xfoo", "foo.a b", "show.extra_headers", "user.other_email", "foo.b.c" };
	    static const VS odd = { "foo.a=b", "f[o.x", "f]o.x", "foo. x", "foo.x ", "foo.é", "f o.x", ".x", "foo.#c", "foo.a[de]", "foo.\xff", "new\nline.x", "foo.a\nb" };
	    std::string key = r.pct (8) ? r.of (odd) : r.of (keys);
	    p.par["key"] = key;
	    VS v = rvalues (r);
	    o.a = { "config", "set", key };
	    o.a.insert (o.a.end (), v.begin (), v.end ());
	}
	p.add ("target", {});
	p.ops.push_back (o);
	return p;
    }
    // what the settings mean
    static bool parse (const std::string &text, std::map<std::string, std::string> *out, std::map<std::string, std::string> *notes)
    {
	GKeyFile *k = g_key_file_new ();
	GError *e = nullptr;
	bool ok = text.empty () || g_key_file_load_from_data (k, text.data (), text.size (), G_KEY_FILE_KEEP_COMMENTS, &e);
	if (e) g_error_free (e);
	if (ok) {
	    gchar **gr = g_key_file_get_groups (k, nullptr);
	    for (gchar **g = gr; *g; g++) {
		gchar **ks = g_key_file_get_keys (k, *g, nullptr, nullptr);
		for (gchar **q = ks; q && *q; q++) {
		    gchar *v = g_key_file_get_value (k, *g, *q, nullptr), *c = g_key_file_get_comment (k, *g, *q, nullptr);
		    (*out)[std::string (*g) + "." + *q] = v ? v : "";
		    if (c && *c) (*notes)[std::string (*g) + "." + *q] = c;
		    g_free (v);
		    g_free (c);
		}
		g_strfreev (ks);
	    }
	    g_strfreev (gr);
	}
	g_key_file_free (k);
	return ok;
    }
    std::map<std::string, std::string> nearby (Exec &x)
    {
	std::map<std::string, std::string> m;
	std::string d = file.substr (0, file.rfind ('/'));
	for (auto &n : x.w.fs.list (d)) {
	    ino_num i;
	    if (d + "/" + n == file || x.w.fs.lookup (d + "/" + n, false, &i) || x.w.fs.get (i)->isdir ()) continue;
	    m[n] = x.w.fs.get (i)->data;
	}
	return m;
    }
    bool setup (Exec &x, Plan &p) override
    {
	file = p.get ("file");
	before.clear ();
	had = x.w.fs.slurp (file, &before);
	if (! had && p.kind != "setup") return false;
	around = nearby (x);
	torn.clear ();
	after = before;
	return true;
    }
    // what setup writes depends on the defaults it finds, but all of it is there
    bool complete (const std::string &now)
    {
	std::map<std::string, std::string> a, b, n;
	if (! parse (now, &b, &n) || now.empty () || now.back () != '\n') return false;
	parse (before, &a, &n);
	for (auto &q : a) if (! b.count (q.first)) return false;
	return true;
    }
    void watch (Exec &x, const Plan &p)
    {
	if (p.kind == "database") return;
	std::string f = file, b = before, a = after;
	bool h = had, su = p.kind == "setup";
	x.w.on_step = [this, &x, f, b, a, h, su](Node *n, Sys k, const std::string &path) {
	    if (n->quiet || ! torn.empty ()) return;
	    std::string now;
	    if (! x.w.fs.slurp (f, &now)) { if (h) torn = std::string ("the file is missing before ") + sys_name[k] + " " + path; }
	    else if (now != b && now != a && ! (su && complete (now))) torn = fmt ("the file holds %d bytes that are neither the old nor the new contents before ", (int) now.size ()) + sys_name[k] + " " + path;
	};
    }
    static bool representable (const std::string &v) { return ! (! v.empty () && (isspace ((unsigned char) v[0]) || isspace ((unsigned char) v.back ()))) && v.find (';') == std::string::npos && g_utf8_validate (v.data (), v.size (), nullptr); }
    static VS values_of (const Op &o) { size_t i = o.a[2] == "--database" ? 4 : 3; return VS (o.a.begin () + std::min (i, o.a.size ()), o.a.end ()); }
    void dry_file (Exec &x, Plan &p, const ProcResult &res)
    {
	const Op &o = p.ops[target_index (p)];
	std::string what = "notmuch " + join (o.a) + " " + res.str () + " " + res.err, now;
	bool there = x.w.fs.slurp (file, &now);
	if (! res.ok ()) {
	    if (there != had || now != before) x.fail ("not-old", what + " changed the file");
	    return;
	}
	after = now;
	if (! there) { x.fail ("not-new", what + ": no file"); return; }
	std::map<std::string, std::string> a, b, na, nb;
	parse (before, &a, &na);
	if (! parse (now, &b, &nb)) { x.fail ("broken", what + ": the file cannot be parsed any more"); return; }
	std::string key = p.get ("key");
	if (p.kind == "file") {
	    VS v = values_of (o);
	    for (auto &q : a) if (q.first != key && (! b.count (q.first) || b[q.first] != q.second)) { x.fail ("other-key", what + ": " + q.first + " was '" + q.second + "' and is '" + (b.count (q.first) ? b[q.first] : "(missing)") + "'"); return; }
	    for (auto &q : b) if (q.first != key && ! a.count (q.first)) { x.fail ("other-key", what + " added " + q.first); return; }
	    for (auto &q : na) if (q.first != key && nb[q.first] != q.second) { x.fail ("comment", what + ": the comment of " + q.first + " changed"); return; }
	    if (b.count (key) != (v.empty () ? 0 : 1)) { x.fail ("not-new", what + ": the key is " + (v.empty () ? "still there" : "not there")); return; }
	    // everything still works, and reading back gives what was set
	    ProcResult q = x.cmd ({ "config", "list" });
	    if (! q.ok ()) { x.fail ("unusable", what + "; then notmuch config list " + q.str () + " " + q.err); return; }
	    bool rep = true;
	    std::string want;
	    for (auto &e : v) if (! representable (e)) rep = false; else if (! e.empty ()) want += e + "\n";
	    if (rep && ! v.empty ()) {
		q = x.cmd ({ "config", "get", key });
		if (! q.ok () || q.out != want) { x.fail ("read-back", what + "; then notmuch config get " + q.str () + " gives '" + q.out + "' " + q.err); return; }
	    }
	} else {
	    ProcResult q = x.cmd ({ "config", "list" });
	    if (! q.ok ()) { x.fail ("unusable", what + "; then notmuch config list " + q.str () + " " + q.err); return; }
	}
    }
    void dry_db (Exec &x, Plan &p, Ctx &c)
    {
	const Op &o = p.ops[target_index (p)];
	std::string what = "notmuch " + join (o.a) + " " + c.dry.str () + " " + c.dry.err;
	std::string key = p.get ("key");
	VS v = values_of (o);
	auto want = c.S0.config;
	if (c.dry.ok ()) {
	    if (v.empty () || v[0].empty ()) want.erase (key);
	    else want[key] = v[0];
	}
	std::string d = config_diff (want, c.S1.config);
	if (! d.empty ()) { x.fail ("database", what + ": " + d); return; }
	if (c.dry.ok () && ! v.empty () && representable (v[0]) && ! v[0].empty ()) {
	    // the file has precedence
	    std::map<std::string, std::string> a, na;
	    parse (before, &a, &na);
	    if (! a.count (key)) {
		ProcResult q = x.cmd ({ "config", "get", key });
		if (! q.ok () || q.out != v[0] + "\n") { x.fail ("read-back", what + "; then notmuch config get " + q.str () + " gives '" + q.out + "' " + q.err); return; }
	    }
	}
    }
    static std::string config_diff (const std::map<std::string, std::string> &want, const std::map<std::string, std::string> &got)
    {
	for (auto &q : want) { auto i = got.find (q.first); if (i == got.end () || i->second != q.second) return q.first + " is '" + (i == got.end () ? "(missing)" : i->second) + "' instead of '" + q.second + "'"; }
	for (auto &q : got) if (! want.count (q.first)) return q.first + " is set to '" + q.second + "'";
	return "";
    }
    void check_dry (Exec &x, Plan &p, Ctx &c) override
    {
	if (died (c.dry)) { x.fail ("crash", "notmuch " + join (p.ops[target_index (p)].a) + " " + c.dry.str () + " " + c.dry.err); return; }
	if (p.kind == "database") dry_db (x, p, c); else dry_file (x, p, c.dry);
	watch (x, p);
    }
    void check (Exec &x, Plan &p, Ctx &c, const Op &target, const ProcResult &res) override
    {
	std::string what = "notmuch " + join (target.a) + " " + res.str () + " " + res.err;
	x.statehash = x.w.hash;
	std::string t = torn;
	torn.clear ();
	if (died (res)) { x.fail ("crash", what); return; }
	if (p.kind == "database") {
	    NmState S = x.observe (NM_RAW | NM_AUDIT);
	    std::string d = problems (S), d0 = config_diff (c.S0.config, S.config), d1 = config_diff (c.S1.config, S.config);
	    if (! d.empty ()) { x.fail ("db", what + ": " + d); return; }
	    if (! d0.empty () && ! d1.empty ()) { x.fail ("half", what + ": " + d1); return; }
	    if (res.ok () && ! d1.empty ()) { x.fail ("not-new", what + ": " + d1); return; }
	    // a failure while closing may leave it saved
	    d = diff_model (c.M0, model_of (S));
	    if (! d.empty ()) { x.fail ("db", what + ": " + d); return; }
	    return;
	}
	if (! t.empty ()) { x.fail ("torn", what + ": " + t); return; }
	std::string now;
	bool there = x.w.fs.slurp (file, &now);
	bool is0 = there == had && now == before, is1 = there && (now == after || (p.kind == "setup" && complete (now))) && c.dry.ok ();
	if (! had && res.how == H_POWER) return; // there was nothing to lose
	if (! is0 && ! is1) { x.fail ("torn", what + (there ? fmt (": the file holds %d bytes that are neither the old nor the new contents", (int) now.size ()) : ": the file is gone")); return; }
	if (res.ok () && ! is1) { x.fail ("not-new", what + ": the file is as before"); return; }
	if (res.how == H_EXITED && ! res.ok () && ! is0) { x.fail ("not-old", what + ": the file has the new contents"); return; }
	if (res.how == H_EXITED && (target.faults.empty () || target.faults[0].kind != F_STICKY) && nearby (x) != around) { x.fail ("left", what + ": other files beside it changed"); return; }
	if (had && there) {
	    ProcResult q = x.cmd ({ "config", "list" });
	    if (! q.ok ()) { x.fail ("unusable", what + "; then notmuch config list " + q.str () + " " + q.err); return; }
	}
	if (! res.ok () || ! had) return;
	Snap s = x.snap (); // and it stays one of the two when the power fails now
	for (auto md : std::vector<std::pair<int, int>>{ { 0, 0 }, { 100, 0 }, { 60, 2 } }) {
	    PowerSpec ps;
	    ps.keep_pct = md.first;
	    ps.data_mode = md.second;
	    x.w.fs.power_loss (ps);
	    now.clear ();
	    there = x.w.fs.slurp (file, &now);
	    x.restore (s);
	    if (! (there == had && now == before) && ! (there && (now == after || (p.kind == "setup" && complete (now))))) { x.fail ("torn", what + "; after a power loss the file is neither old nor new"); return; }
	}
    }
};

static P18 p18;
static P16 p16;

Workload *workload_maint (const std::string &prop, const std::string &)
{
    if (prop == "P16") return &p16;
    if (prop == "P18") return &p18;
    return nullptr;
}

}
