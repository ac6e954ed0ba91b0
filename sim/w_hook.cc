// Workload of hooks: P22.
#include "model.h"
#include "syscalls.h"
#include "target.h"
#include <algorithm>

namespace sim {

struct P22 : TargetWorkload {
    P22 () { prop = "P22"; budget_quick = 40; budget_thorough = 400; }
    FaultMix mix () override { FaultMix m; m.err = m.sticky = m.kill = m.sig = m.shortio = true; return m; }

    struct Event {
	std::string name;
	int by = 0, node_steps = 0;  // whose hook it is; its calls so far
	FS before, after;
	bool ended = false;
	int code = 0, sig = 0;
	std::vector<int> status;     // of the commands it ran
    };
    std::vector<std::shared_ptr<Event>> events;
    std::map<std::string, Op> hooks;
    std::string dir;
    VS extra;                        // options of every command here

    // ---- generation
    static void hook (Gen &g, const std::string &name, bool many)
    {
	Rng &r = g.r;
	std::string mode = r.pct (86) ? "x" : r.of (VS{ "noexec", "dangling", "dir", "format" });
	Op o ("hook", { name, mode });
	if (mode == "x") {
	    for (int i = r.below (many ? 4 : 3); i > 0; i--) {
		int k = r.below (100);
		if (k < 40) o.sub.push_back (Op ("run", { "tag", r.of (VS{ "+hook", "+todo", "-inbox", "-unread", "+flagged", "-" + name, "+" + name }), "--", r.of (VS{ "*", "tag:inbox", "not tag:hook", g.mids.empty () ? "*" : idq (g.anymid ()) }) }));
		else if (k < 62) {
		    std::string d = g.msg (r.pct (50) && ! g.mids.empty () ? VS{ g.anymid () } : VS{});
		    o.sub.push_back (Op ("act", { "put " + pct_enc (g.fname (r.of (g.dirs))) + " " + d }));
		} else if (k < 76) {
		    std::string d = g.msg ();
		    Op q ("run", { "insert", "--no-hooks" });
		    if (r.pct (40)) q.a.push_back ("+inserted");
		    for (auto &m : g.p.ops) if (m.verb == "msg" && m.a[0] == d) q.in = m.a[2];
		    o.sub.push_back (q);
		} else if (k < 83) o.sub.push_back (Op ("run", { "new", "--no-hooks", "--quiet" }));
		else if (k < 90) o.sub.push_back (Op ("run", { "search", "*" }));
		else if (k < 95) o.sub.push_back (Op ("run", { "config", "set", "--database", "query.hook", "tag:hook" }));
		else o.sub.push_back (Op ("run", { "count", "--lastmod", "*" }));
	    }
	    int k = r.below (100);
	    if (k < 22) o.sub.push_back (Op ("act", { fmt ("exit %d", r.of (std::vector<int>{ 1, 2, 75, 127, 255 })) }));
	    else if (k < 36) o.sub.push_back (Op ("act", { fmt ("signal %d", r.of (std::vector<int>{ 9, 15, 2, 6, 11 })) }));
	}
	// the definitions come first
	g.p.ops.push_back (o);
    }
    static Op insert (Gen &g)
    {
	Rng &r = g.r;
	Op o ("run", { "insert" });
	if (r.pct (40)) { std::string d = r.of (g.dirs); if (! d.empty ()) o.a.push_back ("--folder=" + d); }
	if (r.pct (20)) o.a.push_back ("--keep");
	if (r.pct (12)) o.a.push_back ("--no-hooks");
	if (r.pct (40)) o.a.push_back (r.of (VS{ "+inserted", "-unread", "-inbox", "+work" }));
	std::string d = r.pct (25) && ! g.names.empty () ? g.copy_def (r.of (g.names)) : g.msg (r.pct (50) && ! g.mids.empty () ? VS{ g.anymid () } : VS{});
	for (auto &m : g.p.ops) if (m.verb == "msg" && m.a[0] == d) o.in = m.a[2];
	return o;
    }
    static Op scan (Rng &r)
    {
	Op o ("run", { "new" });
	if (r.pct (40)) o.a.push_back ("--quiet");
	if (r.pct (15)) o.a.push_back ("--full-scan");
	if (r.pct (10)) o.a.push_back ("--no-hooks");
	if (r.pct (30)) o.env.push_back (fmt ("XAPIAN_FLUSH_THRESHOLD=%d", r.range (1, 3)));
	return o;
    }
    Plan gen (Rng &r, int) override
    {
	Plan p;
	p.prop = prop;
	p.kind = r.pct (25) ? "beside" : "one";
	Gen g (r, p);
	Conf c = rconf (r);
	std::string where = r.pct (60) ? "/sim/home/mail/.notmuch/hooks" : r.pct (50) ? "/sim/home/my hooks" : "/sim/home/.config/notmuch/default/hooks";
	if (where == "/sim/home/my hooks") c.extra += "[database]\nhook_dir=" + where + "\n";
	g.start (c);
	p.add ("hookdir", { where });
	initial (g, 0, 4);
	g.adv ();
	bool fresh = p.kind == "one" && r.pct (12);
	if (! fresh) {
	    p.ops.push_back (new_op (r));
	    p.ops.back ().a.push_back ("--no-hooks");
	    tagging (g, r.below (3));
	    g.adv ();
	    for (int i = r.below (4); i > 0; i--) { g.mutate (); if (r.pct (20)) g.adv (); }
	    g.adv ();
	}
	if (p.kind == "beside") {
	    hook (g, "pre-new", true);
	    hook (g, "post-new", true);
	    hook (g, "post-insert", true);
	    Op par ("par", {});
	    for (int i = r.range (2, 3); i > 0; i--) {
		int k = r.below (100);
		Op o = k < 45 ? scan (r) : k < 80 ? insert (g) : Op ("run", { "tag", "+beside", "--", "*" });
		if (r.pct (40)) o.delay = r.range (1, 700);
		if (r.pct (30)) stall (r, o, 10, 300);
		par.sub.push_back (o);
	    }
	    par.sched.seed = r.next () % 1000000;
	    par.sched.pct = r.of (std::vector<int>{ 3, 10, 30, 50 });
	    p.add ("target", {});
	    p.ops.push_back (par);
	    return p;
	}
	bool ins = ! fresh && r.pct (45);
	if (r.pct (20)) p.par["rc"] = "1";
	if (ins) {
	    if (r.pct (92)) hook (g, "post-insert", true);
	    if (r.pct (20)) hook (g, "pre-new", false);
	} else {
	    if (r.pct (65)) hook (g, "pre-new", true);
	    if (r.pct (80)) hook (g, "post-new", true);
	    if (r.pct (20)) hook (g, "post-insert", false);
	}
	Op o = ins ? insert (g) : scan (r);
	if (p.geti ("rc")) o.a.insert (o.a.begin (), "--config=/sim/home/rc2");
	p.add ("target", {});
	p.ops.push_back (o);
	return p;
    }

    // ---- running
    void install (Exec &x, const Op &o)
    {
	if (o.verb == "hookdir") { dir = o.a[0]; return; }
	if (o.verb != "hook" || dir.empty ()) return;
	if (dir.compare (0, 14, "/sim/home/mail") == 0 && ! x.w.fs.isdir (x.root + "/.notmuch")) x.w.fs.mkdirs (x.root + "/.notmuch");
	x.w.fs.mkdirs (dir);
	std::string f = dir + "/" + o.a[0];
	hooks[o.a[0]] = o;
	if (o.a[1] == "dir") x.w.fs.mkdirs (f);
	else if (o.a[1] == "dangling") x.w.fs.symlink ("/sim/home/nowhere", f);
	else x.w.fs.put (f, o.a[1] == "format" ? "no program" : "#!/sim/bin/sh\n", o.a[1] == "noexec" ? 0644 : 0755);
    }
    void other (Exec &x, Plan &, const Op &o) override { install (x, o); }
    int body (Exec &x, std::shared_ptr<Event> e, const std::string &name)
    {
	Op &h = hooks[name];
	auto done = [&](int code, int sig) {
	    e->code = code;
	    e->sig = sig;
	    e->after = x.w.fs;
	    e->ended = true;
	};
	for (size_t i = 0; i < h.sub.size (); i++) {
	    const Op &o = h.sub[i];
	    if (o.verb == "run") {
		std::string no = std::to_string (i);
		char *av[] = { (char *) "/sim/bin/notmuch", (char *) name.c_str (), (char *) no.c_str (), nullptr };
		pid_t pid = sim_fork ();
		if (pid == 0) { sim_exec (av[0], av, nullptr); sim__exit (126); }
		int st = 0;
		sim_waitpid (pid, &st, 0);
		e->status.push_back (st);
		continue;
	    }
	    for (auto &it : o.a) {
		VS t = split (it, ' ');
		if (t[0] == "exit") { done (atoi (t[1].c_str ()), 0); return e->code; }
		if (t[0] == "signal") { done (0, atoi (t[1].c_str ())); if (e->sig == 9) sim_kill (sim_getpid (), 9); x.w.leave (H_SIGNALED, e->sig); }
		if (t[0] == "put") { std::string d = pct_dec (t[2]); a_put (x.root + "/" + pct_dec (t[1]), x.defs.count (d) ? x.defs[d].bytes : d); }
	    }
	}
	done (0, 0);
	return 0;
    }
    void arm (Exec &x)
    {
	events.clear ();
	x.w.exec_hook = [this, &x](Node *n, const std::string &path, const std::vector<std::string> &argv, ProcSpec *s) {
	    if (path == "/sim/bin/notmuch") {
		Op o = hooks[argv[1]].sub[atoi (argv[2].c_str ())];
		*s = x.spec (o);
		return true;
	    }
	    std::string name = path.substr (path.rfind ('/') + 1);
	    if (path != dir + "/" + name || ! hooks.count (name) || hooks[name].a[1] != "x") return false;
	    auto e = std::make_shared<Event> ();
	    e->name = name;
	    e->by = n->idx;
	    e->node_steps = n->res.steps;
	    e->before = x.w.fs;
	    events.push_back (e);
	    s->name = "hook " + name;
	    s->fn = [this, &x, e, name]() { return body (x, e, name); };
	    return true;
	};
    }
    bool setup (Exec &x, Plan &p) override
    {
	x.w.fs.put ("/sim/bin/notmuch", "ELF", 0755);
	x.w.fs.put ("/sim/bin/sh", "ELF", 0755);
	if (p.geti ("rc")) { // the configuration comes with --config
	    x.w.fs.rename ("/sim/home/.notmuch-config", "/sim/home/rc2");
	    x.w.fs.put ("/sim/home/.notmuch-config", "[database]\npath=/sim/home/elsewhere\n");
	}
	const Op &o = p.ops[target_index (p)];
	for (auto &s : o.verb == "par" ? o.sub : std::vector<Op>{ o }) {
	    if (std::find (s.a.begin (), s.a.end (), "insert") == s.a.end ()) continue;
	    if (! x.bybytes.count (s.in)) return false;
	}
	arm (x);
	return true;
    }
    static bool is (const Op &o, const char *w) { return std::find (o.a.begin (), o.a.end (), w) != o.a.end (); }
    std::string mode (const std::string &name) { auto i = hooks.find (name); return i == hooks.end () ? "none" : i->second.a[1]; }
    static std::string same (const NmState &a, const NmState &b)
    {
	if (a.status && b.status) return "";
	std::string d = problems (b);
	return d.empty () ? identical (a, b) : d;
    }
    // what a hook did by itself, seen from outside
    static std::string about (const Event &e) { return "the " + e.name + " hook (" + (! e.ended ? "unfinished" : e.sig ? fmt ("signal %d", e.sig) : fmt ("exit %d", e.code)) + ")"; }
    int count (const std::string &name, int by = -1) { int n = 0; for (auto &e : events) if (e->name == name && (by < 0 || e->by == by)) n++; return n; }
    bool has_bytes (Exec &x, const std::string &b)
    {
	for (auto &f : all_files (x.w.fs, x.root)) if (f.second == b) return true;
	return false;
    }

    void verdict (Exec &x, Plan &p, Ctx &c, const Op &target, const ProcResult &res)
    {
	std::string what = "notmuch " + join (target.a) + " " + res.str () + " " + res.err.substr (0, 300);
	auto evs = events;
	for (auto &e : evs) what += "; ran " + about (*e);
	if (died (res)) { x.fail ("crash", what); return; }
	bool ins = is (target, "insert"), off = is (target, "--no-hooks"), keep = is (target, "--keep");
	const Fault *f = target.faults.empty () ? nullptr : &target.faults[0];
	Sys at = f && f->at <= (int) c.dry.trace.size () ? c.dry.trace[f->at - 1].kind : S_NSYS;
	bool calls = at == S_FORK || at == S_EXEC || at == S_ACCESS || at == S_WAIT; // the running of hooks itself is disturbed
	std::shared_ptr<Event> pre, post;
	for (auto &e : evs) {
	    x.stats->add ("chk.hooks_run");
	    if (off) { x.fail ("unasked", what + ", with --no-hooks"); return; }
	    bool first = e->name == "pre-new";
	    if (ins != (e->name == "post-insert")) { x.fail ("unasked", what); return; }
	    if (count (e->name) > 1) { x.fail ("twice", what); return; }
	    (first ? pre : post) = e;
	    if (! e->ended && res.how == H_EXITED && ! calls) { x.fail ("abandoned", what); return; }
	    if (! e->ended) return;
	}
	if (pre && post && evs[0] != pre) { x.fail ("order", what); return; }
	std::string d;
	NmState S = x.observe ();
	// before the scan
	Snap cur = x.snap ();
	if (pre) {
	    NmState s = x.observe_fs (pre->before);
	    if (c.S0.status) { if (! s.status && ! s.msgs.empty ()) d = "there are messages"; }
	    else d = same (c.S0, s);
	    if (! d.empty ()) { x.fail ("late", what + "; when the pre-new hook ran the database had changed: " + d); return; }
	}
	bool bad = pre && (pre->code || pre->sig);
	if (! f && ! ins && ! off) for (const char *m : { "noexec", "dir", "format" }) if (mode ("pre-new") == m) bad = true;
	if (bad) {
	    x.stats->add ("chk.scan_called_off");
	    if (res.ok ()) { x.fail ("ignored", what + "; the pre-new hook failed"); return; }
	    if (post) { x.fail ("ignored", what + "; the pre-new hook failed, but there was a scan"); return; }
	    NmState s = pre ? x.observe_fs (pre->after) : c.S0;
	    if (s.status) { if (! S.status && ! S.msgs.empty ()) d = "there are messages"; }
	    else d = same (s, S);
	    if (! d.empty ()) { x.fail ("ignored", what + "; the pre-new hook failed, and the database changed: " + d); return; }
	    return;
	}
	// after it
	if (post) {
	    NmState b = x.observe_fs (post->before), e = x.observe_fs (post->after);
	    d = problems (b);
	    if (! d.empty ()) { x.fail ("uncommitted", what + "; when the " + post->name + " hook ran: " + d); return; }
	    d = same (e, S);
	    if (! d.empty ()) { x.fail ("uncommitted", what + "; after the " + post->name + " hook the database changed: " + d); return; }
	    for (size_t i = 0; i < post->status.size () && ! f; i++)
		if (post->status[i]) { x.fail ("hindered", what + fmt ("; in the hook command %d failed with status %d", (int) i, post->status[i])); return; }
	    if (f && ! ins && f->at < post->node_steps - (f->kind == F_SIGINT ? 12 : 0) && ! res.ok () && ! (res.how == H_EXITED && res.code == 75) && ! post->code && ! post->sig && ! calls && res.how == H_EXITED && f->kind != F_STICKY)
		{ x.fail ("unasked", what + "; there were errors before the hook ran"); return; }
	}
	if (pre) for (size_t i = 0; i < pre->status.size () && ! f; i++)
		if (pre->status[i]) { x.fail ("hindered", what + fmt ("; in the pre-new hook command %d failed with status %d", (int) i, pre->status[i])); return; }
	bool fine = res.ok () || (! f && ! ins && post && (post->code || post->sig));
	if (! f && ins && ! res.ok ()) { x.fail ("hook-counts", what + "; the delivery fails"); return; }
	if (! f && ! ins && ! res.ok () && ! (post && (post->code || post->sig)) && ! (mode ("post-new") != "x" && mode ("post-new") != "none" && mode ("post-new") != "dangling")) { x.fail ("scan-fails", what); return; }
	if (! f && ! ins && res.ok () && ((post && (post->code || post->sig)) || (! off && mode ("post-new") != "x" && mode ("post-new") != "none" && mode ("post-new") != "dangling"))) { x.fail ("unreported", what); return; }
	if (! fine) return;
	// a command that went well ran each hook and did all it does without hooks
	if (! off && ! (f && calls)) {
	    if (! ins && mode ("pre-new") == "x" && ! pre) { x.fail ("skipped", what + "; the pre-new hook did not run"); return; }
	    const char *n = ins ? "post-insert" : "post-new";
	    if (mode (n) == "x" && ! post) { x.fail ("skipped", what + "; the " + std::string (n) + " hook did not run"); return; }
	}
	if (ins && ! has_bytes (x, target.in)) { x.fail ("lost", what + "; the message is nowhere in the mail store"); return; }
	if (keep && f) return;
	NmState got = post ? x.observe_fs (post->before) : S;
	if (pre) { Snap s = c.s0; s.fs = pre->after; s.clock = c.s0.clock + 2000000000LL; x.restore (s); } else x.restore (c.s0);
	Op o = target;
	o.faults.clear ();
	o.a.push_back ("--no-hooks");
	if (ins) { // options before tags
	    o.a.pop_back ();
	    o.a.insert (std::find (o.a.begin (), o.a.end (), "insert") + 1, "--no-hooks");
	}
	ProcResult q = x.run (o);
	NmState want = x.observe ();
	x.restore (cur);
	arm (x);
	events = evs;
	if (! q.ok ()) { x.fail ("scan-fails", what + "; without hooks: " + q.str () + " " + q.err); return; }
	x.stats->add ("chk.compared");
	Model mw = model_of (want), mg = model_of (got);
	if (ins) // file names depend on time, and a rename that fails is left out
	    for (auto m : { &mw, &mg }) for (auto &e : *m) {
		SS k;
		int n = 0;
		for (auto &fl : e.second.files) { auto i = c.M0.find (e.first); k.insert (! f && i != c.M0.end () && i->second.files.count (fl) ? fl : fmt ("new %d", n++)); }
		e.second.files = k;
	    }
	d = diff_model (mw, mg);
	if (d.empty () && thread_key (want) != thread_key (got)) d = "threads are " + thread_key (got) + " instead of " + thread_key (want);
	if (! d.empty ()) { x.fail ("uncommitted", what + (post ? "; when the hook ran, compared with no hooks: " : "; compared with no hooks: ") + d); return; }
    }
    void check_dry (Exec &x, Plan &p, Ctx &c) override
    {
	Op o = p.ops[target_index (p)];
	o.faults.clear ();
	verdict (x, p, c, o, c.dry);
	arm (x);
    }
    void check (Exec &x, Plan &p, Ctx &c, const Op &target, const ProcResult &res) override
    {
	verdict (x, p, c, target, res);
	x.statehash = x.w.hash;
	arm (x);
    }

    // ---- several commands with hooks at a time
    void beside (Exec &x, Plan &p)
    {
	x.begin ();
	x.plan = &p;
	hooks.clear ();
	dir.clear ();
	int t = target_index (p);
	if (t < 0 || t >= (int) p.ops.size () || p.ops[t].verb != "par") return;
	for (int i = 0; i < t - 1; i++) if (! x.apply (p.ops[i])) install (x, p.ops[i]);
	if (! x.w.fs.isdir (x.root + "/.notmuch/xapian")) return;
	if (! setup (x, p)) return;
	x.w.fs.sync_all ();
	Op &par = p.ops[t];
	Model M0 = model_of (x.observe ());
	auto tree0 = x.tree ();
	auto rs = x.par (par);
	x.stats->add ("runs");
	std::string what;
	for (size_t i = 0; i < rs.size (); i++) what += (i ? "; notmuch " : "notmuch ") + join (par.sub[i].a) + " " + rs[i].str () + " " + rs[i].err.substr (0, 200);
	for (auto &e : events) what += fmt ("; %d ran ", e->by) + about (*e);
	for (auto &r : rs) if (died (r)) { x.fail ("crash", what); return; }
	for (auto &e : events) {
	    const Op &o = par.sub[e->by];
	    x.stats->add ("chk.hooks_run");
	    bool ins = is (o, "insert");
	    if (is (o, "--no-hooks") || o.a[0] == "tag" || ins != (e->name == "post-insert")) { x.fail ("unasked", what); return; }
	    if (count (e->name, e->by) > 1) { x.fail ("twice", what); return; }
	    if (! e->ended) { x.fail ("abandoned", what); return; }
	    if (e->name == "pre-new") {
		if ((e->code || e->sig) && (rs[e->by].ok () || count ("post-new", e->by))) { x.fail ("ignored", what); return; }
		continue;
	    }
	    NmState b = x.observe_fs (e->before);
	    std::string d = problems (b);
	    if (! d.empty ()) { x.fail ("uncommitted", what + "; when " + about (*e) + " ran: " + d); return; }
	    Model m = model_of (b);
	    if (ins && ! is (o, "--keep")) {
		std::string mid = x.defs[x.bybytes[o.in]].mid;
		if (! m.count (mid)) { x.fail ("uncommitted", what + "; when " + about (*e) + " ran the message " + mid + " was not in the database"); return; }
	    }
	    if (! ins)
		for (auto &q : tree0) if (! m.count (q.first)) { x.fail ("uncommitted", what + "; when " + about (*e) + " ran the message " + q.first + " was not in the database"); return; }
	}
	for (size_t i = 0; i < rs.size (); i++) {
	    const Op &o = par.sub[i];
	    bool ins = is (o, "insert");
	    if (! rs[i].ok () || o.a[0] == "tag") continue;
	    const char *n = ins ? "post-insert" : "post-new";
	    if (! is (o, "--no-hooks") && mode (n) == "x" && ! count (n, i)) { x.fail ("skipped", what); return; }
	    if (ins && ! has_bytes (x, o.in)) { x.fail ("lost", what + "; a message is nowhere in the mail store"); return; }
	}
	ProcResult q = x.cmd ({ "new", "--no-hooks" });
	x.w.clock += 3000000000LL;
	q = x.cmd ({ "new", "--no-hooks" });
	NmState S = x.observe (NM_RAW | NM_AUDIT);
	std::string d = q.ok () ? problems (S) : q.str () + " " + q.err;
	if (! d.empty ()) { x.fail ("db", what + "; then a scan: " + d); return; }
	Model m = model_of (S);
	auto tree = x.tree ();
	for (auto &e : tree) {
	    auto i = m.find (e.first);
	    if (i == m.end () || i->second.files != e.second) { x.fail ("lost", what + "; then a scan; message " + e.first + " is " + (i == m.end () ? "missing" : i->second.str ())); return; }
	}
	x.statehash = model_hash (S) ^ x.w.hash;
	x.stats->states.insert (x.statehash);
    }
    void exec (Exec &x, Plan &p) override
    {
	if (p.kind == "beside") { beside (x, p); return; }
	hooks.clear ();
	dir.clear ();
	TargetWorkload::exec (x, p);
    }
    void explore (Exec &x, Plan &p, Rng &r, int tier, const std::function<bool(const Plan &)> &report) override
    {
	hooks.clear ();
	dir.clear ();
	if (p.kind == "beside") { Workload::explore (x, p, r, tier, report); return; }
	TargetWorkload::explore (x, p, r, tier, report);
    }
};

static P22 p22;
Workload *workload_hook (const std::string &prop, const std::string &)
{
    return prop == "P22" ? &p22 : nullptr;
}

}
