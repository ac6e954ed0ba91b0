// Workloads around tags: P07, P15, P20, P21.
#include "model.h"
#include "target.h"
#include <algorithm>
#include <cstring>

namespace sim {

// ---------------------------------------------------------------- commands with a known meaning
// verbs: tagq MODE QUERY OPS...      (MODE: infix sexp, +ra for --remove-all)
//        batch MODE LINE...          (LINE: "HEXOPS|QUERY" or "!raw")
Op real_op (const Op &o)
{
    Op r ("run", { "tag" });
    r.env = o.env;
    r.faults = o.faults;
    r.chunks = o.chunks;
    bool ra = o.a[0].find ("+ra") != std::string::npos, sx = o.a[0].compare (0, 4, "sexp") == 0;
    if (ra) r.a.push_back ("--remove-all");
    if (sx) r.a.push_back ("--query=sexp");
    auto qs = [&](const std::string &s) { Q q = Q::parse (s); return sx ? q.sexp () : q.infix (); };
    if (o.verb == "tagq") {
	r.a.insert (r.a.end (), o.a.begin () + 2, o.a.end ());
	r.a.push_back ("--");
	r.a.push_back (qs (o.a[1]));
    } else {
	r.a.push_back ("--batch");
	for (size_t i = 1; i < o.a.size (); i++) {
	    const std::string &l = o.a[i];
	    if (l[0] == '!') { r.in += l.substr (1) + "\n"; continue; }
	    size_t k = l.find ('|');
	    r.in += l.substr (0, k) + (k ? " " : "") + "-- " + qs (l.substr (k + 1)) + "\n";
	}
    }
    return r;
}

Stages stages_of (Exec &x, const Op &o, QEnv e)
{
    Stages s;
    bool ra = o.a[0].find ("+ra") != std::string::npos;
    s.t.push_back (e.m);
    SS names;
    for (auto &f : all_files (x.w.fs, x.root)) names.insert (f.first);
    auto one = [&](const std::string &q, const VS &ops) {
	for (auto &id : eval (e, Q::parse (q))) {
	    MM &m = e.m[id];
	    bool touch = false;
	    if (ra) { // a message that has just these tags is left alone
		std::map<std::string, char> last;
		for (auto &t : ops) last[t.substr (1)] = t[0];
		for (auto &t : m.tags) if (! last.count (t) || last[t] != '+') touch = true;
		for (auto &t : ops) if (t[0] == '+' && ! m.tags.count (t.substr (1))) touch = true;
	    } else for (auto &t : ops) if ((t[0] == '+') != (m.tags.count (t.substr (1)) > 0)) touch = true;
	    if (! touch) continue;
	    apply_ops (m.tags, ops, ra);
	    if (! x.conf.sync) continue;
	    SS n; // later lines see the new names
	    for (auto &f : m.files) { // a file that is gone keeps its name
		std::string t = names.count (f) ? flag_name (f, m.tags) : f;
		if (t != f && names.count (t)) t = f; // the name is taken
		size_t sl = t.rfind ('/');
		ino_num i;
		if (t != f && x.w.fs.lookup (x.root + "/" + t.substr (0, sl == std::string::npos ? 0 : sl), true, &i)) t = f; // there is no cur/
		n.insert (t);
		if (t != f) { names.erase (f); names.insert (t); }
	    }
	    m.files = n;
	}
	s.t.push_back (e.m);
    };
    if (o.verb == "tagq") one (o.a[1], VS (o.a.begin () + 2, o.a.end ()));
    else
	for (size_t i = 1; i < o.a.size (); i++) {
	    const std::string &l = o.a[i];
	    if (l[0] == '!') {
		if (l.size () == 1 || l[1] == '#') continue;
		s.bad = true;
		if (l.compare (0, 2, "!@") == 0) break; // a query that fails ends the batch
		continue;
	    }
	    size_t k = l.find ('|');
	    VS ops;
	    for (auto &h : split (l.substr (0, k), ' ')) if (! h.empty ()) { std::string t; unhex (h.substr (1), &t); ops.push_back (h[0] + t); }
	    one (l.substr (k + 1), ops);
	}
    return s;
}

const VS excl = { "deleted", "spam" };

Op gen_tagq (Gen &g)
{
    Rng &r = g.r;
    Op o ("tagq", {});
    bool ra = r.pct (12);
    o.a.push_back (std::string (r.pct (25) ? "sexp" : "infix") + (ra ? "+ra" : ""));
    o.a.push_back (rquery (g, 2).str ());
    for (auto &t : rops (g, ra ? 0 : 1, 3, excl)) o.a.push_back (t);
    if (r.pct (30)) o.env.push_back (fmt ("XAPIAN_FLUSH_THRESHOLD=%d", r.range (1, 3)));
    return o;
}

Op gen_batch (Gen &g, bool bad)
{
    Rng &r = g.r;
    Op o ("batch", { r.pct (20) ? "sexp" : "infix" });
    if (r.pct (8)) o.a[0] += "+ra";
    int n = r.range (1, 6);
    for (int i = 0; i < n; i++) {
	if (bad && r.pct (12)) {
	    static const VS junk = { "!", "!# comment", "!+foo", "!+%zz -- *", "!+ -- *", "!+-x -- *", "!+a +b", "!+%4 -- *" };
	    o.a.push_back (r.of (junk));
	    continue;
	}
	std::string l;
	for (auto &t : rops (g, 1, 3, excl)) l += (l.empty () ? "" : " ") + t.substr (0, 1) + hexq (t.substr (1));
	o.a.push_back (l + "|" + rquery (g, 1).str ());
    }
    if (r.pct (40)) { int k = r.range (1, 10); for (int i = 0; i < k; i++) o.chunks.push_back (r.range (1, 60)); }
    if (r.pct (30)) o.env.push_back (fmt ("XAPIAN_FLUSH_THRESHOLD=%d", r.range (1, 3)));
    return o;
}

std::string tags_differ (const Model &want, const Model &got)
{
    for (auto &p : want) {
	auto i = got.find (p.first);
	if (i == got.end ()) return "message " + p.first + " is missing";
	if (i->second.tags != p.second.tags) return "message " + p.first + " has tags {" + join (i->second.tags) + "} instead of {" + join (p.second.tags) + "}";
	if (i->second.props != p.second.props) return "message " + p.first + " has " + i->second.str () + " instead of " + p.second.str ();
    }
    for (auto &p : got) if (! want.count (p.first)) return "unexpected message " + p.first;
    return "";
}

// ---------------------------------------------------------------- P20
struct P20 : Workload {
    P20 () { prop = "P20"; }
    Plan gen (Rng &r, int tier) override
    {
	Plan p;
	p.prop = prop;
	p.kind = "history";
	Gen g (r, p);
	Conf c = rconf (r);
	if (r.pct (60)) c.exclude = excl;
	g.start (c);
	initial (g, 2, 7);
	p.add ("run", { "new" });
	int n = r.range (4, tier ? 30 : 14);
	int saved = 0;
	for (int i = 0; i < n; i++) {
	    int k = r.below (100);
	    Op o;
	    if (k < 25) o = gen_tagq (g);
	    else if (k < 37) o = gen_batch (g, true);
	    else if (k < 70) o = ask (g);
	    else if (k < 80) {
		g.p.add ("adv", { "2500000000" });
		int m = r.range (1, 3);
		for (int j = 0; j < m; j++) g.mutate ();
		g.p.add ("adv", { "2500000000" });
		o = new_op (r);
	    } else if (k < 84) o = Op ("reindexq", { rquery (g, 1).str () });
	    else if (k < 88) { // a delivery
		std::string nm = g.msg (g.mids.empty () ? VS () : VS{ g.anymid () });
		o = Op ("insertq", { nm });
		for (auto &t : rops (g, 0, 2, excl)) o.a.push_back (t);
	    } else if (k < 90) o = Op ("compact", {});
	    else if (k < 93) { o = Op ("save", {}); saved = 1; }
	    else if (k < 96) { if (! saved) continue; o = Op ("load", {}); }
	    else if (k < 98) { // a property
		std::string m = g.anymid ();
		if (m.find_first_of ("%\"'= ") != std::string::npos) continue;
		o = Op ("run", { "restore", "--include=properties", "--accumulate" });
		o.in = "#notmuch-dump batch-tag:3 properties\n#= " + m + " key=value" + fmt ("%d", r.below (5)) + "\n";
	    } else o = Op ("power", {});
	    bool canfault = o.verb != "ask" && o.verb != "save" && o.verb != "power" && o.verb != "compact" && o.verb != "insertq";
	    if (canfault && r.pct (18)) {
		Fault f;
		f.at = r.range (5, 120);
		int q = r.below (10);
		f.kind = q < 4 ? F_KILL : q < 7 ? F_ERR : q < 9 ? F_SIGINT : F_STICKY;
		f.arg = f.kind == F_KILL ? 9 : f.kind == F_SIGINT ? 2 : f.kind == F_STICKY ? ENOSPC : 0;
		o.faults.push_back (f);
	    }
	    p.ops.push_back (o);
	}
	return p;
    }
    Op ask (Gen &g)
    {
	static const VS what = { "messages", "messages", "files", "tags", "threads", "count", "countfiles", "countthreads", "dump", "json", "summary", "raw", "address", "slice" };
	Rng &r = g.r;
	Op o ("ask", { r.of (what), r.pct (20) ? "sexp" : "infix", r.pct (30) ? "noexclude" : "exclude", rquery (g, 2).str () });
	if (o.a[0] == "slice") { o.a.push_back (fmt ("%d", r.range (-4, 4))); o.a.push_back (fmt ("%d", r.range (0, 4))); }
	return o;
    }

    // state of the run
    QEnv e;
    NmState cur;
    std::string saved;
    Model savedm;

    void exec (Exec &x, Plan &p) override
    {
	x.begin ();
	x.plan = &p;
	saved.clear ();
	savedm.clear ();
	cur = NmState ();
	e = QEnv ();
	bool first = true;
	uint64_t h = 0;
	int i = 0;
	for (auto &o : p.ops) {
	    i++;
	    if (o.verb == "run" || o.verb == "reindexq" || o.verb == "compact" || o.verb == "load" || o.verb == "insertq") {
		other (x, o, first);
		first = false;
	    } else if (o.verb == "tagq" || o.verb == "batch") { if (! first) tag (x, o); }
	    else if (o.verb == "ask") { if (! first) asked (x, o); }
	    else if (o.verb == "save") {
		if (first) continue;
		ProcResult r = x.cmd ({ "dump" });
		if (! r.ok ()) x.fail ("dump", "notmuch dump " + r.str () + " " + r.err);
		saved = r.out;
		savedm = e.m;
	    } else if (o.verb == "power") {
		x.w.fs.sync_all ();
		PowerSpec ps;
		x.w.fs.power_loss (ps);
	    } else { x.apply (o); continue; }
	    if (x.failed () || ! x.knownhit.empty ()) return;
	    h = h * 31 + model_hash (cur);
	    x.stats->states.insert (model_hash (cur) ^ fnv (o.verb));
	}
	// the whole picture
	if (first) return;
	NmState s = x.observe (NM_RAW | NM_AUDIT);
	x.stats->add ("runs");
	std::string d = problems (s);
	if (! d.empty ()) { x.fail ("audit", d); return; }
	for (const char *w : { "messages", "files", "tags", "threads", "count", "countfiles", "countthreads", "dump", "json", "summary", "address" }) {
	    asked (x, Op ("ask", { w, "infix", "exclude", "( all )" }));
	    if (x.failed ()) return;
	}
	std::map<std::string, bool> tags;
	for (auto &m : e.m) for (auto &t : m.second.tags) tags[t] = true;
	for (auto &t : tags) {
	    Q q;
	    q.op = "tag";
	    q.a = { t.first };
	    asked (x, Op ("ask", { "messages", "infix", "exclude", q.str () }));
	    if (x.failed ()) return;
	}
    }
    void look (Exec &x)
    {
	cur = x.observe (NM_RAW);
	std::string d = problems (cur);
	if (! d.empty ()) { x.fail ("db", d); return; }
	e = qenv (x, cur);
    }
    void tag (Exec &x, const Op &o)
    {
	Stages st = stages_of (x, o, e);
	Op ro = real_op (o);
	ProcResult r = x.run (ro);
	if (died (r)) { x.fail ("crash", "notmuch tag " + r.str () + " " + r.err); return; }
	std::map<std::string, SS> files0;
	for (auto &m : e.m) files0[m.first] = m.second.files;
	Model before = e.m;
	look (x);
	if (x.failed ()) return;
	std::string d;
	if (o.faults.empty () || r.ok ()) {
	    if (r.ok () == st.bad) {
		x.fail (st.bad ? "bad-line-accepted" : "tag-fails", "notmuch tag " + r.str () + " for " + o.str ().substr (0, 400) + " " + r.err);
		return;
	    }
	    // a rename that failed leaves the old name for the queries of later lines
	    bool names = ! o.faults.empty () && x.conf.sync && (ro.str ().find ("path") != std::string::npos || ro.str ().find ("folder") != std::string::npos);
	    if (! names) d = tags_differ (st.t.back (), e.m);
	    if (! d.empty ()) { x.fail ("tags", "after " + ro.str ().substr (0, 500) + ": " + d); return; }
	} else {
	    // killed or failed somewhere: a whole number of lines, and one line for some of its messages
	    bool any = false;
	    std::string why;
	    for (size_t k = 0; k < st.t.size () && ! any; k++) {
		const Model &a = st.t[k], &b = st.t[std::min (k + 1, st.t.size () - 1)];
		why.clear ();
		for (auto &m : e.m) {
		    auto i = a.find (m.first);
		    if (i == a.end ()) { why = "unexpected message " + m.first; break; }
		    if (m.second.tags != i->second.tags && m.second.tags != b.at (m.first).tags) { why = "message " + m.first + " has tags {" + join (m.second.tags) + "}"; break; }
		    if (m.second.props != i->second.props) { why = "properties of " + m.first; break; }
		}
		if (e.m.size () != a.size ()) why = "a message is missing";
		if (why.empty ()) any = true;
	    }
	    if (! any) { x.fail ("half-line", "after " + ro.str ().substr (0, 500) + " " + r.str () + " the tags match no prefix of the lines: " + why); return; }
	}
	for (auto &m : e.m) { // files under their old or their flagged names
	    if (m.second.files.size () > files0[m.first].size ()) { x.fail ("files", "message " + m.first + " gained files: " + m.second.str ()); return; }
	    for (auto &f : m.second.files) {
		if (files0[m.first].count (f)) continue;
		bool known = false;
		for (auto &g : files0[m.first]) for (auto &s : st.t) if (x.conf.sync && flag_name (g, s.at (m.first).tags) == f) known = true;
		for (auto &g : files0[m.first]) { // through several lines of a batch
		    std::string a = g.substr (0, g.find (":2,")), b = f.substr (0, f.find (":2,"));
		    if (x.conf.sync && a.substr (a.rfind ('/') + 1) == b.substr (b.rfind ('/') + 1)) known = true;
		}
		if (! known) { x.fail ("files", "message " + m.first + " has the file " + f + " after tagging, it had {" + join (files0[m.first]) + "}"); return; }
	    }
	}
    }
    void other (Exec &x, const Op &o, bool first)
    {
	Op ro = o;
	std::string name = o.verb == "run" ? o.a[0] : o.verb;
	Model want = e.m;
	if (o.verb == "reindexq") {
	    ro = Op ("run", { "reindex", "--", Q::parse (o.a[0]).infix () });
	} else if (o.verb == "compact") ro = Op ("run", { "compact", "--quiet" });
	else if (o.verb == "load") { ro = Op ("run", { "restore" }); ro.in = saved; }
	else if (o.verb == "insertq") {
	    if (! x.defs.count (o.a[0])) return;
	    ro = Op ("run", { "insert" });
	    ro.in = x.defs[o.a[0]].bytes;
	    ro.a.insert (ro.a.end (), o.a.begin () + 1, o.a.end ());
	}
	ro.faults = o.faults;
	ro.env = o.env;
	bool scan = o.verb == "run" && name == "new";
	if (o.verb == "reindexq")
	    for (auto &id : eval (e, Q::parse (o.a[0]))) { // files that are gone are dropped
		SS f;
		for (auto &n : e.m[id].files) if (x.w.fs.exists (x.root + "/" + n)) f.insert (n);
		if (f.empty ()) want.erase (id); else want[id].files = f;
	    }
	if (scan) want = x.scan_model (e.m);
	else if (o.verb == "load")
	    for (auto &m : want) { if (savedm.count (m.first)) { m.second.tags = savedm[m.first].tags; if (! savedm[m.first].props.empty ()) m.second.props = savedm[m.first].props; } }
	else if (o.verb == "insertq") {
	    const MsgDef &d = x.defs[o.a[0]];
	    if (e.m.count (d.mid)) return;
	    MM m;
	    m.tags.insert (x.conf.newtags.begin (), x.conf.newtags.end ());
	    apply_ops (m.tags, VS (o.a.begin () + 1, o.a.end ()));
	    for (auto &t : x.autotags (d.mid)) m.tags.insert (t);
	    want[d.mid] = m;
	} else if (o.verb == "run" && name == "restore") {
	    VS t = split (o.in.substr (0, o.in.size () - 1), ' ');
	    std::string id = t[t.size () - 2], kv = t.back ();
	    if (want.count (id)) want[id].props.clear (); // replaced, even with --accumulate
	    if (want.count (id)) want[id].props.insert ({ kv.substr (0, kv.find ('=')), kv.substr (kv.find ('=') + 1) });
	}
	NmState before = cur;
	ProcResult r = x.run (ro);
	if (died (r)) { x.fail ("crash", "notmuch " + name + " " + r.str () + " " + r.err); return; }
	look (x);
	if (x.failed ()) { if (first) x.viols.clear (); return; }
	if (r.ok ()) {
	    Model got = e.m;
	    for (auto &m : want) { // tags that indexing may give again
		auto i = got.find (m.first);
		if (i == got.end ()) continue;
		for (auto &t : x.autotags (m.first)) { if (i->second.tags.count (t) && name != "restore" && name != "load") m.second.tags.insert (t); }
		// without synchronisation the flags of the file that happens to come first decide about "unread"
		if (scan && ! x.conf.sync && ! before.msgs.count (m.first) && m.second.files.size () > 1) {
		    m.second.tags.erase ("unread");
		    if (i->second.tags.count ("unread")) m.second.tags.insert ("unread");
		}
	    }
	    if (scan && x.conf.sync) // a file without flags that had others under a name still listed
		for (auto &m : want) {
		    auto b = before.msgs.find (m.first);
		    auto i = got.find (m.first);
		    if (b == before.msgs.end () || i == got.end () || has_info (m.second.files) || ! has_info (SS (b->second.files.begin (), b->second.files.end ()))) continue;
		    SS t = nonflag (m.second.tags);
		    for (auto &y : i->second.tags) if (flagtags.count (y)) t.insert (y);
		    m.second.tags = t;
		}
	    std::string d = tags_differ (want, got);
	    if (d.empty () && scan) for (auto &m : want) if (m.second.files != got[m.first].files) d = "message " + m.first + " has files {" + join (got[m.first].files) + "} instead of {" + join (m.second.files) + "}";
	    if (! d.empty ()) { x.fail ("after-" + name, "after notmuch " + ro.str ().substr (0, 300) + ": " + d); return; }
	} else if (o.faults.empty ()) {
	    x.fail ("fails", "notmuch " + name + " " + r.str () + " " + r.err);
	} else {
	    for (auto &m : want) for (auto &t : x.autotags (m.first)) { auto i = e.m.find (m.first); if (i != e.m.end () && i->second.tags.count (t)) m.second.tags.insert (t); }
	    for (auto &m : e.m) {
		auto a = before.msgs.find (m.first);
		auto b = want.find (m.first);
		SS at, bt, mt = m.second.tags;
		if (a != before.msgs.end ()) { at = a->second.tags; for (auto &t : x.autotags (m.first)) if (mt.count (t)) at.insert (t); }
		if (b != want.end ()) bt = b->second.tags;
		if (x.conf.sync) { at = nonflag (at); bt = nonflag (bt); mt = nonflag (mt); }
		if (! (a != before.msgs.end () && at == mt) && ! (b != want.end () && bt == mt)) {
		    x.fail ("half-" + name, "after notmuch " + name + " " + r.str () + " message " + m.first + " has tags {" + join (mt) + "}, before {" + join (at) + "}, complete {" + join (bt) + "}");
		    return;
		}
	    }
	    for (auto &m : before.msgs) if (! e.m.count (m.first) && want.count (m.first)) { x.fail ("half-" + name, "after notmuch " + name + " " + r.str () + " message " + m.first + " is gone"); return; }
	}
    }
    void asked (Exec &x, const Op &o)
    {
	const std::string &w = o.a[0];
	Q q = Q::parse (o.a[3]);
	bool ex = o.a[2] == "exclude" && o.a[3].find ("thread") == std::string::npos, sx = o.a[1] == "sexp";
	std::string qs = sx ? q.sexp () : q.infix ();
	SS raw = eval (e, q), ids;
	for (auto &id : raw) {
	    bool hide = false;
	    if (ex) for (auto &t : x.conf.exclude) if (e.m.at (id).tags.count (t) && ! q.mentions (t)) hide = true;
	    if (! hide) ids.insert (id);
	}
	VS a;
	auto mk = [&](VS v, bool excl = true) {
		      if (sx) v.push_back ("--query=sexp");
		      if (excl && ! ex) v.push_back ("--exclude=false");
		      v.push_back ("--");
		      v.push_back (qs);
		      return x.cmd (v);
		  };
	auto expect = [&](const SS &want, const SS &got, const std::string &what) {
			  if (want == got) return true;
			  x.fail ("view-" + w, "[" + qs + "]" + (ex ? "" : " without excludes") + " " + what + " gives {" + join (got) + "}, the messages say {" + join (want) + "}");
			  return false;
		      };
	ProcResult r;
	auto run = [&](const VS &v, bool excl = true) {
		       r = mk (v, excl);
		       if (r.ok ()) return true;
		       x.fail ("view-fails", "notmuch " + join (v) + " -- " + qs + " " + r.str () + " " + r.err);
		       return false;
		   };
	x.stats->add ("chk.view-" + w);
	SS threads, files, tags;
	for (auto &id : ids) {
	    threads.insert ("thread:" + e.thread.at (id));
	    const MM &m = e.m.at (id);
	    for (auto &f : m.files) files.insert (x.root + "/" + f);
	    tags.insert (m.tags.begin (), m.tags.end ());
	}
	auto setof = [&](const VS &v) {
	    SS s;
	    for (auto &l : v) if (! s.insert (l).second) x.fail ("view-" + w, "[" + qs + "] lists " + l + " twice");
	    return s;
	};
	if (w == "messages") {
	    if (! run ({ "search", "--output=messages", "--format=text0" })) return;
	    SS want;
	    for (auto &id : ids) want.insert ("id:" + id);
	    VS l = lines0 (r.out);
	    if (! expect (want, setof (l), "search")) return;
	    long prev = 0;
	    for (size_t i = 0; i < l.size (); i++) {
		long d = cur.msgs.at (l[i].substr (3)).date;
		if (i && d > prev) { x.fail ("view-order", "[" + qs + "] is not listed newest first"); return; }
		prev = d;
	    }
	} else if (w == "files") {
	    if (! run ({ "search", "--output=files", "--format=text0" })) return;
	    expect (files, setof (lines0 (r.out)), "search --output=files");
	} else if (w == "tags") {
	    if (! run ({ "search", "--output=tags", "--format=text0" })) return;
	    if (qs == "*") { tags.clear (); for (auto &m : e.m) tags.insert (m.second.tags.begin (), m.second.tags.end ()); }
	    expect (tags, setof (lines0 (r.out)), "search --output=tags");
	} else if (w == "threads") {
	    if (! run ({ "search", "--output=threads" })) return;
	    expect (threads, setof (lines0 (r.out)), "search --output=threads");
	} else if (w == "count") {
	    if (! run ({ "count" })) return;
	    expect ({ fmt ("%zu", ids.size ()) }, setof (lines0 (r.out)), "count");
	} else if (w == "countfiles") {
	    if (! run ({ "count", "--output=files" })) return;
	    expect ({ fmt ("%zu", files.size ()) }, setof (lines0 (r.out)), "count --output=files");
	} else if (w == "countthreads") {
	    if (! run ({ "count", "--output=threads" })) return;
	    expect ({ fmt ("%zu", threads.size ()) }, setof (lines0 (r.out)), "count --output=threads");
	} else if (w == "address") {
	    if (! run ({ "address", "--output=sender", "--deduplicate=address", "--format=text0" })) return;
	    SS want, got;
	    for (auto &id : ids) { std::string f = e.from[id]; want.insert (f.substr (f.find ('<'))); }
	    for (auto &l : lines0 (r.out)) { if (! got.insert (l.substr (l.find ('<'))).second) { x.fail ("view-address", "an address is listed twice"); return; } }
	    expect (want, got, "address");
	} else if (w == "slice") {
	    if (! run ({ "search", "--output=messages", "--format=text0" })) return;
	    VS all = lines0 (r.out);
	    int off = atoi (o.a[4].c_str ()), lim = atoi (o.a[5].c_str ());
	    if (! run ({ "search", "--output=messages", "--format=text0", fmt ("--offset=%d", off), fmt ("--limit=%d", lim) })) return;
	    int from = off < 0 ? std::max (0, (int) all.size () + off) : std::min (off, (int) all.size ());
	    VS want (all.begin () + from, all.begin () + std::min ((int) all.size (), from + lim));
	    if (want != lines0 (r.out)) x.fail ("view-slice", fmt ("[%s] --offset=%d --limit=%d gives ", qs.c_str (), off, lim) + join (lines0 (r.out)) + " of " + join (all));
	} else if (w == "dump") {
	    if (! run ({ "dump" }, false)) return;
	    SS want, got;
	    for (auto &id : raw) {
		std::string t;
		for (auto &y : e.m.at (id).tags) t += " +" + hexq (y);
		want.insert (id + t);
	    }
	    for (auto &l : split (r.out, '\n')) {
		if (l.empty () || l[0] == '#') continue;
		size_t k = l.find ("-- id:");
		if (k == std::string::npos) { x.fail ("view-dump", "odd line in a dump: " + l); return; }
		std::string id = l.substr (k + 6);
		if (! id.empty () && id[0] == '"') { std::string u; for (size_t i = 1; i + 1 < id.size (); i++) { u += id[i]; if (id[i] == '"') i++; } id = u; }
		SS tg;
		for (auto &y : split (l.substr (0, k), ' ')) if (! y.empty ()) { std::string u; unhex (y.substr (1), &u); tg.insert (hexq (u)); }
		std::string t;
		// same order as the sorted raw tags
		SS rawt;
		for (auto &y : tg) { std::string u; unhex (y, &u); rawt.insert (u); }
		for (auto &y : rawt) t += " +" + hexq (y);
		if (! got.insert (id + t).second) { x.fail ("view-dump", "message " + id + " twice in a dump"); return; }
	    }
	    expect (want, got, "dump");
	} else if (w == "json") {
	    r = x.cmd ([&]() { VS v = { "show", "--format=json", "--body=false", "--entire-thread=true" }; if (sx) v.push_back ("--query=sexp"); if (! ex) v.push_back ("--exclude=false"); v.push_back ("--"); v.push_back (qs); return v; } ());
	    for (auto &m : e.m) for (auto &f : m.second.files) if (! x.w.fs.exists (x.root + "/" + f)) return; // the tree moved on
	    if (! r.ok ()) { x.fail ("view-fails", "notmuch show -- " + qs + " " + r.str () + " " + r.err); return; }
	    J j;
	    if (! json_parse (r.out, &j)) { x.fail ("view-json", "notmuch show -- " + qs + " prints unreadable JSON " + r.out.substr (0, 200)); return; }
	    SS matched, seen;
	    std::string bad;
	    std::function<void(const J &)> walk = [&](const J &n) {
		if (n.t == 'a') { for (auto &c : n.v) walk (c); return; }
		if (n.t != 'o' || ! n.get ("id") || ! n.get ("tags")) return;
		std::string id = n.get ("id")->s;
		if (! seen.insert (id).second) bad = "shows " + id + " twice";
		if (! e.m.count (id)) { bad = "shows the unknown message " + id; return; }
		if (n.get ("match") && n.get ("match")->n) matched.insert (id);
		SS tg, fl;
		for (auto &t : n.get ("tags")->v) tg.insert (t.s);
		if (tg != e.m[id].tags) bad = "shows " + id + " with tags {" + join (tg) + "}, it has {" + join (e.m[id].tags) + "}";
		if (n.get ("filename")) for (auto &t : n.get ("filename")->v) fl.insert (t.s.substr (x.root.size () + 1));
		if (fl != e.m[id].files) bad = "shows " + id + " with files {" + join (fl) + "}, it has {" + join (e.m[id].files) + "}";
	    };
	    walk (j);
	    if (! bad.empty ()) { x.fail ("view-json", "notmuch show -- " + qs + " " + bad); return; }
	    bool hid = false;
	    SS inth;
	    for (auto &m : e.m) for (auto &t : x.conf.exclude) if (ex && m.second.tags.count (t)) hid = true;
	    if (hid) return;
	    for (auto &m : e.m) if (threads.count ("thread:" + e.thread.at (m.first))) inth.insert (m.first);
	    if (expect (ids, matched, "show (matching messages)")) expect (inth, seen, "show --entire-thread");
	} else if (w == "summary") {
	    if (! run ({ "search", "--format=json" })) return;
	    J j;
	    if (! json_parse (r.out, &j)) { x.fail ("view-summary", "notmuch search -- " + qs + " prints unreadable JSON " + r.out.substr (0, 200)); return; }
	    bool hid = false;
	    for (auto &m : e.m) for (auto &t : x.conf.exclude) if (ex && m.second.tags.count (t)) hid = true;
	    SS got;
	    for (auto &t : j.v) {
		std::string id = t.get ("thread") ? t.get ("thread")->s : "?";
		if (! got.insert ("thread:" + id).second) { x.fail ("view-summary", "thread " + id + " twice"); return; }
		if (hid) continue;
		int mt = 0, tot = 0;
		SS tg, sh;
		for (auto &m : e.m) {
		    if (e.thread.at (m.first) != id) continue;
		    tot++;
		    if (ids.count (m.first)) mt++;
		    tg.insert (m.second.tags.begin (), m.second.tags.end ());
		}
		for (auto &y : t.get ("tags")->v) sh.insert (y.s);
		if (t.get ("matched")->n != mt || t.get ("total")->n != tot) { x.fail ("view-summary", fmt ("[%s] thread %s is shown with %d of %d messages, it has %d of %d", qs.c_str (), id.c_str (), (int) t.get ("matched")->n, (int) t.get ("total")->n, mt, tot)); return; }
		if (sh != tg) { x.fail ("view-summary", "[" + qs + "] thread " + id + " is shown with tags {" + join (sh) + "} instead of {" + join (tg) + "}"); return; }
	    }
	    expect (threads, got, "search (summary)");
	} else if (w == "raw") {
	    if (ids.empty ()) return;
	    std::string id = *ids.begin ();
	    r = x.cmd ({ "show", "--format=raw", "--exclude=false", idq (id) });
	    bool there = false, same = false;
	    for (auto &f : e.m[id].files) {
		std::string b;
		if (! x.w.fs.slurp (x.root + "/" + f, &b)) continue;
		there = true;
		if (b == r.out) same = true;
	    }
	    bool all = true;
	    for (auto &f : e.m[id].files) if (! x.w.fs.exists (x.root + "/" + f)) all = false;
	    if (! all) return;
	    if (! r.ok () || (there && ! same)) x.fail ("view-raw", "notmuch show --format=raw " + idq (id) + " " + r.str () + " prints something other than the message; " + r.err);
	}
    }
};

static P20 p20;

Workload *workload_tag (const std::string &prop, const std::string &)
{
    if (prop == "P20") return &p20;
    return nullptr;
}

}
