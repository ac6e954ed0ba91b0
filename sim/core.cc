#include "core.h"
#include "syscalls.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <glib.h>
#include <unistd.h>

namespace sim {

// ---------------------------------------------------------------- text
std::string fmt (const char *f, ...)
{
    va_list a;
    va_start (a, f);
    char *b;
    if (vasprintf (&b, f, a) < 0) abort ();
    va_end (a);
    std::string s = b;
    free (b);
    return s;
}

std::string pct_enc (const std::string &s)
{
    std::string r;
    for (unsigned char c : s) {
	if (c > 32 && c < 127 && c != '%' && c != '@') r += c;
	else r += fmt ("%%%02x", c);
    }
    return r.empty () ? "%" : r;
}

std::string pct_dec (const std::string &s)
{
    if (s == "%") return "";
    std::string r;
    for (size_t i = 0; i < s.size (); i++) {
	if (s[i] == '%' && i + 2 < s.size ()) {
	    r += (char) strtol (s.substr (i + 1, 2).c_str (), nullptr, 16);
	    i += 2;
	} else r += s[i];
    }
    return r;
}

VS split (const std::string &s, char c)
{
    VS v;
    size_t i = 0;
    while (i <= s.size ()) {
	size_t j = s.find (c, i);
	if (j == std::string::npos) j = s.size ();
	if (j > i) v.push_back (s.substr (i, j - i));
	i = j + 1;
    }
    return v;
}

std::string join (const SS &s, const char *sep)
{
    std::string r;
    for (auto &x : s) r += (r.empty () ? "" : sep) + x;
    return r;
}

std::string join (const VS &s, const char *sep)
{
    std::string r;
    bool f = true;
    for (auto &x : s) { if (! f) r += sep; r += x; f = false; }
    return r;
}

static std::string sched_str (const SchedSpec &s)
{
    if (! s.explicit_) return fmt ("seed:%llu:%d", (unsigned long long) s.seed, s.pct);
    std::string r = "sw";
    for (auto &x : s.sw) r += fmt (":%llu>%d", (unsigned long long) x.first, x.second);
    return r;
}

std::string Op::str () const
{
    std::string r = verb;
    for (auto &x : a) r += " " + pct_enc (x);
    if (! in.empty ()) r += " @in=" + pct_enc (in);
    if (! chunks.empty ()) {
	r += " @chunks=";
	for (size_t i = 0; i < chunks.size (); i++) r += fmt (i ? ",%d" : "%d", chunks[i]);
    }
    if (! await.empty ()) r += " @await=" + pct_enc (await);
    if (delay) r += fmt (" @delay=%d", delay);
    for (auto &e : env) r += " @env=" + pct_enc (e);
    for (auto &f : faults) r += " @fault=" + f.str ();
    if (verb == "par") r += " @sched=" + sched_str (sched);
    for (auto &s : sub) r += "\n  " + s.str ();
    return r;
}

std::string Plan::str () const
{
    std::string r = "plan 1\nprop " + prop + "\nkind " + kind + "\nseed " + fmt ("%llu", (unsigned long long) seed) + "\n";
    for (auto &x : par) r += "param " + x.first + " " + pct_enc (x.second) + "\n";
    for (auto &o : ops) r += "op " + o.str () + "\n";
    return r;
}

static Op parse_op (const VS &t, size_t k)
{
    Op o;
    o.verb = t[k++];
    for (; k < t.size (); k++) {
	const std::string &x = t[k];
	if (x[0] != '@') { o.a.push_back (pct_dec (x)); continue; }
	size_t e = x.find ('=');
	std::string key = x.substr (1, e - 1), val = x.substr (e + 1);
	if (key == "in") o.in = pct_dec (val);
	else if (key == "chunks") for (auto &c : split (val, ',')) o.chunks.push_back (atoi (c.c_str ()));
	else if (key == "await") o.await = pct_dec (val);
	else if (key == "delay") o.delay = atoi (val.c_str ());
	else if (key == "env") o.env.push_back (pct_dec (val));
	else if (key == "fault") { Fault f; if (Fault::parse (val, &f)) o.faults.push_back (f); }
	else if (key == "sched") {
	    VS v = split (val, ':');
	    if (v[0] == "seed") { o.sched.seed = strtoull (v[1].c_str (), nullptr, 10); o.sched.pct = atoi (v[2].c_str ()); }
	    else {
		o.sched.explicit_ = true;
		for (size_t i = 1; i < v.size (); i++) {
		    size_t g = v[i].find ('>');
		    o.sched.sw[strtoull (v[i].c_str (), nullptr, 10)] = atoi (v[i].c_str () + g + 1);
		}
	    }
	}
    }
    return o;
}

bool Plan::parse (const std::string &s)
{
    bool ok = false;
    for (auto &line : split (s, '\n')) {
	VS t = split (line, ' ');
	if (t.empty ()) continue;
	if (t[0] == "plan") ok = true;
	else if (t[0] == "prop") prop = t[1];
	else if (t[0] == "kind") kind = t[1];
	else if (t[0] == "seed") seed = strtoull (t[1].c_str (), nullptr, 10);
	else if (t[0] == "param") par[t[1]] = t.size () > 2 ? pct_dec (t[2]) : "";
	else if (t[0] == "op") ops.push_back (parse_op (t, 1));
	else if (line[0] == ' ' && ! ops.empty ()) ops.back ().sub.push_back (parse_op (t, 0));
    }
    return ok;
}

// ---------------------------------------------------------------- configuration
static std::string gk (const VS &v)
{
    std::string r;
    for (auto &x : v) r += x + ";";
    return r;
}

std::string Conf::text () const
{
    std::string s = "[database]\npath=/sim/home/mail\n[user]\nname=Sim User\nprimary_email=sim@example.org\n";
    s += "[new]\ntags=" + gk (newtags) + "\nignore=" + gk (ignore) + "\n[search]\nexclude_tags=" + gk (exclude) + "\n";
    s += std::string ("[maildir]\nsynchronize_flags=") + (sync ? "true" : "false") + "\n";
    return s + extra;
}

// ---------------------------------------------------------------- model
const SS flagtags = { "draft", "flagged", "passed", "replied", "unread" };

SS nonflag (const SS &s)
{
    SS r;
    for (auto &x : s) if (! flagtags.count (x)) r.insert (x);
    return r;
}

static bool in_maildir (const std::string &f, std::string *which = nullptr)
{
    size_t k = f.rfind ('/');
    if (k == std::string::npos) return false;
    std::string d = f.substr (0, k);
    size_t j = d.rfind ('/');
    std::string last = j == std::string::npos ? d : d.substr (j + 1);
    if (which) *which = last;
    return last == "cur" || last == "new";
}

bool has_info (const SS &files, std::string *flags)
{
    bool seen = false;
    for (auto &f : files) {
	std::string d;
	if (! in_maildir (f, &d)) continue;
	size_t k = f.find (":2,");
	if (k != std::string::npos) { seen = true; if (flags) *flags += f.substr (k + 3); }
	else if (d == "new") seen = true;
    }
    return seen;
}

SS flags_to_tags (const SS &files, SS tags)
{
    std::string fl;
    if (! has_info (files, &fl)) return tags;
    static const struct { char f; const char *t; bool inv; } tab[] = {
	{ 'D', "draft", false }, { 'F', "flagged", false }, { 'P', "passed", false }, { 'R', "replied", false }, { 'S', "unread", true } };
    for (auto &x : tab) {
	bool set = fl.find (x.f) != std::string::npos;
	if (set != x.inv) tags.insert (x.t); else tags.erase (x.t);
    }
    return tags;
}

std::string MM::str () const
{
    std::string s = "files{" + join (files) + "} tags{" + join (tags) + "}";
    if (! props.empty ()) {
	s += " props{";
	for (auto &p : props) s += p.first + "=" + p.second + ",";
	s += "}";
    }
    return s;
}

Model model_of (const NmState &st)
{
    Model m;
    for (auto &p : st.msgs) {
	MM &x = m[p.first];
	x.files.insert (p.second.files.begin (), p.second.files.end ());
	x.tags = p.second.tags;
	x.props.insert (p.second.props.begin (), p.second.props.end ());
    }
    return m;
}

std::string state_str (const Model &m)
{
    std::string s;
    for (auto &p : m) s += "  " + p.first + ": " + p.second.str () + "\n";
    return s;
}

std::string diff_model (const Model &want, const Model &got, bool flagstrict)
{
    for (auto &p : want) {
	auto i = got.find (p.first);
	if (i == got.end ()) return "message " + p.first + " is missing (expected " + p.second.str () + ")";
	MM a = p.second, b = i->second;
	if (! flagstrict) { a.tags = nonflag (a.tags); b.tags = nonflag (b.tags); }
	if (! (a == b)) return "message " + p.first + " has " + b.str () + ", expected " + a.str ();
    }
    for (auto &p : got) if (! want.count (p.first)) return "unexpected message " + p.first + " " + p.second.str ();
    return "";
}

std::string thread_key (const NmState &st)
{
    std::map<std::string, SS> th;
    for (auto &p : st.msgs) th[p.second.thread].insert (p.first);
    SS parts;
    for (auto &t : th) parts.insert ("{" + join (t.second) + "}");
    return join (parts, " ");
}

uint64_t model_hash (const NmState &st)
{
    uint64_t h = fnv (fmt ("%d", st.status));
    for (auto &p : st.msgs) {
	h = fnv (p.first, h);
	for (auto &t : p.second.tags) h = fnv (t, h);
	for (auto &f : p.second.files) {
	    size_t k = f.find (".M"); // delivered names carry the time: leave them out
	    h = fnv (f.substr (0, k), h);
	}
	for (auto &q : p.second.props) h = fnv (q.first + q.second, h);
    }
    return h;
}

// ---------------------------------------------------------------- executor
void Exec::begin ()
{
    w.reset ();
    W = &w;
    w.nodes.clear ();
    w.rng = 12345;
    w.next_pid = 4000;
    w.hash = 1469598103934665603ULL;
    w.escapes.clear ();
    w.exec_hook = nullptr;
    w.db_read_errors = false;
    w.no_exchange = false;
    w.on_step = nullptr;
    w.after_step = nullptr;
    w.base_env["NOTMUCH_CONFIG"] = "/sim/home/.notmuch-config";
    defs.clear ();
    bybytes.clear ();
    viols.clear ();
    note.clear ();
    conf = Conf ();
    for (const char *d : { "/sim/home/mail/cur", "/sim/home/mail/new", "/sim/home/mail/tmp", "/sim/stage", "/sim/bin", "/sim/out", "/sim/tmp" })
	w.fs.mkdirs (d);
    w.fs.now = w.clock;
    w.fs.sync_all ();
}

void Exec::say (const std::string &s)
{
    if (verbose) printf ("  %s\n", s.c_str ());
}

std::vector<Known> known;

void Exec::fail (const std::string &tag, const std::string &text)
{
    for (auto &k : known) {
	if (! plan || k.prop != plan->prop || k.tag != tag) continue;
	bool all = true;
	for (auto &s : k.subs) if (text.find (s) == std::string::npos) all = false;
	if (! all) continue;
	knownhit = k.id;
	stats->add ("known." + k.id);
	say ("(known finding " + k.id + ") " + tag + ": " + text);
	return;
    }
    viols.push_back (Viol{ tag, text });
    say ("!! " + tag + ": " + text);
}

static std::string abs_of (Exec &x, const std::string &p) { return ! p.empty () && p[0] == '/' ? p : p.empty () ? x.root : x.root + "/" + p; }

static void rmtree (FS &fs, const std::string &p)
{
    if (fs.isdir (p)) {
	for (auto &n : fs.list (p)) rmtree (fs, p + "/" + n);
	fs.rmdir (p);
    } else fs.unlink (p);
}

bool Exec::apply (const Op &op)
{
    const VS &a = op.a;
    w.fs.now = w.clock;
    auto P = [&](int i) { return abs_of (*this, a[i]); };
    const std::string &v = op.verb;
    if (v != "run" && v != "par" && v != "target") say (op.str ().substr (0, 200));
    if (v == "msg") { // name mid bytes refs...
	MsgDef d;
	d.name = a[0];
	d.mid = a[1] == "-" ? "" : a[1];
	d.bytes = a[2];
	for (size_t i = 3; i < a.size (); i++) d.refs.insert (a[i]);
	if (d.bytes.find ("Content-Disposition: attachment") != std::string::npos) d.autotags.insert ("attachment");
	defs[d.name] = d;
	bybytes[d.bytes] = d.name;
    } else if (v == "conf") { // sync newtags ignore exclude extra
	conf.sync = a[0] == "1";
	conf.newtags = split (a[1], ';');
	conf.ignore = split (a[2], ';');
	conf.exclude = split (a[3], ';');
	conf.extra = a.size () > 4 ? a[4] : "";
	w.fs.put ("/sim/home/.notmuch-config", conf.text ());
    } else if (v == "put") {
	std::string p = P (0);
	w.fs.mkdirs (p.substr (0, p.rfind ('/')));
	w.fs.put (p, defs.count (a[1]) ? defs[a[1]].bytes : a[1], 0600);
    } else if (v == "mkdir") w.fs.mkdirs (P (0));
    else if (v == "mv") { std::string p = P (1); w.fs.mkdirs (p.substr (0, p.rfind ('/'))); ino_num i; if (w.fs.lookup (p, false, &i)) w.fs.rename (P (0), p); } // other programs do not overwrite
    else if (v == "cp") { std::string b; if (w.fs.slurp (P (0), &b)) { std::string p = P (1); w.fs.mkdirs (p.substr (0, p.rfind ('/'))); w.fs.put (p, b, 0600); } }
    else if (v == "rm") w.fs.unlink (P (0));
    else if (v == "rmtree") rmtree (w.fs, P (0));
    else if (v == "symlink") w.fs.symlink (a[0], P (1));
    else if (v == "write") { std::string p = P (0); w.fs.mkdirs (p.substr (0, p.rfind ('/'))); w.fs.put (p, a[1], a.size () > 2 ? strtol (a[2].c_str (), nullptr, 8) : 0600); }
    else if (v == "adv") { w.clock += atoll (a[0].c_str ()); w.clock_total += atoll (a[0].c_str ()); }
    else if (v == "sync") w.fs.sync_all ();
    else if (v == "run" || v == "lib") { run (op); }
    else return false;
    return true;
}

static int act_run (Exec *x, const VS items)
{
    int rc = 0;
    for (auto &it : items) {
	VS t = split (it, ' ');
	for (auto &e : t) e = pct_dec (e);
	auto P = [&](int i) { return abs_of (*x, t[i]); };
	if (t[0] == "put") rc |= a_put (P (1), x->defs.count (t[2]) ? x->defs[t[2]].bytes : t[2]);
	else if (t[0] == "mv") rc |= a_rename (P (1), P (2));
	else if (t[0] == "rm") rc |= a_unlink (P (1));
	else if (t[0] == "mkdir") rc |= a_mkdir (P (1));
	else if (t[0] == "rmdir") rc |= a_rmdir (P (1));
	else if (t[0] == "sweep") { // a mail reader moves new mail to cur/
	    std::string md = t[1].empty () ? x->root : P (1);
	    for (auto &n : a_list (md + "/new")) {
		std::string b = n.substr (0, n.find (":2,"));
		rc |= a_rename (md + "/new/" + n, md + "/cur/" + b + t[2]);
	    }
	}
	else if (t[0] == "sleep") sim_sleep (atoll (t[1].c_str ()) * 1000000);
	else if (t[0] == "edge") sim_sleep (1000000000LL - x->w.clock % 1000000000LL + atoll (t[1].c_str ())); // the next full second
	else if (t[0] == "await") { // call, path, how many to let pass, whether the next second begins then
	    int k = -1;
	    k = sys_by_name (t[1]);
	    if (k >= 0) sim_await (k, P (2).c_str (), atoi (t[3].c_str ()), t[4] == "edge");
	}
	else if (t[0] == "exit") return atoi (t[1].c_str ());
	else if (t[0] == "signal") sim_kill (sim_getpid (), atoi (t[1].c_str ()));
    }
    return 0;
}

ProcSpec Exec::spec (const Op &op, bool record)
{
    ProcSpec s;
    s.record = record;
    s.faults = op.faults;
    s.env = op.env;
    s.input = op.in;
    s.chunks = op.chunks;
    s.start_delay = op.delay;
    if (! op.await.empty ()) {
	VS t = split (op.await, '|');
	s.await_sys = sys_by_name (t[0]);
	s.await_skip = atoi (t[1].c_str ());
	s.await_path = t[2];
    }
    if (op.verb == "act") {
	s.name = "actor";
	VS items = op.a;
	Exec *x = this;
	s.fn = [x, items]() { return act_run (x, items); };
    } else if (op.verb == "lib") {
	s.name = "client";
	s.lib = true;
	VS items = op.a;
	World *ww = &w;
	s.fn = [ww, items]() {
		   Slot *sl = ww->cur->slot;
		   auto f = (int (*)(const VS *, std::string *)) sl->sym ("nm_client");
		   return f (&items, &ww->cur->res.out);
	       };
    } else {
	s.name = "notmuch";
	s.argv = { "notmuch" };
	s.argv.insert (s.argv.end (), op.a.begin (), op.a.end ());
    }
    return s;
}

ProcResult Exec::run (const Op &op, bool record)
{
    ProcResult r = w.run1 (spec (op, record));
    stats->add ("commands");
    if (verbose) {
	say (op.str ().substr (0, 300) + "  => " + r.str () + fmt (" (%d steps)", r.steps));
	if (! r.err.empty ()) say ("   stderr: " + r.err.substr (0, 300));
    }
    return r;
}

ProcResult Exec::cmd (const VS &argv, const std::string &in)
{
    Op o ("run", argv);
    o.in = in;
    return run (o);
}

std::vector<ProcResult> Exec::par (Op &op, bool record)
{
    std::vector<ProcSpec> v;
    for (auto &s : op.sub) v.push_back (spec (s, record));
    auto r = w.run (v, op.sched);
    stats->add ("commands", op.sub.size ());
    if (! op.sched.explicit_) {
	stats->scheds.insert (w.hash);
	op.sched.explicit_ = true;
	op.sched.sw = w.switches;
    }
    if (verbose) {
	say ("par");
	for (size_t i = 0; i < r.size (); i++) {
	    say (fmt ("   [%d] ", (int) i) + op.sub[i].str ().substr (0, 200) + "  => " + r[i].str () +
		 fmt (" steps %d, global %llu..%llu", r[i].steps, (unsigned long long) r[i].start_step, (unsigned long long) r[i].end_step));
	    if (! r[i].err.empty ()) say ("       stderr: " + r[i].err.substr (0, 300));
	}
	say (fmt ("   %d context switches", (int) op.sched.sw.size ()));
    }
    return r;
}

NmState Exec::observe (int flags)
{
    NmState st;
    std::string rt = root;
    size_t n = w.escapes.size ();
    w.quiet ([&](Slot *s) { ((int (*)(const char *, int, NmState *)) s->sym ("nm_observe")) (rt.c_str (), flags, &st); });
    for (size_t i = n; i < w.escapes.size (); i++) st.problems.push_back (w.escapes[i]);
    w.escapes.resize (n);
    stats->add ("observations");
    return st;
}

NmState Exec::observe_fs (const FS &fs, int flags)
{
    Snap s = snap ();
    w.fs = fs;
    for (auto &q : w.fs.in) q.second.opens = 0;
    NmState st = observe (flags);
    restore (s);
    return st;
}

Snap Exec::snap () { return Snap{ w.fs, w.clock, w.rng, w.next_pid }; }
void Exec::restore (const Snap &s)
{
    w.fs = s.fs;
    w.clock = s.clock;
    w.rng = s.rng;
    w.next_pid = s.next_pid;
}

bool Exec::ignored (const std::string &rel) const
{
    size_t k = rel.rfind ('/');
    std::string base = k == std::string::npos ? rel : rel.substr (k + 1);
    for (auto &i : conf.ignore) if (i == base) return true;
    return false;
}

static void walk_tree (const Exec &x, const std::string &rel, const std::function<void(const std::string &, const std::string &)> &f)
{
    std::string abs = rel.empty () ? x.root : x.root + "/" + rel;
    VS l = x.w.fs.list (abs);
    auto sub = [&](const std::string &n) { return rel.empty () ? n : rel + "/" + n; };
    auto has = [&](const char *n) { return std::find (l.begin (), l.end (), n) != l.end () && x.w.fs.isdir (abs + "/" + n); };
    bool maildir = has ("cur") && has ("new") && has ("tmp");
    for (auto &n : l) {
	std::string r = sub (n);
	if (x.ignored (r)) continue;
	if (x.w.fs.isdir (abs + "/" + n)) {
	    if (maildir && n == "tmp") continue;
	    if (rel.empty () && n == ".notmuch") continue;
	    walk_tree (x, r, f);
	    continue;
	}
	std::string b;
	if (x.w.fs.slurp (abs + "/" + n, &b)) f (r, b);
    }
}

std::map<std::string, SS> Exec::tree () const
{
    std::map<std::string, SS> t;
    walk_tree (*this, "", [&](const std::string &r, const std::string &b) {
	auto i = bybytes.find (b);
	if (i == bybytes.end ()) return;
	const MsgDef &d = defs.at (i->second);
	if (! d.mid.empty ()) t[d.mid].insert (r);
    });
    return t;
}

SS Exec::autotags (const std::string &mid) const
{
    SS s;
    for (auto &d : defs) if (d.second.mid == mid) s.insert (d.second.autotags.begin (), d.second.autotags.end ());
    return s;
}

SS Exec::nonmail () const
{
    SS s;
    walk_tree (*this, "", [&](const std::string &r, const std::string &b) {
	auto i = bybytes.find (b);
	if (i == bybytes.end () || defs.at (i->second).mid.empty ()) s.insert (r);
    });
    return s;
}

// What a completed, undisturbed "notmuch new" makes of the database.
Model Exec::scan_model (const Model &before) const
{
    Model m;
    for (auto &t : tree ()) {
	auto i = before.find (t.first);
	MM x;
	if (i == before.end ()) {
	    x.files = t.second;
	    x.tags.insert (conf.newtags.begin (), conf.newtags.end ());
	    std::string fl;
	    has_info (x.files, &fl);
	    if (fl.find ('S') != std::string::npos) x.tags.erase ("unread");
	    if (conf.sync) x.tags = flags_to_tags (x.files, x.tags);
	    SS at = autotags (t.first);
	    x.tags.insert (at.begin (), at.end ());
	} else {
	    x = i->second;
	    if (x.files != t.second) {
		x.files = t.second;
		if (conf.sync) x.tags = flags_to_tags (x.files, x.tags);
	    }
	}
	m[t.first] = x;
    }
    return m;
}

// ---------------------------------------------------------------- generator
const VS plaintags = { "inbox", "todo", "work", "list", "old", "unread", "flagged", "replied", "passed", "draft" };
const VS oddtags = { "a b", "x:y", "(paren", "quo\"te", "per%cent", "é", "with,comma", "UPPER", "sl/ash", "#hash", "semi;colon", "star*", "long-" + std::string (80, 'x'), "+plus", "'sq'" };

static const VS words = { "alpha", "bravo", "charlie", "delta", "echo", "foxtrot", "golf", "hotel", "india", "juliet", "kilo", "lima" };

std::string sha1_hex (const std::string &s)
{
    gchar *h = g_compute_checksum_for_data (G_CHECKSUM_SHA1, (const guchar *) s.data (), s.size ());
    std::string r = h;
    g_free (h);
    return r;
}

void Gen::start (const Conf &c)
{
    p.add ("conf", { c.sync ? "1" : "0", join (c.newtags, ";"), join (c.ignore, ";"), join (c.exclude, ";"), c.extra });
    dirs = { "" };
    int n = r.range (0, 2);
    static const VS pool = { "work", "work/deep", ".lists", "arch ive", "box.d" };
    for (int i = 0; i < n; i++) {
	std::string d = pool[r.below (pool.size ())];
	if (std::find (dirs.begin (), dirs.end (), d) != dirs.end ()) continue;
	dirs.push_back (d);
	for (const char *s : { "/cur", "/new", "/tmp" }) p.add ("mkdir", { d + s });
    }
    if (r.pct (40)) { p.add ("mkdir", { "plain" }); }
}

std::string Gen::msg (const VS &refs, const std::string &mid_, int style)
{
    std::string name = fmt ("d%d", nm++);
    std::string mid = mid_;
    if (style < 0) style = r.below (12);
    bool omit = false, toolong = false;
    if (mid.empty ()) {
	mid = fmt ("m%d@sim", nm);
	int k = r.below (24);
	if (k == 0) mid = fmt ("odd+%d/=x%%'@sim", nm);
	else if (k == 1) mid = fmt ("UPPER.Case_%d@Sim.Example.ORG", nm);
	else if (k == 2) mid = fmt ("%d$q\"uo@sim", nm);
	else if (k == 3) omit = true;
	else if (k == 4) { mid = std::string (260, 'l') + fmt ("%d@sim", nm); toolong = true; }
    }
    std::string h;
    h += fmt ("From: User %d <u%d@example.org>\n", r.below (4), r.below (4));
    h += "To: sim@example.org\n";
    h += "Subject: " + std::string (r.pct (30) ? "Re: " : "") + r.of (words) + " " + r.of (words) + fmt (" %d\n", nm);
    static const char *mon[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun" };
    h += fmt ("Date: %02d %s 20%02d %02d:%02d:00 +0000\n", r.range (1, 28), mon[r.below (6)], r.range (1, 19), r.below (24), r.below (60));
    if (! omit) h += "Message-ID: <" + mid + ">\n";
    if (! refs.empty ()) {
	int how = r.below (3);
	if (how != 1 || refs.size () > 1) {
	    h += "References:";
	    for (auto &x : refs) h += " <" + x + ">";
	    h += "\n";
	}
	if (how != 0) h += "In-Reply-To: <" + refs.back () + ">\n";
    }
    std::string body;
    int n = style == 7 ? 1500 : r.range (1, 12);
    for (int i = 0; i < n; i++) body += r.of (words) + (i % 9 == 8 ? "\n" : " ");
    body += "\n";
    std::string b;
    if (style == 5) {
	b = h + "MIME-Version: 1.0\nContent-Type: multipart/mixed; boundary=\"xx\"\n\n--xx\nContent-Type: text/plain\n\n" + body +
	    "--xx\nContent-Type: application/octet-stream; name=\"f.bin\"\nContent-Disposition: attachment; filename=\"f.bin\"\nContent-Transfer-Encoding: base64\n\nAAECAw==\n--xx--\n";
    } else if (style == 6) {
	b = h + "MIME-Version: 1.0\nContent-Type: text/html; charset=utf-8\n\n<html><body><p>" + body + "</p></body></html>\n";
    } else b = h + "\n" + body;
    if (omit) mid = "notmuch-sha1-" + sha1_hex (b);
    else if (toolong) mid = "notmuch-sha1-" + sha1_hex (mid + std::string (1, 0));
    VS a = { name, mid, b };
    for (auto &x : refs) a.push_back (x);
    p.add ("msg", a);
    names.push_back (name);
    if (std::find (mids.begin (), mids.end (), mid) == mids.end ()) mids.push_back (mid);
    return name;
}

std::string Gen::copy_def (const std::string &name)
{
    for (auto &o : p.ops)
	if (o.verb == "msg" && o.a[0] == name) {
	    Op c = o;
	    c.a[0] = fmt ("d%d", nm++);
	    if (c.a[1].compare (0, 12, "notmuch-sha1") == 0) return name;
	    c.a[2] += r.of (words) + fmt (" copy %d\n", nm);
	    p.ops.push_back (c);
	    names.push_back (c.a[0]);
	    return c.a[0];
	}
    return name;
}

static std::string rflags (Rng &r)
{
    std::string f;
    for (char c : std::string ("DFPRST")) if (r.pct (c == 'S' ? 50 : c == 'T' ? 5 : 15)) f += c;
    return f;
}

std::string Gen::fname (const std::string &dir, bool maildir)
{
    std::string base = fmt ("%d.P%dQ%d.host", 1600000000 + r.below (1000), 100 + r.below (50), nf++);
    std::string pre = dir.empty () ? "" : dir + "/";
    if (! maildir) return pre + base;
    if (r.pct (45)) return pre + "new/" + base + (r.pct (5) ? ":2," + rflags (r) : "");
    return pre + "cur/" + base + (r.pct (90) ? ":2," + rflags (r) : "");
}

std::string Gen::deliver (const std::string &name, const std::string &dir)
{
    std::string f = fname (dir, dir != "plain");
    p.add ("put", { f, name });
    files[f] = name;
    return f;
}

void Gen::adv ()
{
    int k = r.below (10);
    int64_t ns = k < 3 ? 0 : k < 5 ? (int64_t) r.below (900) * 1000000 : (int64_t) r.range (1000, 3500) * 1000000;
    if (ns) p.add ("adv", { fmt ("%lld", (long long) ns) });
}

std::string Gen::anytag () { return r.pct (85) ? r.of (plaintags) : r.of (oddtags); }

static std::string dirof (const std::string &f) { size_t k = f.rfind ('/'); return k == std::string::npos ? "" : f.substr (0, k); }
static std::string baseof (const std::string &f) { size_t k = f.rfind ('/'); return k == std::string::npos ? f : f.substr (k + 1); }

bool Gen::mutate ()
{
    int k = r.below (100);
    auto dst = [&]() -> std::string { return r.pct (12) ? "plain" : r.of (dirs); };
    if (files.empty () || k < 22) {
	int t = r.below (10);
	if (t < 6 || names.empty ()) {
	    VS refs;
	    int n = r.below (3);
	    for (int i = 0; i < n && ! mids.empty (); i++) refs.push_back (anymid ());
	    if (r.pct (10)) refs.push_back (fmt ("absent%d@sim", r.below (4)));
	    deliver (msg (refs), dst ());
	} else if (t < 8) deliver (copy_def (r.of (names)), dst ());
	else deliver (r.of (names), dst ());
	return true;
    }
    std::string f = anyfile ();
    std::string d = dirof (f), b = baseof (f);
    if (k < 47) { // flag change, in place or new -> cur
	std::string folder = dirof (d), sub = baseof (d);
	if (sub != "cur" && sub != "new") return false;
	std::string stem = b.substr (0, b.find (":2,"));
	std::string to = (folder.empty () ? "" : folder + "/") + "cur/" + stem + ":2," + rflags (r);
	if (files.count (to)) return false;
	p.add ("mv", { f, to });
	files[to] = files[f];
	files.erase (f);
    } else if (k < 62) { // move to another folder
	std::string to = fname (dst ());
	if (r.pct (50)) { // keep the base name
	    std::string n = dirof (to) + "/" + b;
	    if (! files.count (n)) to = n;
	}
	if (dirof (to).substr (0, 5) == "plain") to = "plain/" + baseof (to);
	if (to == f || files.count (to)) return false;
	p.add ("mv", { f, to });
	files[to] = files[f];
	files.erase (f);
    } else if (k < 74) { // copy
	std::string to = fname (r.of (dirs));
	p.add ("cp", { f, to });
	files[to] = files[f];
    } else if (k < 87) {
	p.add ("rm", { f });
	files.erase (f);
    } else if (k < 91) { // a file that is not mail
	std::string to = fname (r.of (dirs));
	static const VS junk = { "just some text without headers\nreally\n", "\x7f\x45LF binary", "X" };
	p.add ("put", { to, r.of (junk) });
    } else if (k < 95 && dirs.size () > 1) { // rename a folder to a new name
	int i = r.range (1, dirs.size () - 1);
	std::string from = dirs[i], to = fmt ("moved%d", nf++);
	for (auto &x : dirs) if (x != from && x.compare (0, from.size () + 1, from + "/") == 0) return false;
	p.add ("mv", { from, to });
	dirs[i] = to;
	std::map<std::string, std::string> nfl;
	for (auto &x : files) {
	    if (x.first.compare (0, from.size () + 1, from + "/") == 0) nfl[to + x.first.substr (from.size ())] = x.second;
	    else nfl[x.first] = x.second;
	}
	files = nfl;
    } else if (k < 97 && dirs.size () > 1) { // remove a folder
	int i = r.range (1, dirs.size () - 1);
	std::string from = dirs[i];
	for (auto &x : dirs) if (x != from && x.compare (0, from.size () + 1, from + "/") == 0) return false;
	p.add ("rmtree", { from });
	dirs.erase (dirs.begin () + i);
	for (auto x = files.begin (); x != files.end (); )
	    if (x->first.compare (0, from.size () + 1, from + "/") == 0) x = files.erase (x); else ++x;
    } else { // a new folder
	std::string to = fmt ("new%d", nf++);
	for (const char *s : { "/cur", "/new", "/tmp" }) p.add ("mkdir", { to + s });
	dirs.push_back (to);
    }
    return true;
}

// ---------------------------------------------------------------- faults
bool mutating (Sys k)
{
    return k == S_CREATE || k == S_WRITE || k == S_FSYNC || k == S_RENAME || k == S_UNLINK || k == S_MKDIR || k == S_RMDIR ||
	   k == S_TRUNC || k == S_LINK || k == S_CLOSEW;
}

static int errno_for (Sys k, Rng &r) { return natural_errno (k, r.next ()); }

std::vector<std::vector<Fault>> fault_sets (const std::vector<StepRec> &tr, const FaultMix &m, Rng &r, int budget,
					    const std::function<bool(const StepRec &)> &allow)
{
    std::vector<std::vector<Fault>> lists; // one per fault kind
    auto F = [](int at, FaultKind k, int64_t arg) { Fault f; f.at = at; f.kind = k; f.arg = arg; return f; };
    std::vector<int> mut, all;
    for (size_t i = 0; i < tr.size (); i++) {
	all.push_back (i + 1);
	if (mutating (tr[i].kind) && tr[i].path[0] != '<') mut.push_back (i + 1);
    }
    if (all.empty ()) return {};
    auto somewhere = [&]() { return ! mut.empty () && r.pct (75) ? r.of (mut) : r.of (all); };
    if (m.kill) {
	std::vector<Fault> l;
	for (int i : mut) l.push_back (F (i, F_KILL, 9));
	for (int i = 0; i < 4; i++) l.push_back (F (r.of (all), F_KILL, 9));
	lists.push_back (l);
    }
    if (m.power) {
	std::vector<Fault> l;
	static const std::vector<std::pair<int, int>> modes = { { 0, 0 }, { 100, 0 }, { 100, 2 }, { 0, 1 }, { 50, 2 }, { 70, 0 } };
	for (int i : mut) {
	    Fault f = F (i, F_POWER, 0);
	    auto md = m.meta_kept ? std::make_pair (100, 0) : r.of (modes); // renames survive: all that Xapian asks for
	    f.power.keep_pct = md.first;
	    f.power.data_mode = md.second;
	    f.power.seed = r.next () % 100000;
	    l.push_back (f);
	}
	lists.push_back (l);
    }
    if (m.err) {
	std::vector<Fault> l;
	for (size_t i = 0; i < tr.size (); i++) {
	    if (allow && ! allow (tr[i])) continue;
	    if (tr[i].kind == S_READ && ! W->db_read_errors && tr[i].path.find ("/.notmuch/xapian") != std::string::npos) continue;
	    int e = errno_for (tr[i].kind, r);
	    if (e) l.push_back (F (i + 1, F_ERR, e));
	}
	// thin out the runs of plain reads
	std::vector<Fault> t;
	for (auto &f : l) {
	    Sys k = tr[f.at - 1].kind;
	    if ((k == S_READ || k == S_STAT || k == S_OPEN) && l.size () > 150 && r.pct (60)) continue;
	    t.push_back (f);
	}
	lists.push_back (t);
    }
    if (m.shortio) {
	std::vector<Fault> l;
	for (size_t i = 0; i < tr.size (); i++)
	    if ((tr[i].kind == S_WRITE || tr[i].kind == S_READ) && tr[i].len > 1) {
		int a = r.below (3);
		l.push_back (F (i + 1, F_SHORT, a == 0 ? 1 : a == 1 ? tr[i].len / 2 : tr[i].len - 1));
	    }
	lists.push_back (l);
    }
    if (m.sig) {
	std::vector<Fault> l;
	for (int i = 0; i < 12; i++) l.push_back (F (r.of (all), F_SIGINT, r.pct (80) ? 2 : 15));
	lists.push_back (l);
    }
    if (m.clock) {
	std::vector<Fault> l;
	for (int i = 0; i < 6; i++) l.push_back (F (r.of (all), F_CLOCK, (int64_t) r.range (1, 4000) * 1000000000LL / 2));
	lists.push_back (l);
    }
    if (m.sticky) {
	std::vector<Fault> l;
	for (int i = 0; i < 12; i++) l.push_back (F (somewhere (), F_STICKY, r.pct (70) ? ENOSPC : EIO));
	lists.push_back (l);
    }
    std::vector<std::vector<Fault>> out;
    size_t total = 0;
    for (auto &l : lists) total += l.size ();
    for (auto &l : lists)
	for (size_t i = l.size (); i > 1; i--) std::swap (l[i - 1], l[r.below (i)]);
    if ((int) total <= budget) {
	for (auto &l : lists) for (auto &f : l) out.push_back ({ f });
    } else {
	// round robin over the kinds until the budget is used
	for (size_t i = 0; (int) out.size () < budget; i++) {
	    bool any = false;
	    for (auto &l : lists)
		if (i < l.size () && (int) out.size () < budget) { out.push_back ({ l[i] }); any = true; }
	    if (! any) break;
	}
    }
    return out;
}

void Workload::explore (Exec &x, Plan &p, Rng &, int, const std::function<bool(const Plan &)> &report)
{
    if (x.about) x.about (p);
    exec (x, p);
    if (x.failed ()) report (p);
}

}
