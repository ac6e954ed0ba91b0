// Compiled into each notmuch image: observes a database and runs library client programs.
// Uses only the public notmuch API, plus Xapian directly for what the API does not show.
#include <unistd.h>
#include "notmuch.h"
#include "nmlib.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <sstream>
#include <glib.h>
#include <xapian.h>

using std::string;
using std::vector;
using std::set;
using std::map;

static uint64_t fnv1 (const string &s, uint64_t h = 1469598103934665603ULL)
{
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return h;
}

static string rel (const string &root, const char *p)
{
    string s = p ? p : "(null)";
    if (s.compare (0, root.size () + 1, root + "/") == 0) return s.substr (root.size () + 1);
    return s;
}

static bool starts (const string &s, const char *p) { return s.compare (0, strlen (p), p) == 0; }

struct Ctx {
    notmuch_database_t *db;
    NmState *o;
    string root;
    void bad (const string &s) { if (o->problems.size () < 20) o->problems.push_back (s); }
};

static bool search_ids (Ctx &c, const string &q, set<string> *out, bool countit = true)
{
    notmuch_query_t *query = notmuch_query_create (c.db, q.c_str ());
    if (! query) { c.bad ("query_create failed: " + q); return false; }
    notmuch_query_set_sort (query, NOTMUCH_SORT_UNSORTED);
    notmuch_messages_t *ms;
    notmuch_status_t st = notmuch_query_search_messages (query, &ms);
    if (st) { c.bad ("search [" + q + "]: " + notmuch_status_to_string (st)); notmuch_query_destroy (query); return false; }
    int n = 0;
    for (; notmuch_messages_valid (ms); notmuch_messages_move_to_next (ms)) {
	notmuch_message_t *m = notmuch_messages_get (ms);
	if (! m) { c.bad ("search [" + q + "]: null message"); continue; }
	if (! out->insert (notmuch_message_get_message_id (m)).second) c.bad ("search [" + q + "]: duplicate result");
	n++;
	notmuch_message_destroy (m);
    }
    if (countit) {
	unsigned k = 0;
	st = notmuch_query_count_messages (query, &k);
	if (st || (int) k != n)
	    c.bad ("count [" + q + "] gives " + std::to_string (k) + ", search gives " + std::to_string (n));
    }
    notmuch_query_destroy (query);
    return true;
}

static string join (const set<string> &s)
{
    string r;
    for (auto &x : s) r += (r.empty () ? "" : ",") + x;
    return "{" + r + "}";
}

static string quote (const string &s)
{
    string r = "\"";
    for (char ch : s) { if (ch == '"') r += "\"\""; else r += ch; }
    return r + "\"";
}

static void expect (Ctx &c, const string &q, const set<string> &want)
{
    set<string> got;
    if (! g_utf8_validate (q.data (), q.size (), nullptr) || starts (q, "tag:\"/")) return; // not within Xapian's query language
    if (! search_ids (c, q, &got)) return;
    if (got != want) c.bad ("search [" + q + "] finds " + join (got) + " but the messages say " + join (want));
}

static void audit (Ctx &c)
{
    map<string, set<string>> bytag, bythread, byfolder, bypath, byprop;
    set<string> all;
    for (auto &p : c.o->msgs) {
	const NmMsg &m = p.second;
	all.insert (m.id);
	for (auto &t : m.tags) bytag[t].insert (m.id);
	bythread[m.thread].insert (m.id);
	for (auto &f : m.files) {
	    string d = f.rfind ('/') == string::npos ? "" : f.substr (0, f.rfind ('/'));
	    bypath[d].insert (m.id);
	    string fo = d;
	    size_t k = fo.rfind ('/');
	    string last = k == string::npos ? fo : fo.substr (k + 1);
	    if (last == "cur" || last == "new") fo = k == string::npos ? "" : fo.substr (0, k);
	    byfolder[fo].insert (m.id);
	}
	for (auto &kv : m.props) byprop[kv.first + "=" + kv.second].insert (m.id);
    }
    // tags
    set<string> tags, want;
    notmuch_tags_t *ts = notmuch_database_get_all_tags (c.db);
    if (! ts) c.bad ("get_all_tags failed");
    else for (; notmuch_tags_valid (ts); notmuch_tags_move_to_next (ts)) tags.insert (notmuch_tags_get (ts));
    for (auto &t : bytag) want.insert (t.first);
    if (tags != want) c.bad ("list of all tags is " + join (tags) + " but the messages carry " + join (want));
    expect (c, "*", all);
    for (auto &t : bytag) expect (c, "tag:" + quote (t.first), t.second);
    for (auto &t : bythread) expect (c, "thread:" + t.first, t.second);
    bool old = c.o->needs_upgrade;
    if (! old) for (auto &t : byfolder) expect (c, "folder:" + quote (t.first), t.second);
    if (! old) for (auto &t : bypath) expect (c, "path:" + quote (t.first), t.second);
    for (auto &t : byprop) expect (c, "property:" + quote (t.first), t.second);
    for (auto &id : all) expect (c, "id:" + quote (id), { id });
    for (auto &g : c.o->ghosts) expect (c, "id:" + quote (g.first), {});
    // messages by id and file name
    for (auto &p : c.o->msgs) {
	notmuch_message_t *m = nullptr;
	if (notmuch_database_find_message (c.db, p.first.c_str (), &m) || ! m) c.bad ("find_message fails for " + p.first);
	else notmuch_message_destroy (m);
	if (! old) for (auto &f : p.second.files) {
	    m = nullptr;
	    notmuch_status_t st = notmuch_database_find_message_by_filename (c.db, (c.root + "/" + f).c_str (), &m);
	    if (st || ! m) c.bad ("find_message_by_filename fails for " + f);
	    else {
		if (p.first != notmuch_message_get_message_id (m)) c.bad ("file name " + f + " leads to another message");
		notmuch_message_destroy (m);
	    }
	}
    }
    // threads
    notmuch_query_t *q = notmuch_query_create (c.db, "*");
    notmuch_threads_t *th;
    set<string> seen;
    unsigned nth = 0;
    if (notmuch_query_count_threads (q, &nth)) c.bad ("count_threads failed");
    if (nth != bythread.size ()) c.bad ("count_threads " + std::to_string (nth) + " but " + std::to_string (bythread.size ()) + " thread ids");
    if (notmuch_query_search_threads (q, &th)) c.bad ("search_threads failed");
    else for (; notmuch_threads_valid (th); notmuch_threads_move_to_next (th)) {
	notmuch_thread_t *t = notmuch_threads_get (th);
	if (! t) { c.bad ("null thread"); break; }
	string id = notmuch_thread_get_thread_id (t);
	if (! seen.insert (id).second) c.bad ("thread " + id + " listed twice");
	set<string> in, tt, wt;
	vector<notmuch_messages_t *> st;
	for (notmuch_messages_t *ms = notmuch_thread_get_messages (t); notmuch_messages_valid (ms); notmuch_messages_move_to_next (ms))
	    if (! in.insert (notmuch_message_get_message_id (notmuch_messages_get (ms))).second) c.bad ("message twice in thread " + id);
	if (in != bythread[id]) c.bad ("thread " + id + " shows " + join (in) + " but holds " + join (bythread[id]));
	set<string> reach;
	std::function<void(notmuch_messages_t *)> rec = [&](notmuch_messages_t *ms) {
	    for (; notmuch_messages_valid (ms); notmuch_messages_move_to_next (ms)) {
		notmuch_message_t *m = notmuch_messages_get (ms);
		if (! reach.insert (notmuch_message_get_message_id (m)).second) { c.bad ("message reached twice in the tree of thread " + id); return; }
		rec (notmuch_message_get_replies (m));
	    }
	};
	rec (notmuch_thread_get_toplevel_messages (t));
	if (reach != in) c.bad ("tree of thread " + id + " reaches " + join (reach) + " of " + join (in));
	if (notmuch_thread_get_total_messages (t) != (int) in.size () || notmuch_thread_get_matched_messages (t) != (int) in.size ())
	    c.bad ("message counts of thread " + id);
	for (notmuch_tags_t *x = notmuch_thread_get_tags (t); notmuch_tags_valid (x); notmuch_tags_move_to_next (x)) tt.insert (notmuch_tags_get (x));
	for (auto &m : in) for (auto &y : c.o->msgs[m].tags) wt.insert (y);
	if (tt != wt) c.bad ("thread " + id + " carries tags " + join (tt) + " but its messages " + join (wt));
	notmuch_thread_destroy (t);
    }
    notmuch_query_destroy (q);
    // order of the default sort
    for (auto so : { NOTMUCH_SORT_NEWEST_FIRST, NOTMUCH_SORT_OLDEST_FIRST }) {
	q = notmuch_query_create (c.db, "*");
	notmuch_query_set_sort (q, so);
	notmuch_messages_t *ms;
	long prev = 0;
	bool first = true;
	if (notmuch_query_search_messages (q, &ms)) c.bad ("sorted search failed");
	else for (; notmuch_messages_valid (ms); notmuch_messages_move_to_next (ms)) {
	    long d = notmuch_message_get_date (notmuch_messages_get (ms));
	    if (! first && (so == NOTMUCH_SORT_NEWEST_FIRST ? d > prev : d < prev)) c.bad ("search results out of order");
	    prev = d;
	    first = false;
	}
	notmuch_query_destroy (q);
    }
    // revisions
    set<uint64_t> cuts = { 0, c.o->rev, c.o->rev + 1 };
    for (auto &p : c.o->msgs) { cuts.insert (p.second.lastmod); cuts.insert (p.second.lastmod + 1); }
    int budget = old ? 0 : 10;
    for (auto a = cuts.rbegin (); a != cuts.rend () && budget--; ++a) {
	set<string> w;
	for (auto &p : c.o->msgs) if (p.second.lastmod >= *a) w.insert (p.first);
	expect (c, "lastmod:" + std::to_string (*a) + "..", w);
    }
}

static void raw (Ctx &c)
{
    Xapian::Database x (c.root + "/.notmuch/xapian");
    map<string, int> qs;
    for (Xapian::PostingIterator d = x.postlist_begin (""); d != x.postlist_end (""); d++) {
	Xapian::Document doc = x.get_document (*d);
	int nq = 0, ng = 0, nf = 0, nk = 0, nt = 0;
	string id, g, type, dir;
	bool isdir = false, stamp = false;
	uint64_t fp = 1469598103934665603ULL;
	for (Xapian::TermIterator t = doc.termlist_begin (); t != doc.termlist_end (); t++) {
	    string s = *t;
	    if (starts (s, "XDIRECTORY")) { isdir = true; dir = s.substr (10); continue; }
	    if (starts (s, "XTIMESTAMP")) { stamp = true; continue; } // old format
	    if (starts (s, "ZXFOLDER")) { if (! c.o->needs_upgrade) c.bad ("term " + s + " of an old format"); continue; }
	    if (starts (s, "XFOLDER") && s[7] != ':' && ! c.o->needs_upgrade) c.bad ("term " + s + " of an old format");
	    if (starts (s, "XFDIRENTRY") || starts (s, "XDDIRENTRY")) { nf++; continue; }
	    if (s[0] == 'Q') { nq++; id = s.substr (1); continue; }
	    if (s[0] == 'G') { ng++; g = s.substr (1); continue; }
	    if (s[0] == 'K') { nk++; continue; }
	    if (starts (s, "XPROPERTY") || starts (s, "XFOLDER:") || starts (s, "XFOLDER") || s[0] == 'P' || starts (s, "XPATH") || starts (s, "XPARENT")) continue;
	    if (s[0] == 'T' && s.size () > 1 && s[1] >= 'a' && s[1] <= 'z') { nt++; type = s.substr (1); }
	    uint64_t h = fnv1 (s) * 31;
	    uint64_t hp = 7;
	    for (Xapian::PositionIterator p = t.positionlist_begin (); p != t.positionlist_end (); p++) hp = hp * 1000003 + *p;
	    if (hp != 7) h += t.get_wdf (); // the frequency of a boolean term means nothing
	    fp += (h ^ hp) * 0x9e3779b97f4a7c15ULL;
	}
	if (stamp) continue;
	if (isdir) { c.o->dirs[dir] = (int64_t) Xapian::sortable_unserialise (doc.get_value (0)); continue; }
	string n = "document " + std::to_string (*d) + " (" + id + ")";
	if (nq != 1) { c.bad (n + " has " + std::to_string (nq) + " id terms"); continue; }
	if (++qs[id] > 1) c.bad (n + ": second document for one message id");
	if (nt != 1 || (type != "mail" && type != "ghost")) c.bad (n + " has type '" + type + "'");
	if (ng != 1) c.bad (n + " has " + std::to_string (ng) + " thread terms");
	if (type == "mail") {
	    if (nf < 1 && ! c.o->needs_upgrade) c.bad (n + " is a message without a file");
	    if (nf > 0 && ! c.o->needs_upgrade && ! doc.get_data ().empty ()) c.bad (n + " has data of an old format");
	    auto it = c.o->msgs.find (id);
	    if (it == c.o->msgs.end ()) c.bad (n + " is a message that searches do not find");
	    else {
		if (! doc.get_value (4).empty ()) it->second.lastmod = (uint64_t) Xapian::sortable_unserialise (doc.get_value (4));
		if (it->second.lastmod > c.o->rev) c.bad (n + " has a modification revision beyond the database revision");
		for (int v : { 0, 1, 2, 3 }) it->second.vals += fnv1 (doc.get_value (v)) * (v + 11);
		it->second.fp = fp;
	    }
	} else if (type == "ghost") {
	    c.o->ghosts[id] = { g, "" };
	    if (nf) c.bad (n + " is a ghost with a file");
	    if (nk) c.bad (n + " is a ghost with tags");
	}
    }
    for (auto &m : c.o->msgs) if (! qs.count (m.first)) c.bad ("message " + m.first + " has no document");
}

static int observe (const char *root, int flags, NmState *o)
{
    char *err = nullptr;
    notmuch_database_t *db = nullptr;
    o->status = notmuch_database_open_with_config (root, NOTMUCH_DATABASE_MODE_READ_ONLY, "", nullptr, &db, &err);
    if (err) { o->err = err; free (err); }
    if (o->status) { if (db) notmuch_database_destroy (db); return o->status; }
    Ctx c{ db, o, root };
    const char *uu = nullptr;
    o->rev = notmuch_database_get_revision (db, &uu);
    o->uuid = uu ? uu : "";
    o->version = notmuch_database_get_version (db);
    { // (the library only tells those that open it for writing)
	Xapian::Database x (string (root) + "/.notmuch/xapian");
	string f = x.get_metadata ("features");
	o->needs_upgrade = o->version < 3;
	for (const char *n : { "multiple paths per message", "relative directory paths", "exact folder:/path: search", "mail documents for missing messages", "modification tracking" })
	    if (f.find (string (n)) == string::npos) o->needs_upgrade = true;
    }
    notmuch_query_t *q = notmuch_query_create (db, "");
    notmuch_query_set_sort (q, NOTMUCH_SORT_UNSORTED);
    notmuch_messages_t *ms;
    notmuch_status_t st = notmuch_query_search_messages (q, &ms);
    if (st) c.bad (string ("search for all messages: ") + notmuch_status_to_string (st));
    else for (; notmuch_messages_valid (ms); notmuch_messages_move_to_next (ms)) {
	notmuch_message_t *m = notmuch_messages_get (ms);
	if (! m) { c.bad ("null message"); continue; }
	NmMsg x;
	x.id = notmuch_message_get_message_id (m);
	x.thread = notmuch_message_get_thread_id (m);
	for (notmuch_filenames_t *f = notmuch_message_get_filenames (m); notmuch_filenames_valid (f); notmuch_filenames_move_to_next (f))
	    x.files.push_back (rel (root, notmuch_filenames_get (f)));
	std::sort (x.files.begin (), x.files.end ());
	for (notmuch_tags_t *t = notmuch_message_get_tags (m); notmuch_tags_valid (t); notmuch_tags_move_to_next (t))
	    x.tags.insert (notmuch_tags_get (t));
	for (notmuch_message_properties_t *p = notmuch_message_get_properties (m, "", 0); p && notmuch_message_properties_valid (p);
	     notmuch_message_properties_move_to_next (p))
	    x.props.push_back ({ notmuch_message_properties_key (p), notmuch_message_properties_value (p) });
	std::sort (x.props.begin (), x.props.end ());
	const char *h = notmuch_message_get_header (m, "from");
	x.from = h ? h : "(null)";
	h = notmuch_message_get_header (m, "subject");
	x.subject = h ? h : "(null)";
	x.date = notmuch_message_get_date (m);
	if (o->msgs.count (x.id)) c.bad ("two messages with id " + x.id);
	o->msgs[x.id] = x;
	notmuch_message_destroy (m);
    }
    notmuch_query_destroy (q);
    notmuch_config_list_t *cl;
    if (! notmuch_database_get_config_list (db, "", &cl)) {
	for (; notmuch_config_list_valid (cl); notmuch_config_list_move_to_next (cl))
	    o->config[notmuch_config_list_key (cl)] = notmuch_config_list_value (cl);
	notmuch_config_list_destroy (cl);
    } else c.bad ("get_config_list failed");
    if (flags & (NM_RAW | NM_AUDIT)) raw (c);
    if (flags & NM_AUDIT) audit (c);
    notmuch_database_destroy (db);
    return 0;
}

extern "C" int nm_observe (const char *root, int flags, NmState *o)
{
    try {
	return observe (root, flags, o);
    } catch (const Xapian::Error &e) {
	o->problems.push_back ("Xapian exception: " + e.get_description ());
    } catch (const std::exception &e) {
	o->problems.push_back (string ("exception: ") + e.what ());
    }
    return 0;
}

// ---- library clients: one operation per item, words percent-encoded
static string undo (const string &s)
{
    string r;
    if (s == "%") return r;
    for (size_t i = 0; i < s.size (); i++) {
	if (s[i] == '%' && i + 2 < s.size () && isxdigit ((unsigned char) s[i + 1]) && isxdigit ((unsigned char) s[i + 2])) {
	    r += (char) strtol (s.substr (i + 1, 2).c_str (), nullptr, 16);
	    i += 2;
	} else r += s[i];
    }
    return r;
}

static string enc (const string &s)
{
    string r;
    char b[8];
    for (unsigned char c : s) {
	if (c <= ' ' || c == '%' || c >= 127 || c == ',' || c == '=') { snprintf (b, sizeof b, "%%%02x", c); r += b; } else r += (char) c;
    }
    return r.empty () ? "%" : r;
}

struct Client {
    notmuch_database_t *db = nullptr;
    string *log;                 // what happened; not part of the simulated world
    void say (const string &s) { *log += s + "\n"; }
    string root = "/sim/home/mail";
    unsigned long last = 0; // the revision this client has seen
    string lastid;
    vector<notmuch_database_t *> dead;
    std::map<string, notmuch_message_t *> held;

    notmuch_message_t *find (const string &id, notmuch_status_t *st)
    {
	notmuch_message_t *m = nullptr;
	*st = notmuch_database_find_message (db, id.c_str (), &m);
	if (*st) return nullptr;
	notmuch_bool_t ghost = false;
	if (m && (*st = notmuch_message_get_flag_st (m, NOTMUCH_MESSAGE_FLAG_GHOST, &ghost)) == 0 && ghost) { notmuch_message_destroy (m); m = nullptr; }
	return *st ? nullptr : m;
    }
    string show (notmuch_message_t *m)
    {
	std::set<string> tags, props, files;
	for (notmuch_tags_t *t = notmuch_message_get_tags (m); t && notmuch_tags_valid (t); notmuch_tags_move_to_next (t)) tags.insert (enc (notmuch_tags_get (t)));
	for (notmuch_message_properties_t *p = notmuch_message_get_properties (m, "", 0); p && notmuch_message_properties_valid (p); notmuch_message_properties_move_to_next (p))
	    props.insert (enc (notmuch_message_properties_key (p)) + "=" + enc (notmuch_message_properties_value (p)));
	for (notmuch_filenames_t *f = notmuch_message_get_filenames (m); f && notmuch_filenames_valid (f); notmuch_filenames_move_to_next (f))
	    files.insert (enc (rel (root, notmuch_filenames_get (f))));
	auto list = [](const std::set<string> &s) { string r; for (auto &e : s) r += (r.empty () ? "" : ",") + e; return r; };
	return "tags:" + list (tags) + " props:" + list (props) + " files:" + list (files);
    }
    // the messages a query finds, with what they carry
    notmuch_status_t query (const string &q, bool full, string *out)
    {
	notmuch_query_t *qu = notmuch_query_create (db, q.c_str ());
	if (! qu) return NOTMUCH_STATUS_OUT_OF_MEMORY;
	notmuch_query_set_sort (qu, NOTMUCH_SORT_UNSORTED);
	notmuch_messages_t *ms = nullptr;
	notmuch_status_t st = notmuch_query_search_messages (qu, &ms);
	std::map<string, string> r;
	if (! st) {
	    for (; notmuch_messages_valid (ms); notmuch_messages_move_to_next (ms)) {
		notmuch_message_t *m = notmuch_messages_get (ms);
		if (! m) { st = NOTMUCH_STATUS_NULL_POINTER; break; }
		const char *id = notmuch_message_get_message_id (m);
		if (! id) { st = NOTMUCH_STATUS_NULL_POINTER; break; }
		r[enc (id)] = full ? show (m) : "";
		notmuch_message_destroy (m);
	    }
	}
	notmuch_query_destroy (qu);
	for (auto &e : r) *out += " " + e.first + (full ? " [" + e.second + "]" : "");
	return st;
    }
    notmuch_status_t tagops (notmuch_message_t *m, const vector<string> &a, size_t i)
    {
	notmuch_status_t st = NOTMUCH_STATUS_SUCCESS;
	for (; i < a.size () && ! st; i++) {
	    const string &o = a[i];
	    if (o == "freeze") st = notmuch_message_freeze (m);
	    else if (o == "thaw") st = notmuch_message_thaw (m);
	    else if (o == "clear") st = notmuch_message_remove_all_tags (m);
	    else if (o == "sync") st = notmuch_message_tags_to_maildir_flags (m);
	    else if (o == "flags") st = notmuch_message_maildir_flags_to_tags (m);
	    else if (o == "noprops") st = notmuch_message_remove_all_properties (m, nullptr);
	    else if (o == "prop" && i + 2 < a.size ()) { st = notmuch_message_add_property (m, a[i + 1].c_str (), a[i + 2].c_str ()); i += 2; }
	    else if (o == "unprop" && i + 2 < a.size ()) { st = notmuch_message_remove_property (m, a[i + 1].c_str (), a[i + 2].c_str ()); i += 2; }
	    else if (o[0] == '+') st = notmuch_message_add_tag (m, o.c_str () + 1);
	    else if (o[0] == '-') st = notmuch_message_remove_tag (m, o.c_str () + 1);
	}
	return st;
    }
    static void progress (void *, double) {}
    // turns the database into one of an older format: 0, 1, 2, or 3 without g(hosts), l(ast modification), f(older)
    void downgrade (const string &level)
    {
	Xapian::WritableDatabase x (root + "/.notmuch/xapian", Xapian::DB_OPEN);
	int v = level[0] - '0';
	auto is = [](const Xapian::Document &d, const char *term) { for (auto t = d.termlist_begin (); t != d.termlist_end (); t++) if (*t == term) return true; return false; };
	vector<Xapian::docid> ids;
	for (auto d = x.postlist_begin (""); d != x.postlist_end (""); d++) ids.push_back (*d);
	std::map<unsigned, string> dirs;
	for (auto d : ids) {
	    Xapian::Document doc = x.get_document (d);
	    for (auto t = doc.termlist_begin (); t != doc.termlist_end (); t++) if (starts (*t, "XDIRECTORY")) dirs[d] = doc.get_data ();
	}
	auto files = [&](const Xapian::Document &doc) {
	    vector<std::pair<string, string>> r;
	    for (auto t = doc.termlist_begin (); t != doc.termlist_end (); t++)
		if (starts (*t, "XFDIRENTRY")) {
		    string e = (*t).substr (10);
		    size_t k = e.find (':');
		    r.push_back ({ dirs[atoi (e.c_str ())], e.substr (k + 1) });
		}
	    return r;
	};
	if (v == 0) for (auto d : ids) if (files (x.get_document (d)).size () > 1) v = 1; // that format knew one file per message
	bool noghosts = v < 3 || level.find ('g') != string::npos, nolast = v < 3 || level.find ('l') != string::npos, nofolder = v < 2 || level.find ('f') != string::npos;
	for (auto d : ids) {
	    Xapian::Document doc = x.get_document (d);
	    if (dirs.count (d)) {
		if (v > 0) continue;
		Xapian::Document n;
		string path = root + (dirs[d].empty () ? "" : "/" + dirs[d]);
		n.add_term ("XTIMESTAMP" + path, 0);
		n.set_data (path);
		n.add_value (0, doc.get_value (0));
		x.replace_document (d, n);
		continue;
	    }
	    if (noghosts && is (doc, "Tghost")) {
		string id, thread;
		for (auto t = doc.termlist_begin (); t != doc.termlist_end (); t++) { if ((*t)[0] == 'Q') id = (*t).substr (1); if ((*t)[0] == 'G') thread = (*t).substr (1); }
		x.set_metadata ("thread_id_" + id, thread);
		x.delete_document (d);
		continue;
	    }
	    if (nofolder) {
		vector<string> drop;
		for (auto t = doc.termlist_begin (); t != doc.termlist_end (); t++) if (starts (*t, "XFOLDER:") || (*t)[0] == 'P') drop.push_back (*t);
		for (auto &t : drop) doc.remove_term (t);
		Xapian::TermGenerator gen;
		gen.set_stemmer (Xapian::Stem ("english"));
		gen.set_document (doc);
		gen.set_termpos (100000);
		for (auto &f : files (doc)) {
		    string dir = f.first;
		    size_t k = dir.rfind ('/');
		    string last = k == string::npos ? dir : dir.substr (k + 1);
		    if (last == "cur" || last == "new") dir = k == string::npos ? "" : dir.substr (0, k);
		    gen.index_text (dir, 1, "XFOLDER");
		}
	    }
	    if (nolast) doc.remove_value (4);
	    if (v < 3) for (int k : { 1, 2, 3 }) if ((d + k) % 2) doc.remove_value (k);
	    if (v == 0) {
		auto f = files (doc);
		vector<string> drop;
		for (auto t = doc.termlist_begin (); t != doc.termlist_end (); t++) if (starts (*t, "XFDIRENTRY")) drop.push_back (*t);
		for (auto &t : drop) doc.remove_term (t);
		if (! f.empty ()) doc.set_data (root + "/" + (f[0].first.empty () ? "" : f[0].first + "/") + f[0].second);
	    }
	    x.replace_document (d, doc);
	}
	if (nolast) x.set_metadata ("last_mod", "");
	string feat;
	if (v == 3) {
	    std::istringstream is (x.get_metadata ("features"));
	    for (string l; std::getline (is, l);) {
		if (noghosts && starts (l, "mail documents for missing")) continue;
		if (nolast && starts (l, "modification tracking")) continue;
		if (nofolder && starts (l, "exact folder")) continue;
		feat += l + "\n";
	    }
	}
	x.set_metadata ("features", feat);
	x.set_metadata ("version", std::to_string (v));
	x.commit ();
    }
    int run (const vector<string> &script)
    {
	int rc = 0, n = 0;
	bool strict = false;
	for (auto &item : script) {
	    vector<string> a;
	    std::istringstream is (item);
	    for (string t; is >> t;) a.push_back (undo (t));
	    if (a.empty ()) continue;
	    string v = a[0], extra;
	    notmuch_status_t st = NOTMUCH_STATUS_SUCCESS;
	    auto mode = [&](size_t i) { return i < a.size () && a[i] == "rw" ? NOTMUCH_DATABASE_MODE_READ_WRITE : NOTMUCH_DATABASE_MODE_READ_ONLY; };
	    if (v == "open") {
		char *err = nullptr;
		st = notmuch_database_open_with_config (root.c_str (), mode (1), a.size () > 2 ? nullptr : "", nullptr, &db, &err);
		free (err);
	    } else if (v == "downgrade") { downgrade (a[1]); continue; }
	    else if (v == "quit") return rc;        // leaves everything as it is
	    else if (v == "sleep") { usleep (atoi (a[1].c_str ())); continue; }
	    else if (v == "strict") { strict = true; continue; } // gives up after the first error
	    else if (! db) { st = NOTMUCH_STATUS_NULL_POINTER; }
	    else if (v == "close") st = notmuch_database_close (db);
	    else if (v == "destroy") { held.clear (); st = notmuch_database_destroy (db); db = nullptr; }
	    else if (v == "reopen") st = notmuch_database_reopen (db, mode (1));
	    else if (v == "upgrade") st = notmuch_database_upgrade (db, a.size () > 1 ? progress : nullptr, nullptr);
	    else if (v == "begin") st = notmuch_database_begin_atomic (db);
	    else if (v == "end") st = notmuch_database_end_atomic (db);
	    else if (v == "rev") {
		const char *u = nullptr;
		last = notmuch_database_get_revision (db, &u);
		extra = " " + std::to_string (last) + " " + (u ? u : "");
	    } else if (v == "since") { // changes since the revision seen before, and remember the present one
		const char *u = nullptr;
		unsigned long now = notmuch_database_get_revision (db, &u);
		string id = u ? u : "", out;
		if (id != lastid) last = 0;
		st = query ("lastmod:" + std::to_string (lastid == id ? last + 1 : 0) + "..", true, &out);
		extra = " " + std::to_string (last) + " " + std::to_string (now) + " " + id + out;
		if (! st) { last = now; lastid = id; }
	    } else if (v == "q" || v == "look") { st = query (a[1], v == "look", &extra); }
	    else if (v == "count") {
		notmuch_query_t *q = notmuch_query_create (db, a[1].c_str ());
		unsigned k = 0;
		st = notmuch_query_count_messages (q, &k);
		notmuch_query_destroy (q);
		extra = " " + std::to_string (k);
	    } else if (v == "m") { // m ID operations...
		notmuch_message_t *m = find (a[1], &st);
		if (! st && ! m) extra = " absent";
		else if (! st) { st = tagops (m, a, 2); if (a.size () == 2) extra = " " + show (m); notmuch_message_destroy (m); }
	    } else if (v == "hold") { notmuch_message_t *m = find (a[1], &st); if (m) held[a[1]] = m; }
	    else if (v == "h") { if (held.count (a[1])) { st = tagops (held[a[1]], a, 2); if (a.size () == 2) extra = " " + show (held[a[1]]); } else extra = " absent"; }
	    else if (v == "each") { // each QUERY operations...
		notmuch_query_t *q = notmuch_query_create (db, a[1].c_str ());
		notmuch_messages_t *ms = nullptr;
		st = notmuch_query_search_messages (q, &ms);
		for (; ! st && notmuch_messages_valid (ms); notmuch_messages_move_to_next (ms)) {
		    notmuch_message_t *m = notmuch_messages_get (ms);
		    if (! m) { st = NOTMUCH_STATUS_NULL_POINTER; break; }
		    st = tagops (m, a, 2);
		    notmuch_message_destroy (m);
		}
		notmuch_query_destroy (q);
	    } else if (v == "index" || v == "reindex") {
		notmuch_message_t *m = nullptr;
		if (v == "index") {
		    st = notmuch_database_index_file (db, (root + "/" + a[1]).c_str (), nullptr, &m);
		    if (st == NOTMUCH_STATUS_DUPLICATE_MESSAGE_ID) { extra = " dup"; st = NOTMUCH_STATUS_SUCCESS; }
		    else if (st == NOTMUCH_STATUS_FILE_NOT_EMAIL) { extra = " nomail"; st = NOTMUCH_STATUS_SUCCESS; }
		} else {
		    m = find (a[1], &st);
		    if (m) st = notmuch_message_reindex (m, nullptr);
		}
		if (! st && m && a.size () > 2) st = tagops (m, a, 2);
		if (m) notmuch_message_destroy (m);
	    } else if (v == "remove") {
		st = notmuch_database_remove_message (db, (root + "/" + a[1]).c_str ());
		if (st == NOTMUCH_STATUS_DUPLICATE_MESSAGE_ID) { extra = " more"; st = NOTMUCH_STATUS_SUCCESS; }
	    } else if (v == "cfg") st = notmuch_database_set_config (db, a[1].c_str (), a.size () > 2 ? a[2].c_str () : "");
	    else if (v == "getcfg") {
		char *s = nullptr;
		st = notmuch_database_get_config (db, a[1].c_str (), &s);
		if (s) extra = " " + enc (s);
		free (s);
	    } else { say ("unknown " + v); return 99; }
	    say (std::to_string (n) + " " + v + " " + (st ? enc (notmuch_status_to_string (st)) : "ok") + extra);
	    if (st) rc = 1;
	    n++;
	    if (rc && strict) break;
	}
	if (db) {
	    held.clear ();
	    notmuch_status_t st = notmuch_database_destroy (db);
	    if (st) rc = 1;
	    say (string ("end ") + (st ? enc (notmuch_status_to_string (st)) : "ok"));
	}
	return rc;
    }
};

extern "C" int nm_client (const vector<string> *script, string *log)
{
    Client *c = new Client; // (it may end at any step)
    c->log = log;
    return c->run (*script);
}
