#include "model.h"
#include <algorithm>
#include <cstring>
#include <regex.h>

namespace sim {

std::string Q::str () const
{
    std::string s = "( " + op;
    for (auto &x : a) s += " " + (x.empty () ? "%" : pct_enc (x));
    for (auto &q : sub) s += " " + q.str ();
    return s + " )";
}

static Q parse_at (const VS &t, size_t &i)
{
    Q q;
    i++; // (
    if (i < t.size ()) q.op = t[i++];
    while (i < t.size () && t[i] != ")") {
	if (t[i] == "(") q.sub.push_back (parse_at (t, i));
	else { q.a.push_back (t[i] == "%" ? "" : pct_dec (t[i])); i++; }
    }
    i++;
    return q;
}

Q Q::parse (const std::string &s)
{
    VS t;
    for (auto &x : split (s, ' ')) if (! x.empty ()) t.push_back (x);
    size_t i = 0;
    return parse_at (t, i);
}

static std::string dq (const std::string &s)
{
    std::string r = "\"";
    for (char c : s) { if (c == '"') r += '"'; r += c; }
    return r + "\"";
}

static std::string sq (const std::string &s)
{
    std::string r = "\"";
    for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; }
    return r + "\"";
}

static const char *prefix_of (const std::string &op)
{
    static const std::map<std::string, const char *> m = { { "tag", "tag" }, { "tagre", "tag" }, { "id", "id" }, { "idre", "mid" }, { "folder", "folder" },
	{ "folderre", "folder" }, { "path", "path" }, { "pathrec", "path" }, { "prop", "property" }, { "from", "from" }, { "subj", "subject" } };
    auto i = m.find (op);
    return i == m.end () ? "" : i->second;
}

std::string Q::infix (bool top) const
{
    if (op == "all") return top ? "*" : "path:\"**\"";
    if (op == "and" || op == "or" || op == "xor") {
	std::string s = "( ";
	for (size_t i = 0; i < sub.size (); i++) s += (i ? " " + op + " " : "") + sub[i].infix (false);
	return s + " )";
    }
    if (op == "not") return "( not " + sub[0].infix (false) + " )";
    if (op == "thread") return "thread:" + dq ("{" + sub[0].infix (false) + "}");
    if (op == "year") return "date:" + a[0] + ".." + a[1];
    if (op == "tagre" || op == "idre" || op == "folderre") return std::string (prefix_of (op)) + ":" + dq ("/" + a[0] + "/");
    if (op == "pathrec") return "path:" + dq (a[0].empty () ? "**" : a[0] + "/**");
    if (op == "from" || op == "subj") return std::string (prefix_of (op)) + ":" + a[0];
    return std::string (prefix_of (op)) + ":" + dq (a[0]);
}

std::string Q::sexp () const
{
    if (op == "all") return "()";
    if (op == "and" || op == "or") {
	std::string s = "(" + op;
	for (auto &q : sub) s += " " + q.sexp ();
	return s + ")";
    }
    if (op == "xor") return "(or (and " + sub[0].sexp () + " (not " + sub[1].sexp () + ")) (and " + sub[1].sexp () + " (not " + sub[0].sexp () + ")))";
    if (op == "not") return "(not " + sub[0].sexp () + ")";
    if (op == "thread") return "(thread (of " + sub[0].sexp () + "))";
    if (op == "year") return "(date " + a[0] + " " + a[1] + ")";
    if (op == "tagre" || op == "idre" || op == "folderre") return std::string ("(") + prefix_of (op) + " (rx " + sq (a[0]) + "))";
    if (op == "pathrec") return "(infix " + sq (infix (false)) + ")";
    if (op == "from" || op == "subj") return std::string ("(") + prefix_of (op) + " " + a[0] + ")";
    return std::string ("(") + prefix_of (op) + " " + sq (a[0]) + ")";
}

static bool rx (const std::string &re, const std::string &s)
{
    regex_t r;
    if (regcomp (&r, re.c_str (), REG_EXTENDED | REG_NOSUB)) return false;
    bool ok = regexec (&r, s.c_str (), 0, nullptr, 0) == 0;
    regfree (&r);
    return ok;
}

bool Q::mentions (const std::string &t) const
{
    if (op == "tag" && a[0] == t) return true;
    if (op == "tagre" && rx (a[0], t)) return true; // expands to the tags it matches
    if (op == "thread") return false;               // expands to thread ids
    for (auto &q : sub) if (q.mentions (t)) return true;
    return false;
}

static std::string header (const std::string &b, const char *name)
{
    std::string n = std::string (name) + ": ";
    size_t k = b.compare (0, n.size (), n) == 0 ? 0 : b.find ("\n" + n);
    if (k == std::string::npos || k > b.find ("\n\n")) return "";
    if (k || b[0] == '\n') k++;
    k += n.size ();
    return b.substr (k, b.find ('\n', k) - k);
}

QEnv qenv (Exec &x, const NmState &s)
{
    QEnv e;
    e.m = model_of (s);
    for (auto &p : s.msgs) e.thread[p.first] = p.second.thread;
    for (auto &d : x.defs) {
	const MsgDef &m = d.second;
	if (m.mid.empty ()) continue;
	e.from[m.mid] = header (m.bytes, "From");
	e.subj[m.mid] = header (m.bytes, "Subject");
	std::string dt = header (m.bytes, "Date");
	if (dt.size () > 11) e.year[m.mid] = atoi (dt.substr (7, 4).c_str ());
    }
    return e;
}

static std::string dir_of (const std::string &f) { size_t k = f.rfind ('/'); return k == std::string::npos ? "" : f.substr (0, k); }
static std::string folder_of (const std::string &f)
{
    std::string d = dir_of (f);
    size_t k = d.rfind ('/');
    std::string last = k == std::string::npos ? d : d.substr (k + 1);
    if (last == "cur" || last == "new") return k == std::string::npos ? "" : d.substr (0, k);
    return d;
}

static bool has_word (const std::string &text, const std::string &w)
{
    std::string cur;
    for (size_t i = 0; i <= text.size (); i++) {
	char c = i < text.size () ? text[i] : ' ';
	if (isalnum ((unsigned char) c)) cur += tolower (c);
	else { if (cur == w) return true; cur.clear (); }
    }
    return false;
}

SS eval (const QEnv &e, const Q &q)
{
    SS r;
    if (q.op == "and" || q.op == "or" || q.op == "xor") {
	for (size_t i = 0; i < q.sub.size (); i++) {
	    SS s = eval (e, q.sub[i]);
	    if (! i) { r = s; continue; }
	    SS n;
	    if (q.op == "and") std::set_intersection (r.begin (), r.end (), s.begin (), s.end (), std::inserter (n, n.end ()));
	    else if (q.op == "or") std::set_union (r.begin (), r.end (), s.begin (), s.end (), std::inserter (n, n.end ()));
	    else std::set_symmetric_difference (r.begin (), r.end (), s.begin (), s.end (), std::inserter (n, n.end ()));
	    r = n;
	}
	return r;
    }
    if (q.op == "not") {
	SS s = eval (e, q.sub[0]);
	for (auto &p : e.m) if (! s.count (p.first)) r.insert (p.first);
	return r;
    }
    if (q.op == "thread") {
	SS th;
	for (auto &m : eval (e, q.sub[0])) th.insert (e.thread.at (m));
	for (auto &p : e.thread) if (th.count (p.second)) r.insert (p.first);
	return r;
    }
    for (auto &p : e.m) {
	bool y = false;
	const MM &m = p.second;
	if (q.op == "all") y = true;
	else if (q.op == "tag") y = m.tags.count (q.a[0]);
	else if (q.op == "tagre") { for (auto &t : m.tags) if (rx (q.a[0], t)) y = true; }
	else if (q.op == "id") y = p.first == q.a[0];
	else if (q.op == "idre") y = rx (q.a[0], p.first);
	else if (q.op == "folder") { for (auto &f : m.files) if (folder_of (f) == q.a[0]) y = true; }
	else if (q.op == "folderre") { for (auto &f : m.files) if (rx (q.a[0], folder_of (f))) y = true; }
	else if (q.op == "path") { for (auto &f : m.files) if (dir_of (f) == q.a[0]) y = true; }
	else if (q.op == "pathrec") { for (auto &f : m.files) if (q.a[0].empty () || f.compare (0, q.a[0].size () + 1, q.a[0] + "/") == 0) y = true; }
	else if (q.op == "prop") { for (auto &kv : m.props) if (kv.first + "=" + kv.second == q.a[0]) y = true; }
	else if (q.op == "from") { auto i = e.from.find (p.first); y = i != e.from.end () && has_word (i->second, q.a[0]); }
	else if (q.op == "subj") { auto i = e.subj.find (p.first); y = i != e.subj.end () && has_word (i->second, q.a[0]); }
	else if (q.op == "year") { auto i = e.year.find (p.first); y = i != e.year.end () && i->second >= atoi (q.a[0].c_str ()) && i->second <= atoi (q.a[1].c_str ()); }
	if (y) r.insert (p.first);
    }
    return r;
}

void apply_ops (SS &tags, const VS &ops, bool remove_all)
{
    if (remove_all) tags.clear ();
    for (auto &o : ops) if (o[0] == '+') tags.insert (o.substr (1)); else tags.erase (o.substr (1));
}

bool is_mailfile (const std::string &rel)
{
    std::string d = dir_of (rel);
    size_t k = d.rfind ('/');
    std::string last = k == std::string::npos ? d : d.substr (k + 1);
    return last == "cur" || last == "new";
}

std::string flag_name (const std::string &file, const SS &tags)
{
    if (! is_mailfile (file)) return file;
    size_t slash = file.rfind ('/');
    std::string dir = file.substr (0, slash), base = file.substr (slash + 1);
    size_t k = base.find (":2,");
    std::string stem = base.substr (0, k), old = k == std::string::npos ? "" : base.substr (k + 3);
    std::set<char> fl;
    unsigned char last = 0;
    for (unsigned char c : old) {
	if (c <= last || c > 127) return file; // not flags as maildir has them
	last = c;
	fl.insert (c);
    }
    std::set<char> was = fl;
    static const struct { char f; const char *t; bool inv; } tab[] = {
	{ 'D', "draft", false }, { 'F', "flagged", false }, { 'P', "passed", false }, { 'R', "replied", false }, { 'S', "unread", true } };
    for (auto &x : tab) if ((tags.count (x.t) > 0) != x.inv) fl.insert (x.f); else fl.erase (x.f);
    bool isnew = dir == "new" || (dir.size () > 4 && dir.compare (dir.size () - 4, 4, "/new") == 0);
    if (isnew && k == std::string::npos && fl == was) return file;
    if (isnew) dir = dir.substr (0, dir.size () - 3) + "cur";
    return dir + "/" + stem + ":2," + std::string (fl.begin (), fl.end ());
}

std::map<std::string, std::string> maildir_files (const FS &fs, const std::string &root)
{
    std::map<std::string, std::string> r;
    for (auto &f : all_files (fs, root)) if (is_mailfile (f.first)) r.insert (f);
    return r;
}

std::map<std::string, std::string> all_files (const FS &fs, const std::string &root)
{
    std::map<std::string, std::string> r;
    fs.walk (root, [&](const std::string &p, const Inode &i) {
	if (! i.isreg () || p.find ("/.notmuch/") != std::string::npos) return;
	r[p.substr (root.size () + 1)] = i.data;
    });
    return r;
}

std::string hexq (const std::string &t)
{
    std::string r;
    for (unsigned char c : t) {
	if (isalnum (c) || (c && strchr ("+-_@=.,", c))) r += c;
	else r += fmt ("%%%02x", c);
    }
    return r;
}

bool unhex (const std::string &s, std::string *out)
{
    out->clear ();
    for (size_t i = 0; i < s.size (); i++) {
	if (s[i] != '%') { *out += s[i]; continue; }
	if (i + 2 >= s.size () || ! isxdigit ((unsigned char) s[i + 1]) || ! isxdigit ((unsigned char) s[i + 2])) return false;
	*out += (char) strtol (s.substr (i + 1, 2).c_str (), nullptr, 16);
	i += 2;
    }
    return true;
}

// ---------------------------------------------------------------- generators
static Q leaf (const std::string &op, const VS &a = {}) { Q q; q.op = op; q.a = a; return q; }

Q rquery (Gen &g, int depth)
{
    Rng &r = g.r;
    if (depth > 0 && r.pct (45)) {
	int k = r.below (10);
	Q q;
	q.op = k < 4 ? "and" : k < 7 ? "or" : k < 9 ? "not" : "xor";
	if (r.pct (12)) q.op = "thread";
	int n = q.op == "not" || q.op == "thread" ? 1 : q.op == "xor" ? 2 : r.range (2, 3);
	for (int i = 0; i < n; i++) q.sub.push_back (rquery (g, depth - 1));
	return q;
    }
    int k = r.below (100);
    if (k < 12) return leaf ("all");
    if (k < 40) return leaf ("tag", { g.anytag () });
    if (k < 58 && ! g.mids.empty ()) return leaf ("id", { g.anymid () });
    if (k < 64) return leaf ("folder", { r.pct (85) ? r.of (g.dirs) : "nosuch" });
    if (k < 70) { std::string d = r.of (g.dirs); return leaf ("path", { (d.empty () ? "" : d + "/") + (r.pct (50) ? "cur" : "new") }); }
    if (k < 76) return leaf ("pathrec", { r.of (g.dirs) });
    if (k < 80) return leaf ("prop", { fmt ("key=value%d", r.below (5)) });
    if (k < 85) return leaf ("from", { fmt ("u%d", r.below (4)) });
    if (k < 89) return leaf ("subj", { r.of (VS{ "alpha", "bravo", "charlie", "delta", "echo", "foxtrot", "golf", "hotel" }) });
    if (k < 93) { int a = r.range (2001, 2019); return leaf ("year", { fmt ("%d", a), fmt ("%d", r.range (a, 2019)) }); }
    if (k < 95) return leaf ("tagre", { r.of (VS{ "^in", "e", "^(todo|work)$", "d$", "x:" }) });
    if (k < 97) return leaf ("idre", { r.of (VS{ "^m[0-4]@", "@sim$", "^UPPER", "m.*5" }) });
    if (k < 98) return leaf ("folderre", { r.of (VS{ "w", "^work", "^$", "o.*d" }) });
    return leaf ("tag", { "nosuchtag" });
}

VS rops (Gen &g, int lo, int hi, const VS &extra)
{
    VS v;
    int n = g.r.range (lo, hi);
    for (int i = 0; i < n; i++) {
	std::string t = ! extra.empty () && g.r.pct (30) ? g.r.of (extra) : g.anytag ();
	bool rm = g.r.pct (35);
	if (! rm && t[0] == '-') rm = true;
	v.push_back ((rm ? "-" : "+") + t);
    }
    return v;
}

}
namespace sim {

static void utf8 (std::string &s, unsigned c)
{
    if (c < 0x80) s += c;
    else if (c < 0x800) { s += 0xc0 | c >> 6; s += 0x80 | (c & 63); }
    else { s += 0xe0 | c >> 12; s += 0x80 | (c >> 6 & 63); s += 0x80 | (c & 63); }
}

static bool jp (const std::string &s, size_t &i, J *o)
{
    auto ws = [&]() { while (i < s.size () && strchr (" \t\r\n", s[i])) i++; };
    auto str = [&](std::string *r) {
	if (s[i] != '"') return false;
	for (i++; i < s.size () && s[i] != '"'; i++) {
	    if (s[i] != '\\') { *r += s[i]; continue; }
	    if (++i >= s.size ()) return false;
	    switch (s[i]) {
	    case 'n': *r += '\n'; break;
	    case 't': *r += '\t'; break;
	    case 'r': *r += '\r'; break;
	    case 'b': *r += '\b'; break;
	    case 'f': *r += '\f'; break;
	    case 'u': if (i + 4 >= s.size ()) return false; utf8 (*r, strtol (s.substr (i + 1, 4).c_str (), nullptr, 16)); i += 4; break;
	    default: *r += s[i];
	    }
	}
	if (i >= s.size ()) return false;
	i++;
	return true;
    };
    ws ();
    if (i >= s.size ()) return false;
    if (s[i] == '{' || s[i] == '[') {
	char close = s[i] == '{' ? '}' : ']';
	o->t = s[i] == '{' ? 'o' : 'a';
	i++;
	ws ();
	if (i < s.size () && s[i] == close) { i++; return true; }
	while (true) {
	    std::string k;
	    ws ();
	    if (o->t == 'o') {
		if (! str (&k)) return false;
		ws ();
		if (s[i] != ':') return false;
		i++;
	    }
	    J c;
	    if (! jp (s, i, &c)) return false;
	    if (o->t == 'o') o->o.push_back ({ k, c }); else o->v.push_back (c);
	    ws ();
	    if (i >= s.size ()) return false;
	    if (s[i] == close) { i++; return true; }
	    if (s[i] != ',') return false;
	    i++;
	}
    }
    if (s[i] == '"') { o->t = 's'; return str (&o->s); }
    if (s.compare (i, 4, "true") == 0) { o->t = 'b'; o->n = 1; i += 4; return true; }
    if (s.compare (i, 5, "false") == 0) { o->t = 'b'; i += 5; return true; }
    if (s.compare (i, 4, "null") == 0) { o->t = 'z'; i += 4; return true; }
    char *e;
    o->t = 'n';
    o->n = strtod (s.c_str () + i, &e);
    if (e == s.c_str () + i) return false;
    i = e - s.c_str ();
    return true;
}

bool json_parse (const std::string &s, J *out)
{
    size_t i = 0;
    if (! jp (s, i, out)) return false;
    while (i < s.size () && strchr (" \t\r\n", s[i])) i++;
    return i == s.size ();
}

VS lines0 (const std::string &out)
{
    VS v;
    std::string c;
    for (char x : out) {
	if (! x || x == '\n') { v.push_back (c); c.clear (); } else c += x;
    }
    if (! c.empty ()) v.push_back (c);
    return v;
}
}
