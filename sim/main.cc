// Command line: explore, replay, minimise.
#include <glib.h>
#include "core.h"
#include <algorithm>
#include <cstring>
#include <fcntl.h>
#include <poll.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {
Workload *workload_scan (const std::string &, const std::string &);
Workload *workload_insert (const std::string &, const std::string &);
Workload *workload_tag (const std::string &, const std::string &);
Workload *workload_prog (const std::string &, const std::string &);
Workload *workload_par (const std::string &, const std::string &);
Workload *workload_maint (const std::string &, const std::string &);
Workload *workload_dump (const std::string &, const std::string &);
Workload *workload_lib (const std::string &, const std::string &);
Workload *workload_hook (const std::string &, const std::string &);
Workload *workload_derive (const std::string &, const std::string &);
Workload *workload (const std::string &prop, const std::string &kind)
{
    Workload *w;
    if ((w = workload_scan (prop, kind))) return w;
    if ((w = workload_insert (prop, kind))) return w;
    if ((w = workload_tag (prop, kind))) return w;
    if ((w = workload_prog (prop, kind))) return w;
    if ((w = workload_par (prop, kind))) return w;
    if ((w = workload_maint (prop, kind))) return w;
    if ((w = workload_dump (prop, kind))) return w;
    if ((w = workload_lib (prop, kind))) return w;
    if ((w = workload_hook (prop, kind))) return w;
    if ((w = workload_derive (prop, kind))) return w;
    return nullptr;
}
}

using namespace sim;

static double now_s () { struct timeval t; gettimeofday (&t, nullptr); return t.tv_sec + t.tv_usec / 1e6; }

static std::string json_str (const std::string &s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
	if (c == '"' || c == '\\') { r += '\\'; r += c; }
	else if (c < 32 || c >= 127) r += fmt ("\\u%04x", c);
	else r += c;
    }
    return r + "\"";
}

static void world_stats (World &w, Stats &s)
{
    for (int i = 1; i < F_NK; i++) if (w.fault_count[i]) s.n[std::string ("fault.") + fault_name[i]] += w.fault_count[i];
    for (int i = 0; i < S_NSYS; i++) if (w.fault_sys[i]) s.n[std::string ("fault_at.") + sys_name[i]] += w.fault_sys[i];
    for (auto &e : w.errno_count) s.n[std::string ("errno.") + strerrorname_np (e.first)] += e.second;
    s.n["steps"] += w.total_steps;
    s.n["switches"] += w.total_switches;
    s.n["simulated_us"] += w.clock_total / 1000;
    if (! w.escapes.empty ()) { s.n["escapes"] += w.escapes.size (); fprintf (stderr, "escape: %s\n", w.escapes[0].c_str ()); }
}

static int g_tier;

static void limits (double limit)
{
    alarm ((unsigned) limit);
    struct rlimit rl = { 6ULL << 30, 6ULL << 30 };
    setrlimit (RLIMIT_AS, &rl);
    struct rlimit zero = { 0, 0 };
    setrlimit (RLIMIT_CORE, &zero);
}

static void child (int fd, const std::string &prop, uint64_t seed, double limit, bool emit = false)
{
    limits (limit);
    Stats st;
    World w;
    W = &w;
    Exec x (w, &st);
    Rng r (seed);
    FILE *o = fdopen (fd, "w");
    fprintf (o, "SEED %llu\n", (unsigned long long) seed);
    fflush (o);
    Workload *wl = workload (prop, "");
    Plan p = wl->gen (r, g_tier);
    p.seed = seed;
    int nv = 0;
    SS tags;
    if (emit) x.about = [&](const Plan &pl) { fprintf (o, "PLAN %s\n", pct_enc (pl.str ()).c_str ()); fflush (o); };
    auto report = [&](const Plan &pl) {
	std::string tag = x.viols.empty () ? "?" : x.viols[0].tag;
	if (tags.insert (tag).second) {
	    fprintf (o, "VIOL %s %s %s\n", pct_enc (tag).c_str (), pct_enc (x.viols.empty () ? "" : x.viols[0].text).c_str (), pct_enc (pl.str ()).c_str ());
	    fflush (o);
	}
	return ++nv < 4;
    };
    wl->explore (x, p, r, g_tier, report);
    if (seed % 16 == 1) fprintf (o, "SAMPLE %s\n", pct_enc (p.str ()).c_str ());
    world_stats (w, st);
    for (auto &k : st.n) fprintf (o, "STAT %s %llu\n", k.first.c_str (), (unsigned long long) k.second);
    for (auto h : st.states) fprintf (o, "STATE %llx\n", (unsigned long long) h);
    for (auto h : st.scheds) fprintf (o, "SCHED %llx\n", (unsigned long long) h);
    fprintf (o, "END\n");
    fclose (o);
    _exit (0);
}

// Runs one plan in a fresh child; returns the outcome text.
struct Outcome { bool done = false; std::string tag, text; uint64_t hash = 0; };
static Outcome run_plan (const Plan &p, bool verbose, double limit = 60)
{
    int pf[2];
    if (pipe (pf)) { perror ("pipe"); exit (3); }
    fflush (stdout);
    pid_t pid = fork ();
    if (! pid) {
	close (pf[0]);
	limits (limit);
	Stats st;
	World w;
	W = &w;
	Exec x (w, &st);
	x.verbose = verbose;
	Plan q = p;
	Workload *wl = workload (p.prop, p.kind);
	wl->exec (x, q);
	fflush (stdout);
	FILE *o = fdopen (pf[1], "w");
	fprintf (o, "%llx %s %s\n", (unsigned long long) w.hash, x.failed () ? pct_enc (x.viols[0].tag).c_str () : "-", x.failed () ? pct_enc (x.viols[0].text).c_str () : "-");
	fclose (o);
	_exit (0);
    }
    close (pf[1]);
    std::string s;
    char b[4096];
    ssize_t n;
    while ((n = read (pf[0], b, sizeof b)) > 0) s.append (b, n);
    close (pf[0]);
    int stt;
    waitpid (pid, &stt, 0);
    Outcome o;
    VS t = split (s.substr (0, s.find ('\n')), ' ');
    if (t.size () == 3) {
	o.done = true;
	o.hash = strtoull (t[0].c_str (), nullptr, 16);
	if (t[1] != "-") { o.tag = pct_dec (t[1]); o.text = pct_dec (t[2]); }
    } else if (WIFSIGNALED (stt) && WTERMSIG (stt) != SIGKILL) {
	o.done = true;
	o.tag = "notmuch-wrecks-its-process";
	o.text = fmt ("the run ends the simulator's process with signal %d: the code under test hangs or destroys memory", WTERMSIG (stt));
    }
    return o;
}

// Smaller plan with the same violation.
static Plan minimise (Plan p, const std::string &tag, double limit)
{
    double end = now_s () + limit;
    auto bad = [&](const Plan &q) { if (now_s () > end) return false; Outcome o = run_plan (q, false, 20); return o.done && o.tag == tag; };
    // drop operations, larger chunks first
    for (size_t n = p.ops.size () / 2; n >= 1; n /= 2) {
	for (size_t i = 0; i < p.ops.size ();) {
	    Plan q = p;
	    size_t m = std::min (n, q.ops.size () - i);
	    bool keep = false;
	    for (size_t j = i; j < i + m; j++) if (q.ops[j].verb == "target" || q.ops[j].verb == "conf") keep = true;
	    if (keep) { i += n == 1 ? 1 : m; continue; }
	    q.ops.erase (q.ops.begin () + i, q.ops.begin () + i + m);
	    if (bad (q)) p = q; else i += m;
	}
    }
    // drop faults, context switches, nodes
    for (size_t i = 0; i < p.ops.size (); i++) {
	for (size_t j = 0; j < p.ops[i].faults.size ();) {
	    Plan q = p;
	    q.ops[i].faults.erase (q.ops[i].faults.begin () + j);
	    if (bad (q)) p = q; else j++;
	}
	for (size_t j = 0; j < p.ops[i].sub.size (); j++)
	    for (size_t k = 0; k < p.ops[i].sub[j].faults.size ();) {
		Plan q = p;
		q.ops[i].sub[j].faults.erase (q.ops[i].sub[j].faults.begin () + k);
		if (bad (q)) p = q; else k++;
	    }
	for (size_t j = 0; p.ops[i].verb != "par" && j < p.ops[i].sub.size ();) {
	    Plan q = p;
	    q.ops[i].sub.erase (q.ops[i].sub.begin () + j);
	    if (bad (q)) p = q; else j++;
	}
	if (p.ops[i].verb != "par" || ! p.ops[i].sched.explicit_) continue;
	for (size_t n = std::max<size_t> (1, p.ops[i].sched.sw.size () / 2); n >= 1; n /= 2) {
	    for (size_t j = 0; j < p.ops[i].sched.sw.size ();) {
		Plan q = p;
		auto a = q.ops[i].sched.sw.begin ();
		std::advance (a, j);
		auto b = a;
		for (size_t k = 0; k < n && b != q.ops[i].sched.sw.end (); k++) ++b;
		q.ops[i].sched.sw.erase (a, b);
		if (bad (q)) p = q; else j += n;
	    }
	    if (n == 1) break;
	}
    }
    return p;
}

static std::string slurp (const std::string &f)
{
    FILE *h = fopen (f.c_str (), "rb");
    if (! h) { perror (f.c_str ()); exit (3); }
    std::string s;
    char b[4096];
    size_t n;
    while ((n = fread (b, 1, sizeof b, h)) > 0) s.append (b, n);
    fclose (h);
    return s;
}

static void spit (const std::string &f, const std::string &s)
{
    FILE *h = fopen (f.c_str (), "wb");
    if (! h || fwrite (s.data (), 1, s.size (), h) != s.size () || fclose (h)) { perror (f.c_str ()); exit (3); }
}

struct Worker { pid_t pid = 0; int fd = -1; std::string buf; uint64_t seed = 0; bool end = false; };

static int explore (std::map<std::string, std::string> &opt)
{
    std::string prop = opt["prop"], out = opt["evidence"], rdir = opt["replays"];
    uint64_t seed = strtoull (opt["seed"].c_str (), nullptr, 10);
    int nseeds = atoi (opt["seeds"].c_str ()), jobs = opt.count ("jobs") ? atoi (opt["jobs"].c_str ()) : 8;
    double limit = atof (opt["time"].c_str ());
    double t0 = now_s ();
    Stats tot;
    std::vector<std::string> samples;
    struct V { std::string tag, text, plan; uint64_t seed; };
    std::vector<V> viols;
    std::map<std::string, int> perTag;
    std::vector<uint64_t> crashseeds;
    uint64_t done = 0, crashed = 0, launched = 0;
    std::vector<Worker> ws (jobs);
    bool stop = false;
    auto line = [&](Worker &wk, const std::string &l) {
	VS t = split (l, ' ');
	if (t.empty ()) return;
	if (t[0] == "STAT") tot.n[t[1]] += strtoull (t[2].c_str (), nullptr, 10);
	else if (t[0] == "STATE") tot.states.insert (strtoull (t[1].c_str (), nullptr, 16));
	else if (t[0] == "SCHED") tot.scheds.insert (strtoull (t[1].c_str (), nullptr, 16));
	else if (t[0] == "SAMPLE") { if (samples.size () < 3) samples.push_back (pct_dec (t[1])); }
	else if (t[0] == "END") wk.end = true;
	else if (t[0] == "VIOL") {
	    std::string tag = pct_dec (t[1]);
	    if (perTag[tag]++ < 3) viols.push_back (V{ tag, pct_dec (t[2]), pct_dec (t[3]), wk.seed });
	    if (! opt.count ("keep-going")) stop = true;
	}
    };
    while (true) {
	bool busy = false;
	std::vector<pollfd> pf;
	for (auto &wk : ws) {
	    if (! wk.pid && ! stop && (int) launched < nseeds && now_s () - t0 < limit) {
		int p[2];
		if (pipe (p)) { perror ("pipe"); exit (3); }
		wk.seed = seed * 1000003ULL + launched++;
		wk.buf.clear ();
		wk.end = false;
		fflush (stdout);
		wk.pid = fork ();
		if (! wk.pid) { close (p[0]); child (p[1], prop, wk.seed, g_tier ? 600 : 120); }
		close (p[1]);
		wk.fd = p[0];
	    }
	    if (wk.pid) { busy = true; pf.push_back ({ wk.fd, POLLIN, 0 }); }
	}
	if (! busy) break;
	poll (pf.data (), pf.size (), 1000);
	for (auto &q : pf) {
	    if (! q.revents) continue;
	    for (auto &wk : ws)
		if (wk.pid && wk.fd == q.fd) {
		    char b[65536];
		    ssize_t n = read (wk.fd, b, sizeof b);
		    if (n > 0) {
			wk.buf.append (b, n);
			size_t k;
			while ((k = wk.buf.find ('\n')) != std::string::npos) { line (wk, wk.buf.substr (0, k)); wk.buf.erase (0, k + 1); }
		    } else {
			int stt;
			waitpid (wk.pid, &stt, 0);
			close (wk.fd);
			if (wk.end) done++;
			else { crashed++; crashseeds.push_back (wk.seed); fprintf (stderr, "seed %llu: simulator child ended with status %x\n", (unsigned long long) wk.seed, stt); }
			wk.pid = 0;
		    }
		}
	}
    }
    double texp = now_s () - t0;
    // a run that ended the simulator: find the plan
    for (size_t i = 0; i < crashseeds.size () && i < 2 && viols.empty (); i++) {
	int p[2];
	if (pipe (p)) { perror ("pipe"); exit (3); }
	pid_t pid = fork ();
	if (! pid) { close (p[0]); child (p[1], prop, crashseeds[i], g_tier ? 600 : 120, true); }
	close (p[1]);
	std::string buf;
	char b[65536];
	ssize_t n;
	while ((n = read (p[0], b, sizeof b)) > 0) buf.append (b, n);
	close (p[0]);
	int stt;
	waitpid (pid, &stt, 0);
	size_t k = buf.rfind ("PLAN ");
	if (k != std::string::npos && WIFSIGNALED (stt))
	    viols.push_back (V{ "notmuch-wrecks-its-process", "", pct_dec (buf.substr (k + 5, buf.find ('\n', k) - k - 5)), crashseeds[i] });
    }
    // confirm, minimise, report
    int bad = 0;
    std::set<std::string> reported;
    int unstable = 0;
    for (auto &v : viols) {
	if (reported.count (v.tag)) continue;
	Plan p;
	p.parse (v.plan);
	Outcome a = run_plan (p, false), b = run_plan (p, false);
	if (! a.done || ! b.done || a.tag != v.tag || b.tag != v.tag || a.hash != b.hash) {
	    unstable++;
	    fprintf (stderr, "seed %llu: '%s' (%s) did not repeat: %s/%s %llx/%llx\n", (unsigned long long) v.seed, v.tag.c_str (), v.text.c_str (), a.tag.c_str (), b.tag.c_str (),
		     (unsigned long long) a.hash, (unsigned long long) b.hash);
	    if (opt.count ("keep-unstable")) spit (rdir + "/unstable-" + prop + "-" + v.tag + ".plan", v.plan);
	    continue;
	}
	Plan m = minimise (p, v.tag, opt.count ("mintime") ? atof (opt["mintime"].c_str ()) : 40);
	Outcome c = run_plan (m, false), d = run_plan (m, false);
	if (c.tag != v.tag || c.hash != d.hash) { m = p; c = a; }
	reported.insert (v.tag);
	std::string f = rdir + "/" + prop + "-" + v.tag + ".plan";
	spit (f, m.str () + "# violation: " + pct_enc (c.tag) + "\n# hash: " + fmt ("%llx", (unsigned long long) c.hash) + "\n");
	printf ("%s: %s\n  seed %llu, %zu operations (of %zu) after minimisation\n", c.tag.c_str (), c.text.c_str (), (unsigned long long) v.seed, m.ops.size (), p.ops.size ());
	printf ("VIOLATION property=%s replay=%s\n", prop.c_str (), f.c_str ());
	bad++;
    }
    double wall = now_s () - t0;
    // evidence
    uint64_t runs = tot.n["runs"];
    std::string j = "{\n  \"property\": " + json_str (prop) + ",\n  \"tier\": \"" + (g_tier ? "thorough" : "quick") + "\",\n";
    j += fmt ("  \"seed\": %llu,\n  \"level\": %s,\n", (unsigned long long) seed, json_str (opt.count ("level") ? opt["level"] : "exploration").c_str ());
    j += "  \"coverage\": {\n";
    j += fmt ("    \"evaluations\": %llu,\n    \"distinct_nontrivial\": %llu,\n", (unsigned long long) runs, (unsigned long long) std::max (tot.states.size (), tot.scheds.size ()));
    j += "    \"rule\": " + json_str (opt["rule"]) + ",\n";
    j += fmt ("    \"seeds\": %llu,\n    \"seeds_per_hour\": %.0f,\n    \"simulated_runs_per_hour\": %.0f,\n", (unsigned long long) done, done / texp * 3600, runs / texp * 3600);
    j += fmt ("    \"simulated_seconds\": %.1f,\n    \"system_calls_scheduled\": %llu,\n", tot.n["simulated_us"] / 1e6, (unsigned long long) tot.n["steps"]);
    j += fmt ("    \"distinct_states\": %zu,\n    \"distinct_interleavings\": %zu,\n    \"context_switches\": %llu,\n", tot.states.size (), tot.scheds.size (), (unsigned long long) tot.n["switches"]);
    auto group = [&](const char *name, const char *pre) {
	std::string r;
	for (auto &k : tot.n)
	    if (k.first.compare (0, strlen (pre), pre) == 0)
		r += (r.empty () ? "" : ", ") + json_str (k.first.substr (strlen (pre))) + fmt (": %llu", (unsigned long long) k.second);
	j += fmt ("    \"%s\": {", name) + r + "},\n";
    };
    group ("faults_injected", "fault.");
    group ("faults_by_call", "fault_at.");
    group ("errnos_injected", "errno.");
    group ("checks", "chk.");
    group ("known_finding_hits", "known.");
    j += fmt ("    \"commands_run\": %llu,\n    \"database_observations\": %llu,\n", (unsigned long long) tot.n["commands"], (unsigned long long) tot.n["observations"]);
    j += fmt ("    \"simulator_errors\": %llu,\n    \"unrepeatable\": %d,\n", (unsigned long long) crashed, unstable);
    j += "    \"real_code\": [\"all of /repo: notmuch command line and libnotmuch\", \"Xapian\", \"GMime\", \"GLib\", \"zlib\", \"talloc\"],\n";
    j += "    \"stubbed\": [\"kernel: file system, processes, signals, clock, locks, randomness\", \"hook programs and other mail programs (actors)\"],\n";
    j += "    \"samples\": [";
    for (size_t i = 0; i < samples.size (); i++) j += (i ? ", " : "") + json_str (samples[i].substr (0, 6000));
    if (samples.empty ()) j += json_str ("(no sample in the seeds run)");
    j += "]\n  },\n";
    j += "  \"assumptions\": [\"the durability model of sim/simfs.h\", \"system calls are atomic and scheduling happens at system calls\"],\n";
    j += fmt ("  \"wall_s\": %.1f,\n  \"violations\": %d\n}\n", wall, bad);
    if (! out.empty ()) spit (out, j);
    printf ("%s: %llu seeds, %llu runs, %zu states, %zu interleavings, %.1f s explored, %.1f s total, crashed %llu, unrepeatable %d, violations %d\n", prop.c_str (),
	    (unsigned long long) done, (unsigned long long) runs, tot.states.size (), tot.scheds.size (), texp, wall, (unsigned long long) crashed, unstable, bad);
    if (opt.count ("stats")) for (auto &k : tot.n) printf ("  %s %llu\n", k.first.c_str (), (unsigned long long) k.second);
    if (bad) return 1;
    if (crashed * 10 > done || ! done) return 3;
    return 0;
}

int main (int argc, char **argv)
{
    if (! getenv ("NMSIM_NOASLR")) {
	setenv ("NMSIM_NOASLR", "1", 1);
	personality (ADDR_NO_RANDOMIZE);
	execv ("/proc/self/exe", argv);
    }
    // GLib is shared by all nodes: one that dies while it reports a warning must not leave it half done
    g_log_set_default_handler ([](const gchar *, GLogLevelFlags, const gchar *, gpointer) {}, nullptr);
    setenv ("TZ", "UTC", 1);
    setenv ("LC_ALL", "C.UTF-8", 1);
    setenv ("G_SLICE", "always-malloc", 1);
    std::map<std::string, std::string> opt;
    VS pos;
    for (int i = 1; i < argc; i++) {
	std::string a = argv[i];
	if (a.compare (0, 2, "--") == 0) {
	    size_t e = a.find ('=');
	    opt[a.substr (2, e == std::string::npos ? e : e - 2)] = e == std::string::npos ? "1" : a.substr (e + 1);
	} else pos.push_back (a);
    }
    if (pos.empty ()) { fprintf (stderr, "usage: nmsim explore|replay|gen ...\n"); return 3; }
    g_tier = opt["tier"] == "thorough";
    char tmpl[] = "/tmp/nmsim.XXXXXX";
    if (! mkdtemp (tmpl)) { perror ("mkdtemp"); return 3; }
    load_slots (opt["lib"], 8, tmpl);
    rmdir (tmpl);
    // finding: property=P01 id=F1 tag=T match=TEXT[,TEXT] replay=FILE what=...
    if (opt.count ("known"))
	for (auto &l : split (slurp (opt["known"]), '\n')) {
	    if (l.compare (0, 9, "finding: ")) continue;
	    Known k;
	    for (auto &f : split (l.substr (9), ' ')) {
		if (f.compare (0, 9, "property=") == 0) k.prop = f.substr (9);
		else if (f.compare (0, 3, "id=") == 0) k.id = f.substr (3);
		else if (f.compare (0, 4, "tag=") == 0) k.tag = f.substr (4);
		else if (f.compare (0, 6, "match=") == 0) for (auto &m : split (f.substr (6), ',')) k.subs.push_back (pct_dec (m));
		else if (f.compare (0, 5, "what=") == 0) break;
	    }
	    known.push_back (k);
	}
    if (pos[0] == "explore") return explore (opt);
    if (pos[0] == "gen") {
	Rng r (strtoull (opt["seed"].c_str (), nullptr, 10));
	Plan p = workload (opt["prop"], "")->gen (r, g_tier);
	fputs (p.str ().c_str (), stdout);
	return 0;
    }
    if (pos[0] == "seed") { // one seed, verbosely, in a child
	int n = open ("/dev/null", O_WRONLY);
	(void) n;
	child (dup (1), opt["prop"], strtoull (opt["seed"].c_str (), nullptr, 10), 600);
    }
    if (pos[0] == "replay") {
	Plan p;
	std::string s = slurp (pos[1]);
	if (! p.parse (s)) { fprintf (stderr, "not a plan\n"); return 3; }
	Outcome o = run_plan (p, ! opt.count ("quiet"));
	printf ("hash %llx\n", (unsigned long long) o.hash);
	if (! o.done) { printf ("the simulator did not finish\n"); return 3; }
	if (o.tag.empty ()) { printf ("no violation\n"); return 0; }
	printf ("%s: %s\nVIOLATION property=%s replay=%s\n", o.tag.c_str (), o.text.c_str (), p.prop.c_str (), pos[1].c_str ());
	return 1;
    }
    return 3;
}
