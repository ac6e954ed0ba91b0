#include "sim.h"
#include <execinfo.h>
#include <dlfcn.h>
#include <cerrno>
#include <cstdarg>
#include <exception>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" char **environ;

namespace sim {

const char *sys_name[] = { "open", "create", "openw", "read", "write", "fsync", "close", "closew", "rename", "unlink",
			   "mkdir", "rmdir", "scan", "stat", "access", "trunc", "lock", "readlink", "fork",
			   "exec", "wait", "sleep", "link", "misc" };
const char *fault_name[] = { "none", "kill", "power", "err", "short", "sigint", "clock", "sticky", "stall" };
const char *how_name[] = { "none", "exited", "killed", "signaled", "powerloss", "hang", "deadlock" };

World *W = nullptr;
std::vector<Slot> slots;

int sys_by_name (const std::string &s)
{
    for (int i = 0; i < S_NSYS; i++) if (s == sys_name[i]) return i;
    return -1;
}

uint64_t fnv (const std::string &s, uint64_t h)
{
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return h;
}

static uint64_t splitmix (uint64_t &s)
{
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

std::string Fault::str () const
{
    char b[160];
    if (kind == F_POWER)
	snprintf (b, sizeof b, "%d:power:%d,%d,%llu", at, power.keep_pct, power.data_mode,
		  (unsigned long long) power.seed);
    else
	snprintf (b, sizeof b, "%d:%s:%lld", at, fault_name[kind], (long long) arg);
    return b;
}

bool Fault::parse (const std::string &s, Fault *f)
{
    size_t a = s.find (':'), b = s.find (':', a + 1);
    if (a == std::string::npos || b == std::string::npos) return false;
    f->at = atoi (s.c_str ());
    std::string k = s.substr (a + 1, b - a - 1);
    f->kind = F_NONE;
    for (int i = 0; i < F_NK; i++) if (k == fault_name[i]) f->kind = (FaultKind) i;
    if (f->kind == F_POWER) {
	unsigned long long sd;
	if (sscanf (s.c_str () + b + 1, "%d,%d,%llu", &f->power.keep_pct, &f->power.data_mode, &sd) != 3) return false;
	f->power.seed = sd;
    } else f->arg = atoll (s.c_str () + b + 1);
    return true;
}

std::string ProcResult::str () const
{
    char b[64];
    snprintf (b, sizeof b, "%s(%d)", how_name[how], code);
    return b;
}

OFD::~OFD ()
{
    if (kind == 0 && W && ino) {
	Inode *x = W->fs.get (ino);
	if (x && x->opens > 0) x->opens--;
    }
}

// ---------------------------------------------------------------- notmuch images

void *Slot::sym (const char *n) { return dlsym (handle, n); }

struct find_arg { const char *path; Slot *s; };
static int find_segs (struct dl_phdr_info *i, size_t, void *p)
{
    find_arg *a = (find_arg *) p;
    if (! i->dlpi_name || strcmp (i->dlpi_name, a->path)) return 0;
    char *lo = (char *) -1, *hi = nullptr;
    for (int k = 0; k < i->dlpi_phnum; k++) {
	const ElfW (Phdr) &h = i->dlpi_phdr[k];
	if (h.p_type != PT_LOAD) continue;
	char *b = (char *) i->dlpi_addr + h.p_vaddr;
	if (b < lo) lo = b;
	if (b + h.p_memsz > hi) hi = b + h.p_memsz;
	if (h.p_flags & PF_W) a->s->segs.push_back ({ b, h.p_memsz });
    }
    a->s->lo = lo;
    a->s->hi = hi;
    return 1;
}

static void copy_file (const std::string &a, const std::string &b)
{
    FILE *i = fopen (a.c_str (), "rb"), *o = fopen (b.c_str (), "wb");
    if (! i || ! o) { perror ("copy"); exit (3); }
    char buf[65536];
    size_t n;
    while ((n = fread (buf, 1, sizeof buf, i)) > 0)
	if (fwrite (buf, 1, n, o) != n) { perror ("copy"); exit (3); }
    fclose (i);
    if (fclose (o)) { perror ("copy"); exit (3); }
}

void load_slots (const std::string &libpath, int n, const std::string &tmpdir)
{
    for (int i = 0; i < n; i++) {
	std::string p = tmpdir + "/nm" + std::to_string (i) + ".so";
	copy_file (libpath, p);
	Slot s;
	s.handle = dlopen (p.c_str (), RTLD_NOW | RTLD_LOCAL);
	if (! s.handle) { fprintf (stderr, "dlopen: %s\n", dlerror ()); exit (3); }
	s.cli_main = (int (*)(int, char **)) dlsym (s.handle, "notmuch_cli_main");
	if (! s.cli_main) { fprintf (stderr, "no notmuch_cli_main\n"); exit (3); }
	find_arg a{ p.c_str (), &s };
	dl_iterate_phdr (find_segs, &a);
	if (s.segs.empty ()) { fprintf (stderr, "no writable segment found\n"); exit (3); }
	for (auto &g : s.segs) s.pristine.push_back (std::string (g.first, g.second));
	slots.push_back (s);
	unlink (p.c_str ());
    }
}

static Slot *take_slot ()
{
    for (auto &s : slots)
	if (! s.busy) {
	    s.busy = true;
	    for (size_t i = 0; i < s.segs.size (); i++)
		memcpy (s.segs[i].first, s.pristine[i].data (), s.pristine[i].size ());
	    return &s;
	}
    fprintf (stderr, "simulator: out of notmuch images\n");
    _exit (3);
}

// ---------------------------------------------------------------- fibers

static const size_t STACK = 1 << 20;
static std::vector<char *> stack_pool;
static char *alloc_stack ()
{
    if (! stack_pool.empty ()) {
	char *s = stack_pool.back ();
	stack_pool.pop_back ();
	return s;
    }
    char *s = (char *) mmap (nullptr, STACK + 4096, PROT_READ | PROT_WRITE,
			     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (s == MAP_FAILED) { perror ("mmap"); _exit (3); }
    mprotect (s, 4096, PROT_NONE);
    return s + 4096;
}

static FILE *real_in, *real_out, *real_err;
static char **real_env;

static void crash_handler (int sig, siginfo_t *si, void *)
{
    if (in_node ()) W->leave (H_SIGNALED, sig);
    char b[96];
    int n = snprintf (b, sizeof b, "simulator: signal %d at %p outside of a node\n", sig, si->si_addr);
    if (write (2, b, n)) { }
    _exit (3);
}

static void hang_handler (int, siginfo_t *, void *)
{
    static uint64_t last;
    static int same;
    if (! W || ! W->cur) { same = 0; return; }
    if (W->total_steps != last) { last = W->total_steps; same = 0; return; }
    if (++same < 5) return;
    same = 0;
    W->leave (H_HANG, 0);
}

// Xapian 1.4 ends the process when one of its destructors throws while
// an exception from a failed write is on its way: that is not for
// notmuch to prevent, and counts like being killed there.
static bool from_xapian ()
{
    void *pc[32];
    int n = backtrace (pc, 32);
    bool resumed = false;
    for (int i = 0; i < n; i++) {
	Dl_info d;
	if (! dladdr (pc[i], &d) || ! d.dli_fname) return false;
	if (d.dli_sname && ! strcmp (d.dli_sname, "__cxa_throw")) return false;
	if (strstr (d.dli_fname, "libgcc_s") || strstr (d.dli_fname, "libstdc++")) { resumed = strstr (d.dli_fname, "libgcc_s") && d.dli_sname && ! strcmp (d.dli_sname, "_Unwind_Resume"); continue; }
	if (strstr (d.dli_fname, "libxapian")) return resumed;
	if (i > 2) return false;
    }
    return false;
}

static void terminate_handler ()
{
    if (in_node () && from_xapian ()) W->leave (H_KILLED, SIGABRT);
    // libstdc++'s own handler keeps static state, which would outlive the simulated process
    try { throw; }
    catch (const std::exception &e) { fprintf (stderr, "terminate called after throwing an exception: %s\n", e.what ()); }
    catch (...) {
	std::type_info *t = abi::__cxa_current_exception_type ();
	fprintf (stderr, "terminate called after throwing an exception: %s\n", t ? t->name () : "?");
    }
    if (in_node ()) W->leave (H_SIGNALED, SIGABRT);
    abort ();
}

static void install_crash_handlers ()
{
    static bool done;
    if (done) return;
    done = true;
    std::set_terminate (terminate_handler);
    void *pc[2];
    backtrace (pc, 2); // loads what it needs
    stack_t ss;
    memset (&ss, 0, sizeof ss);
    ss.ss_size = 65536;
    ss.ss_sp = mmap (nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sigaltstack (&ss, nullptr);
    struct sigaction sa;
    memset (&sa, 0, sizeof sa);
    sa.sa_sigaction = crash_handler;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    int (*real_sigaction) (int, const struct sigaction *, struct sigaction *) =
	(int (*)(int, const struct sigaction *, struct sigaction *)) dlsym (RTLD_NEXT, "sigaction");
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL }) real_sigaction (s, &sa, nullptr);
    // a node that computes for 10 s without a system call hangs
    sa.sa_sigaction = hang_handler;
    sa.sa_flags |= SA_RESTART;
    real_sigaction (SIGVTALRM, &sa, nullptr);
    struct itimerval it = { { 2, 0 }, { 2, 0 } };
    int (*real_setitimer) (int, const struct itimerval *, struct itimerval *) =
	(int (*)(int, const struct itimerval *, struct itimerval *)) dlsym (RTLD_NEXT, "setitimer");
    real_setitimer (ITIMER_VIRTUAL, &it, nullptr);
}

World::World ()
{
    reset ();
}

void World::reset ()
{
    fs.reset ();
    clock = 1700000000LL * 1000000000LL;
    base_env = { { "HOME", "/sim/home" }, { "PATH", "/sim/bin" }, { "TZ", "UTC" }, { "LANG", "C.UTF-8" },
		 { "NOTMUCH_CONFIG", "/sim/home/.notmuch-config" }, { "USER", "sim" }, { "LOGNAME", "sim" } };
}

uint64_t World::rnd () { return splitmix (rng); }

static Node *entering;
extern FILE *open_cookie (Node *n, int fd, const char *mode);

static void node_main ()
{
    Node *n = entering;
    int rc;
    if (n->spec.fn) rc = n->spec.fn ();
    else {
	std::vector<char *> av;
	for (auto &a : n->spec.argv) av.push_back (strdup (a.c_str ()));
	av.push_back (nullptr);
	rc = n->slot->cli_main ((int) av.size () - 1, av.data ());
    }
    exit (rc); // interposed
}

Node *World::spawn (const ProcSpec &s, int parent, char **parent_env)
{
    auto up = std::make_unique<Node> ();
    Node *n = up.get ();
    n->idx = nodes.size ();
    n->spec = s;
    n->name = s.name;
    n->parent = parent;
    n->pid = s.pid ? s.pid : next_pid++;
    memset (n->sa, 0, sizeof n->sa);
    n->stack = alloc_stack ();
    if (! s.fn || s.lib) n->slot = take_slot ();
    std::map<std::string, std::string> env = base_env;
    for (char **e = parent_env; e && *e; e++) {
	std::string kv = *e;
	if (kv.find ('=') != std::string::npos) env[kv.substr (0, kv.find ('='))] = kv.substr (kv.find ('=') + 1);
    }
    for (auto &e : s.env) env[e.substr (0, e.find ('='))] = e.substr (e.find ('=') + 1);
    n->env = (char **) calloc (env.size () + 1, sizeof (char *));
    int i = 0;
    for (auto &e : env) n->env[i++] = strdup ((e.first + "=" + e.second).c_str ());
    auto mk = [&](int kind) {
	auto o = std::make_shared<OFD> ();
	o->kind = kind;
	o->flags = kind == 1 ? O_RDONLY : O_WRONLY;
	return o;
    };
    n->fds.resize (3);
    n->fds[0] = mk (1);
    n->fds[0]->input = s.input;
    n->fds[0]->chunks = s.chunks;
    n->fds[1] = mk (2);
    n->fds[1]->sink = &n->res.out;
    n->fds[2] = mk (2);
    n->fds[2]->sink = &n->res.err;
    n->f_in = open_cookie (n, 0, "r");
    n->f_out = open_cookie (n, 1, "w");
    n->f_err = open_cookie (n, 2, "w");
    setvbuf (n->f_err, nullptr, _IONBF, 0);
    getcontext (&n->ctx);
    n->ctx.uc_stack.ss_sp = n->stack;
    n->ctx.uc_stack.ss_size = STACK;
    n->ctx.uc_link = nullptr;
    makecontext (&n->ctx, node_main, 0);
    n->res.start_step = gstep;
    nodes.push_back (std::move (up));
    return n;
}

static void enter (Node *n)
{
    W->cur = n;
    if (! n->started) { n->started = true; n->res.start_step = W->gstep; }
    real_in = stdin; real_out = stdout; real_err = stderr; real_env = environ;
    stdin = n->f_in; stdout = n->f_out; stderr = n->f_err; environ = n->env;
    char *g = (char *) __cxxabiv1::__cxa_get_globals ();
    char save[16];
    memcpy (save, g, 16);
    memcpy (g, n->eh, 16);
    entering = n;
    int e = errno;
    errno = n->saved_errno;
    ucontext_t *to = n->entry ? n->entry : &n->ctx;
    n->entry = nullptr;
    swapcontext (&W->main_ctx, to);
    n->saved_errno = errno;
    errno = e;
    memcpy (n->eh, g, 16);
    memcpy (g, save, 16);
    n->env = environ;
    stdin = real_in; stdout = real_out; stderr = real_err; environ = real_env;
    W->cur = nullptr;
}

static Node *next_node;

void World::yield_to (Node *t)
{
    Node *n = cur;
    next_node = t;
    total_switches++;
    swapcontext (&n->ctx, &main_ctx);
}

void World::park (Node::St st)
{
    Node *n = cur;
    n->st = st;
    next_node = nullptr;
    swapcontext (&n->ctx, &main_ctx);
}

void World::leave (How how, int code)
{
    Node *n = cur;
    n->res.how = how;
    n->res.code = code;
    n->st = Node::DONE;
    next_node = nullptr;
    setcontext (&main_ctx);
    abort ();
}

void World::close_all (Node *n)
{
    for (auto &o : n->fds) o.reset ();
    n->fds.clear ();
}

void World::finish (Node *n)
{
    n->res.end_step = gstep;
    close_all (n);
    if (n->slot) { n->slot->busy = false; n->slot = nullptr; }
    if (n->stack) { stack_pool.push_back (n->stack); n->stack = nullptr; }
    if (n->parent >= 0) {
	Node *p = nodes[n->parent].get ();
	int stt = n->res.how == H_EXITED ? (n->res.code & 255) << 8 : n->res.how == H_SIGNALED ? n->res.code : 9;
	p->zombies[n->pid] = stt;
    }
    mixhash (n->idx * 1000003ULL + n->res.how * 131 + n->res.code);
}

void World::kill_node (Node *n)
{
    if (n->st == Node::DONE) return;
    n->res.how = H_KILLED;
    n->res.code = 9;
    n->st = Node::DONE;
    finish (n);
}

int World::lock_try (OFD *o)
{
    for (auto &n : nodes)
	for (auto &f : n->fds)
	    if (f && f.get () != o && f->locked && f->ino == o->ino) return EAGAIN;
    return 0;
}

std::vector<Node *> World::live ()
{
    std::vector<Node *> v;
    for (auto &p : nodes) {
	Node *n = p.get ();
	bool ok = false;
	switch (n->st) {
	case Node::RUN: ok = true; break;
	case Node::LOCKW: ok = lock_try (n->lockofd) == 0; break;
	case Node::CHILDW: ok = n->waitpid > 0 ? n->zombies.count (n->waitpid) : ! n->zombies.empty (); break;
	case Node::SLEEPW: ok = n->wake <= clock; break;
	case Node::DONE: break;
	}
	if (ok) v.push_back (n);
    }
    return v;
}

static uint64_t dkey_step, dkey_k;
static uint64_t decision_key ()
{
    if (dkey_step != W->gstep) { dkey_step = W->gstep; dkey_k = 0; }
    return W->gstep * 16 + dkey_k++;
}

// half of the schedules have nodes of unequal speed
static uint64_t weight (int idx)
{
    uint64_t s = W->sched.seed * 0x9e3779b97f4a7c15ULL;
    if (splitmix (s) % 2) return 1;
    s += idx * 77777;
    static const int w[] = { 1, 1, 5, 30 };
    return w[splitmix (s) % 4];
}

Node *World::pick (bool forced)
{
    std::vector<Node *> v = live ();
    if (v.empty ()) return nullptr;
    if (v.size () == 1 && (forced || v[0] == cur)) return v[0];
    uint64_t key = decision_key ();
    Node *def = forced ? v[0] : cur;
    if (sched.explicit_) {
	auto it = sched.sw.find (key);
	if (it == sched.sw.end ()) return def;
	for (auto n : v) if (n->idx == it->second) return n;
	return def;
    }
    if (! forced)
	for (auto n : v)
	    if (n->st == Node::SLEEPW && n != cur && splitmix (schedrng) % 2) { switches[key] = n->idx; return n; } // it wakes up right now
    if (! forced && (int) (splitmix (schedrng) % 100) >= sched.pct) return cur;
    uint64_t sum = 0;
    for (auto q : v) sum += weight (q->idx);
    uint64_t at = splitmix (schedrng) % sum;
    Node *n = v[0];
    for (auto q : v) { if (at < weight (q->idx)) { n = q; break; } at -= weight (q->idx); }
    if (n != def) switches[key] = n->idx;
    return n;
}

void World::deliver_signals ()
{
    Node *n = cur;
    if (n->timer_at && clock >= n->timer_at) {
	n->sigpend |= 1ULL << SIGALRM;
	n->timer_at = n->timer_iv ? clock + n->timer_iv : 0;
    }
    while (n->sigpend) {
	int s = __builtin_ctzll (n->sigpend);
	n->sigpend &= ~(1ULL << s);
	struct sigaction &a = n->sa[s];
	if (a.sa_handler == SIG_IGN) continue;
	if (a.sa_handler == SIG_DFL) {
	    if (s == SIGCHLD || s == SIGWINCH || s == SIGCONT) continue;
	    leave (H_SIGNALED, s);
	}
	int e = errno;
	if (a.sa_flags & SA_SIGINFO) {
	    siginfo_t si;
	    memset (&si, 0, sizeof si);
	    a.sa_sigaction (s, &si, nullptr);
	} else a.sa_handler (s);
	errno = e;
    }
}

static bool writey (Sys k)
{
    return k == S_WRITE || k == S_CREATE || k == S_MKDIR || k == S_RENAME || k == S_LINK || k == S_FSYNC || k == S_TRUNC;
}

int natural_errno (Sys k, uint64_t n)
{
    auto of = [&](std::initializer_list<int> l) { return *(l.begin () + n % l.size ()); };
    switch (k) {
    case S_OPEN: return of ({ EIO, EMFILE, EACCES, ENOMEM, ENFILE });
    case S_CREATE: return of ({ ENOSPC, EACCES, EMFILE, EDQUOT, EROFS, EIO });
    case S_OPENW: return of ({ EACCES, EMFILE, EIO, EROFS });
    case S_READ: return EIO;
    case S_WRITE: return of ({ ENOSPC, EIO, EDQUOT });
    case S_FSYNC: return of ({ EIO, ENOSPC });
    case S_CLOSEW: return of ({ EIO, ENOSPC });
    case S_RENAME: return of ({ EIO, ENOSPC, EACCES });
    case S_UNLINK: return of ({ EIO, EACCES });
    case S_MKDIR: return of ({ ENOSPC, EACCES });
    case S_RMDIR: return EIO;
    case S_SCAN: return of ({ EIO, EACCES, EMFILE });
    case S_STAT: return of ({ EIO, EACCES });
    case S_ACCESS: return EACCES;
    case S_TRUNC: return EIO;
    case S_LOCK: return of ({ ENOLCK, EIO });
    case S_FORK: return of ({ EAGAIN, ENOMEM });
    case S_EXEC: return of ({ EACCES, ENOEXEC, ENOMEM });
    case S_LINK: return EIO;
    default: return 0;
    }
}

static const bool trace = getenv ("NM_TRACE") != nullptr;

void World::step (Sys k, const std::string &path, uint32_t len, int *err, int64_t *shortn)
{
    *err = 0;
    Node *n = cur;
    if (n->quiet) return;
    gstep++;
    total_steps++;
    n->res.steps++;
    clock += tick;
    clock_total += tick;
    if (n->res.steps > max_steps) leave (H_HANG, 0);
    if (trace) fprintf (real_out, trace_off < 0 ? "      [%d:%d] %s %s %u\n" : "      [%d:%d] %s %s %u at %lld\n", n->idx, n->res.steps, sys_name[k], path.c_str (), len, (long long) trace_off);
    trace_off = -1;
    if (on_step) on_step (n, k, path);
    for (size_t i = 0; nodes.size () > 1 && i < nodes.size (); i++) {
	Node *t = nodes[i].get ();
	if (t == n || t->st != Node::SLEEPW || t->awsys != k || ! (t->awpath[0] == '*' ? path.find (t->awpath.c_str () + 1) != std::string::npos : path == t->awpath)) continue;
	if (t->awskip-- > 0) continue;
	t->awsys = -1;
	if (t->awedge) { int64_t d = 1000000000LL - clock % 1000000000LL; clock += d; clock_total += d; }
	t->wake = clock;
	n->st = Node::RUN;
	yield_to (t);
    }
    // preemption
    if (nodes.size () > 1) {
	Node *t = pick (false);
	if (t && t != n) { n->st = Node::RUN; yield_to (t); }
    }
    if (n->spec.record) n->res.trace.push_back (StepRec{ k, path, len });
    mixhash (n->idx);
    mixhash (k + 64 * (uint64_t) len);
    deliver_signals ();
    for (auto &f : n->spec.faults) {
	if (f.at != n->res.steps) continue;
	bool eff = true;
	switch (f.kind) {
	case F_KILL:
	    fault_count[f.kind]++; fault_sys[k]++; n->res.fired++;
	    if (n->in_child) { // only the forked child dies
		int pid = next_pid++;
		n->zombies[pid] = 9;
		n->fork_ret = pid;
		n->resume_fork = true;
		setcontext (&main_ctx);
	    }
	    leave (H_KILLED, 9);
	case F_POWER:
	    fault_count[f.kind]++; fault_sys[k]++; n->res.fired++;
	    powerlost = true;
	    power = f.power;
	    leave (H_POWER, 0);
	case F_ERR:
	    *err = f.arg ? (int) f.arg : natural_errno (k, f.at);
	    // Xapian overwrites live blocks after a failed read during an update (see DESIGN.md)
	    if (k == S_READ && ! db_read_errors && path.find ("/.notmuch/xapian") != std::string::npos) *err = 0;
	    if (! *err) { eff = false; break; }
	    errno_count[*err]++;
	    if (k == S_READ && path[0] == '/') n->badread[path] = *err; // a bad sector stays bad
	    break;
	case F_SHORT: if (shortn && *shortn > f.arg && f.arg > 0) *shortn = f.arg; else eff = false; break;
	case F_SIGINT: n->sigpend |= 1ULL << (f.arg ? f.arg : SIGINT); deliver_signals (); break;
	case F_CLOCK: clock += f.arg; break;
	case F_STALL: // the process does not get on for so many steps of others
	    fault_count[f.kind]++; fault_sys[k]++; n->res.fired++;
	    n->wake = clock + f.arg * tick;
	    park (Node::SLEEPW);
	    eff = false;
	    break;
	case F_STICKY: n->sticky = (int) f.arg; errno_count[n->sticky]++; break;
	default: eff = false;
	}
	if (eff) { fault_count[f.kind]++; fault_sys[k]++; n->res.fired++; }
    }
    if (k == S_READ && ! *err && ! n->badread.empty ()) {
	auto b = n->badread.find (path);
	if (b != n->badread.end ()) *err = b->second;
    }
    if (n->sticky && ! *err && writey (k)) *err = n->sticky;
    if (*err) mixhash (7777 + *err);
    if (trace && *err) fprintf (real_out, "      ^ errno %d\n", *err);
}

std::vector<ProcResult> World::run (std::vector<ProcSpec> specs, const SchedSpec &ss)
{
    install_crash_handlers ();
    W = this;
    sched = ss;
    schedrng = ss.seed * 0x9e3779b97f4a7c15ULL + 1;
    switches.clear ();
    powerlost = false;
    gstep = 0;
    nodes.clear ();
    size_t n0 = specs.size ();
    for (auto &s : specs) {
	Node *n = spawn (s, -1);
	if (s.await_sys >= 0) {
	    n->st = Node::SLEEPW;
	    n->wake = INT64_MAX;
	    n->awsys = s.await_sys;
	    n->awpath = s.await_path;
	    n->awskip = s.await_skip;
	} else if (s.start_delay) { n->st = Node::SLEEPW; n->wake = clock + (int64_t) s.start_delay * tick; }
    }
    next_node = nullptr;
    bool deadlock = false;
    while (true) {
	Node *n = next_node;
	next_node = nullptr;
	if (! n || n->st == Node::DONE) {
	    n = pick (true);
	    if (! n) {
		// nothing runnable: advance the clock to the next wake-up, or we are done / stuck
		int64_t best = 0;
		bool alive = false;
		for (auto &p : nodes) {
		    if (p->st == Node::DONE) continue;
		    alive = true;
		    if (p->st == Node::SLEEPW && p->awsys >= 0) p->wake = clock + 1; // it never came
		    if (p->st == Node::SLEEPW && (! best || p->wake < best)) best = p->wake;
		}
		if (! alive) break;
		if (! best) { deadlock = true; break; }
		clock_total += best - clock;
		clock = best;
		continue;
	    }
	}
	n->st = Node::RUN;
	enter (n);
	if (n->resume_fork) { // the forked "child" is gone: return from fork() again as the parent
	    n->resume_fork = false;
	    n->in_child = false;
	    n->fds = n->fork_fds;
	    n->fork_fds.clear ();
	    memcpy (n->stack_lo, n->stackcopy.data (), n->stackcopy.size ());
	    n->entry = &n->forkctx;
	    n->st = Node::RUN;
	    next_node = n;
	}
	if (n->st == Node::DONE) finish (n);
	if (powerlost) break;
    }
    std::vector<ProcResult> res;
    for (auto &p : nodes)
	if (p->st != Node::DONE) {
	    kill_node (p.get ());
	    if (powerlost) p->res.how = H_POWER;
	    else if (deadlock) p->res.how = H_DEADLOCK;
	}
    if (powerlost) fs.power_loss (power);
    for (size_t i = 0; i < nodes.size (); i++) {
	Node *n = nodes[i].get ();
	if (i < n0) res.push_back (n->res);
	// free what is safe to free
	n->files.clear ();
    }
    nodes.clear ();
    if (! powerlost) fs.gc ();
    return res;
}

ProcResult World::run1 (const ProcSpec &s)
{
    SchedSpec ss;
    return run ({ s }, ss)[0];
}

void World::quiet (const std::function<void(Slot *)> &f)
{
    install_crash_handlers ();
    W = this;
    nodes.clear ();
    ProcSpec s;
    s.name = "observer";
    s.lib = true;
    Node *n = nullptr;
    s.fn = [&]() { f (n->slot); return 0; };
    n = spawn (s, -1);
    n->quiet = true;
    next_node = nullptr;
    uint64_t h = hash;
    while (n->st != Node::DONE) { n->st = Node::RUN; enter (n); }
    ProcResult r = n->res;
    finish (n);
    hash = h;
    nodes.clear ();
    if (r.how != H_EXITED) {
	escapes.push_back ("observer died: " + r.str () + " " + r.err);
    }
}

int World::newfd (OFDp o)
{
    Node *n = cur;
    for (size_t i = 0; i < n->fds.size (); i++)
	if (! n->fds[i]) { n->fds[i] = o; return i; }
    n->fds.push_back (o);
    return n->fds.size () - 1;
}

}
