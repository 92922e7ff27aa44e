#pragma once
/*
	Controlled execution of operations on real threads.

	footprint(): runs one operation on a thread of its own while every writable
	mapping of the process that is not private to that thread is read-only; each
	store to shared memory faults, is recorded and single-stepped.

	schedule(): runs two operations on two threads of which exactly one runs at
	a time.  Pages holding shared locations are inaccessible, so every access to
	them stops the thread at a scheduling point; a schedule says before which
	accesses the other thread takes over.

	dense(): runs one operation under the trap flag; between every two of its
	instructions a second thread executes a complete operation.
*/
#include "mc.h"
#include <pthread.h>
#include <ucontext.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <sys/time.h>
#include <dlfcn.h>
#include <malloc.h>
#include <algorithm>
#include <set>

extern "C" void *__libc_malloc(size_t); extern "C" void __libc_free(void*); extern "C" void *__libc_realloc(void*, size_t);
extern "C" void *__libc_calloc(size_t, size_t); extern "C" void *__libc_memalign(size_t, size_t);

namespace sch {
enum { NT = 3, TSIZE = 12 << 20, STACK = 2 << 20, ALT = 1 << 17, OUTMAX = 8192, MAXMAP = 512, MAXLOG = 2048, MAXHOT = 4096 };
enum { OFF, FOOT, SCHED, COUNT, DENSE };

struct Out { size_t n; unsigned char b[OUTMAX]; void put(const void *p, size_t k) { if (n + k > OUTMAX) abort(); memcpy(b + n, p, k); n += k; } };
struct Map { uintptr_t lo, hi; int prot; };
struct Acc { uintptr_t addr, rip; bool write; };
struct PerT { uintptr_t pend[16]; int np; volatile int inop, done; volatile long cnt; Out out; };
struct Ctl {
	volatile int mode, turn, go, finished, first, phase;
	volatile long k, j;
	volatile uint64_t ticks;
	volatile int dgo, ddone; volatile long instr; volatile int dbad; long dstop;
	PerT t[NT];
	Map map[MAXMAP]; int nmap;
	uintptr_t hotPage[MAXHOT]; int nhotPage;
	uintptr_t hot[MAXHOT]; int nhot; // 32 byte granules
	Acc log[MAXLOG]; int nlog; volatile int logAll;
	volatile int forced, hung; int hotProt; long limit[2];
};
static Ctl *ctl;
static char *gLo, *gHi; // thread regions
static __thread char *tCur, *tEnd;
static __thread int tId = -1;

inline char *region(int i) { return gLo + (size_t)i * TSIZE; }
static __thread void *tFree[64]; static __thread char *tLo; // blocks given back, by size; start of the thread's own region
inline void *bump(size_t n, size_t al = 16)
{
	int cl = 64 - __builtin_clzll(n < 32 ? 31 : n - 1); n = (size_t)1 << cl;
	if (al <= 16 && tFree[cl]) { void *q = tFree[cl]; tFree[cl] = *(void**)q; return q; }
	uintptr_t p = ((uintptr_t)tCur + 16 + al - 1) & ~(uintptr_t)(al - 1);
	if (p + n > (uintptr_t)tEnd) abort();
	((size_t*)p)[-1] = n;
	tCur = (char*)p + n;
	return (void*)p;
}
inline bool inArena(const void *p) { return gLo && p >= (void*)gLo && p < (void*)gHi; }
inline void giveBack(void *p) { if (!tCur || (char*)p < tLo || (char*)p >= tEnd) return; size_t n = ((size_t*)p)[-1]; int cl = 63 - __builtin_clzll(n); *(void**)p = tFree[cl]; tFree[cl] = p; }
inline void arenaOn(int i) { tLo = tCur = region(i) + ALT + STACK; tEnd = region(i) + TSIZE; memset(tFree, 0, sizeof(tFree)); }
inline void arenaOff() { tCur = 0; }

inline long futex(volatile int *p, int op, int v, const timespec *t) { return syscall(SYS_futex, p, op, v, t, 0, 0); }
inline void waitFor(volatile int *p, int v, int spins) // until *p == v
{
	for (;;) {
		int c = *p;
		if (c == v) return;
		if (spins > 0) { spins--; __builtin_ia32_pause(); continue; }
		timespec t = { 0, 5000000 };
		futex(p, FUTEX_WAIT, c, &t);
	}
}
inline void setWake(volatile int *p, int v) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); futex(p, FUTEX_WAKE, 100, 0); }

inline const Map *findMap(uintptr_t a)
{
	for (int i = 0; i < ctl->nmap; i++) if (ctl->map[i].lo <= a && a < ctl->map[i].hi) return &ctl->map[i];
	return 0;
}
inline bool isHotPage(uintptr_t pg) { for (int i = 0; i < ctl->nhotPage; i++) if (ctl->hotPage[i] == pg) return true; return false; }
inline bool isHot(uintptr_t a) { for (int i = 0; i < ctl->nhot; i++) if (ctl->hot[i] == (a >> 5) || ctl->hot[i] == ((a + 31) >> 5)) return true; return false; }

inline void gate(int id) // called before an access of thread id to a hot location
{
	PerT& t = ctl->t[id];
	waitFor(&ctl->turn, id, 0);
	int other = 1 - id;
	if (!ctl->t[other].done) {
		if (ctl->phase == 0 && id == ctl->first && t.cnt == ctl->k) { ctl->phase = 1; setWake(&ctl->turn, other); waitFor(&ctl->turn, id, 0); }
		else if (ctl->phase == 1 && id != ctl->first && t.cnt == ctl->j) { ctl->phase = 2; setWake(&ctl->turn, other); waitFor(&ctl->turn, id, 0); }
		else if (ctl->limit[id] && t.cnt > ctl->limit[id] && t.cnt % 200 == 0) { ctl->forced = ctl->forced + 1; setWake(&ctl->turn, other); waitFor(&ctl->turn, id, 0); } // spinning
	}
	t.cnt = t.cnt + 1;
	ctl->ticks = ctl->ticks + 1;
}
inline int protOf(uintptr_t pg, int orig) { if (ctl->mode == FOOT) return orig & ~PROT_WRITE; return isHotPage(pg) ? orig & ctl->hotProt : orig; }

inline void onSegv(int sig, siginfo_t *si, void *u)
{
	greg_t *g = ((ucontext_t*)u)->uc_mcontext.gregs;
	uintptr_t a = (uintptr_t)si->si_addr; bool wr = (g[REG_ERR] & 2) != 0;
	const Map *m = ctl ? findMap(a) : 0;
	int id = tId < 0 ? 2 : tId;
	if (!m || ctl->mode == OFF) { signal(sig, SIG_DFL); return; }
	PerT& t = ctl->t[id];
	if (t.np >= 15) { signal(sig, SIG_DFL); return; }
	if (t.inop) {
		if (ctl->mode == SCHED && isHot(a)) gate(id);
		if (ctl->nlog < MAXLOG && (wr || ctl->logAll)) {
			uintptr_t rip = g[REG_RIP];
			int i = ctl->nlog < 64 ? 0 : ctl->nlog - 64;
			for (; i < ctl->nlog; i++) if (ctl->log[i].addr == a && ctl->log[i].rip == rip && ctl->log[i].write == wr) break;
			if (i == ctl->nlog) { Acc c = { a, rip, wr }; ctl->log[ctl->nlog++] = c; }
		}
	}
	uintptr_t pg = a & ~(uintptr_t)4095;
	mprotect((void*)pg, 4096, m->prot);
	t.pend[t.np++] = pg;
	g[REG_EFL] |= 0x100;
}
inline void onTrap(int, siginfo_t *, void *u)
{
	greg_t *g = ((ucontext_t*)u)->uc_mcontext.gregs;
	int id = tId < 0 ? 2 : tId;
	PerT& t = ctl->t[id];
	if (ctl->mode == COUNT || ctl->mode == DENSE) {
		if (!t.inop) { g[REG_EFL] &= ~(greg_t)0x100; return; }
		ctl->instr = ctl->instr + 1;
		if (ctl->mode == DENSE) { int v = ctl->dgo + 1; setWake(&ctl->dgo, v); waitFor(&ctl->ddone, v, 2000); }
		else if (ctl->instr > ctl->dstop) { t.inop = 0; g[REG_EFL] &= ~(greg_t)0x100; }
		return;
	}
	for (int i = 0; i < t.np; i++) { const Map *m = findMap(t.pend[i]); if (m) mprotect((void*)t.pend[i], 4096, protOf(t.pend[i], m->prot)); }
	t.np = 0;
	g[REG_EFL] &= ~(greg_t)0x100;
}
inline void altStack(int i) { stack_t s; memset(&s, 0, sizeof(s)); s.ss_sp = region(i); s.ss_size = ALT; sigaltstack(&s, 0); }

inline void setup() // once, before any fork
{
	ctl = (Ctl*)mmap(0, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	gLo = (char*)mmap(0, (size_t)NT * TSIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (ctl == MAP_FAILED || gLo == MAP_FAILED) { perror("mmap"); exit(3); }
	gHi = gLo + (size_t)NT * TSIZE;
}
inline void handlers()
{
	struct sigaction sa; memset(&sa, 0, sizeof(sa));
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sa.sa_sigaction = onSegv; sigaction(SIGSEGV, &sa, 0);
	sa.sa_sigaction = onTrap; sigaction(SIGTRAP, &sa, 0);
	altStack(2);
}
inline bool priv(uintptr_t lo, uintptr_t hi, int self) // mapping not monitored
{
	if (lo < (uintptr_t)(ctl + 1) && hi > (uintptr_t)ctl) return true;
	if (lo < (uintptr_t)region(2) + ALT && hi > (uintptr_t)region(2)) return true; // signal stack of the main thread
	if (self >= 0 && lo < (uintptr_t)region(self) + TSIZE && hi > (uintptr_t)region(self)) return true;
	return false;
}
/*
	the writable mappings.  The kernel may merge our regions with neighbours, so
	intervals are cut at their borders.
*/
inline void readMaps(int self)
{
	FILE *f = fopen("/proc/self/maps", "r"); char l[512];
	static Map all[MAXMAP]; int n = 0;
	while (fgets(l, sizeof(l), f)) {
		unsigned long lo, hi; char p[8]; if (sscanf(l, "%lx-%lx %7s", &lo, &hi, p) != 3 || p[1] != 'w') continue;
		if (strstr(l, "[vsyscall]") || n >= MAXMAP) continue;
		Map m = { lo, hi, PROT_WRITE | (p[0] == 'r' ? PROT_READ : 0) | (p[2] == 'x' ? PROT_EXEC : 0) };
		all[n++] = m;
	}
	fclose(f);
	std::vector<uintptr_t> cuts;
	cuts.push_back((uintptr_t)ctl); cuts.push_back(((uintptr_t)(ctl + 1) + 4095) & ~(uintptr_t)4095);
	cuts.push_back((uintptr_t)region(2) + ALT);
	for (int i = 0; i <= NT; i++) cuts.push_back((uintptr_t)gLo + (size_t)i * TSIZE);
	ctl->nmap = 0;
	for (int i = 0; i < n; i++) {
		std::vector<uintptr_t> c(1, all[i].lo);
		std::vector<uintptr_t> s(cuts); std::sort(s.begin(), s.end());
		for (size_t k = 0; k < s.size(); k++) if (s[k] > all[i].lo && s[k] < all[i].hi) c.push_back(s[k]);
		c.push_back(all[i].hi);
		for (size_t k = 0; k + 1 < c.size(); k++) if (!priv(c[k], c[k + 1], self) && ctl->nmap < MAXMAP) { Map m = { c[k], c[k + 1], all[i].prot }; ctl->map[ctl->nmap++] = m; }
	}
}

typedef std::function<void(int, Out&)> Run;
struct Task { const Run *run; int var; };
static Task task[2];

inline bool sleeping() // is the main thread blocked
{
	char b[512]; snprintf(b, sizeof(b), "/proc/self/task/%d/stat", (int)getpid());
	int fd = open(b, O_RDONLY); if (fd < 0) return false;
	ssize_t n = read(fd, b, sizeof(b) - 1); close(fd); if (n <= 0) return false;
	b[n] = 0; char *p = strrchr(b, ')'); return p && p[1] == ' ' && p[2] == 'S';
}
inline void *footThread(void*)
{
	tId = 0; altStack(0); arenaOn(0);
	Ctl *c = ctl; Out& o = c->t[0].out; o.n = 0;
	const Run *r = task[0].run; int v = task[0].var;
	waitFor(&c->go, 1, 0);
	for (int i = 0; i < 2000 && !sleeping(); i++) usleep(i < 50 ? 20 : 1000); // the main thread is in pthread_join
	c->mode = FOOT;
	for (int i = 0; i < c->nmap; i++) mprotect((void*)c->map[i].lo, c->map[i].hi - c->map[i].lo, c->map[i].prot & ~PROT_WRITE);
	c->t[0].inop = 1;
	(*r)(v, o);
	c->t[0].inop = 0;
	for (int i = 0; i < c->nmap; i++) mprotect((void*)c->map[i].lo, c->map[i].hi - c->map[i].lo, c->map[i].prot);
	c->mode = OFF;
	arenaOff();
	c->t[0].done = 1;
	return 0;
}
inline void *schedThread(void *p)
{
	int id = (int)(intptr_t)p;
	tId = id; altStack(id); arenaOn(id);
	Ctl *c = ctl; Out& o = c->t[id].out; o.n = 0;
	const Run *r = task[id].run; int v = task[id].var;
	__atomic_add_fetch(&c->finished, 1, __ATOMIC_SEQ_CST); // ready
	waitFor(&c->go, 1, 0);
	waitFor(&c->turn, id, 0);
	c->t[id].inop = 1;
	(*r)(v, o);
	c->t[id].inop = 0;
	c->t[id].done = 1;
	c->ticks = c->ticks + 1;
	setWake(&c->turn, 1 - id);
	__atomic_add_fetch(&c->finished, 1, __ATOMIC_SEQ_CST);
	futex(&c->finished, FUTEX_WAKE, 100, 0);
	for (;;) pause();
	return 0;
}
inline void *denseA(void*)
{
	tId = 0; altStack(0); arenaOn(0);
	Ctl *c = ctl; Out& o = c->t[0].out; o.n = 0;
	const Run *r = task[0].run; int v = task[0].var;
	if (c->mode == DENSE) waitFor(&c->go, 1, 0);
	c->t[0].inop = 1;
	asm volatile("pushfq\norq $0x100,(%%rsp)\npopfq" ::: "memory", "cc");
	(*r)(v, o);
	c->t[0].inop = 0;
	asm volatile("pushfq\nandq $~0x100,(%%rsp)\npopfq" ::: "memory", "cc");
	c->t[0].done = 1;
	if (c->mode == DENSE) setWake(&c->dgo, -1);
	arenaOff();
	return 0;
}
inline void *denseB(void *)
{
	tId = 1; altStack(1);
	Ctl *c = ctl; Out& o = c->t[1].out;
	const Run *r = task[1].run; int v = task[1].var;
	arenaOn(1); o.n = 0; (*r)(v, o);
	static Out ref; ref = o;
	setWake(&c->go, 1);
	int last = 0;
	for (;;) {
		int spins = 2000, d;
		while ((d = c->dgo) == last) { if (spins-- > 0) { __builtin_ia32_pause(); continue; } timespec t = { 0, 5000000 }; futex(&c->dgo, FUTEX_WAIT, last, &t); }
		if (d == -1) break;
		arenaOn(1); o.n = 0; (*r)(v, o);
		if (o.n != ref.n || memcmp(o.b, ref.b, o.n)) { if (!c->dbad) c->dbad = d; }
		last = d;
		c->ticks = c->ticks + 1;
		setWake(&c->ddone, d);
	}
	arenaOff();
	return 0;
}
inline pthread_t spawn(int id, void *(*fn)(void*))
{
	pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, region(id) + ALT, STACK);
	pthread_t th; if (pthread_create(&th, &at, fn, (void*)(intptr_t)id)) { perror("pthread_create"); _exit(5); }
	return th;
}
inline void reset()
{
	Ctl *c = ctl;
	c->mode = OFF; c->turn = 0; c->go = 0; c->finished = 0; c->first = 0; c->phase = 0; c->k = c->j = -1; c->nlog = 0; c->logAll = 0; c->forced = 0; c->hung = 0;
	c->dgo = c->ddone = c->dbad = 0; c->instr = 0; c->dstop = 1L << 60;
	for (int i = 0; i < NT; i++) { PerT& t = c->t[i]; t.np = 0; t.inop = t.done = 0; t.cnt = 0; t.out.n = 0; }
}
inline std::string inChild(const std::function<void()>& fn, int sec = 60) // "" if the child ended normally
{
	fflush(stdout); fflush(mc::ctx().out);
	pid_t pid = fork();
	if (pid == 0) { alarm(sec); handlers(); fn(); _exit(42); }
	int st = 0; while (waitpid(pid, &st, 0) != pid) {}
	if (WIFEXITED(st) && WEXITSTATUS(st) == 42) return "";
	std::ostringstream os;
	if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGALRM) os << "does not end"; else os << "killed by signal " << WTERMSIG(st); } else os << "exited with code " << WEXITSTATUS(st);
	return os.str();
}

struct Foot { std::string err; std::vector<Acc> w; Out out; };
// prep runs in the child before the threads exist
inline void footprint(Foot& f, const std::function<void()>& prep, const Run& r, int v, bool warm, int warmVar)
{
	reset(); ctl->nhot = ctl->nhotPage = 0;
	f.err = inChild([&]() {
		if (prep) prep();
		if (warm) { arenaOn(2); static Out d; d.n = 0; r(warmVar, d); arenaOff(); }
		task[0].run = &r; task[0].var = v;
		readMaps(0);
		pthread_t th = spawn(0, footThread);
		setWake(&ctl->go, 1);
		pthread_join(th, 0);
	});
	if (f.err.empty() && !ctl->t[0].done) f.err = "thread did not finish";
	f.w.assign(ctl->log, ctl->log + ctl->nlog);
	f.out = ctl->t[0].out;
}
struct SOut { std::string err; Out out[2]; long cnt[2]; std::vector<Acc> log; int forced; };
/*
	first: which thread starts; it is stopped before its k-th access (k < 0:
	never), the other before its j-th.  solo: only thread `first' exists.
*/
inline void schedule(SOut& s, const std::function<void()>& prep, const Run& a, int va, const Run& b, int vb, bool warm, int first, long k, long j, bool solo, const std::vector<uintptr_t>& hot, bool log, int hotProt = 0, long l0 = 0, long l1 = 0)
{
	reset();
	Ctl *c = ctl;
	c->nhot = 0; c->nhotPage = 0;
	std::set<uintptr_t> pg;
	for (size_t i = 0; i < hot.size() && c->nhot < MAXHOT; i++) { c->hot[c->nhot++] = hot[i]; pg.insert((hot[i] << 5) & ~(uintptr_t)4095); }
	for (std::set<uintptr_t>::iterator i = pg.begin(); i != pg.end() && c->nhotPage < MAXHOT; ++i) c->hotPage[c->nhotPage++] = *i;
	c->first = first; c->k = k; c->j = j; c->logAll = log; c->hotProt = hotProt; c->limit[0] = l0; c->limit[1] = l1;
	s.err = inChild([&]() {
		if (prep) prep();
		if (warm) { static Out d; arenaOn(2); d.n = 0; a(1 - va % 2, d); d.n = 0; b(1 - vb % 2, d); arenaOff(); }
		task[0].run = &a; task[0].var = va; task[1].run = &b; task[1].var = vb;
		readMaps(-1);
		int n = solo ? 1 : 2;
		for (int i = 0; i < 2; i++) { if (solo && i != first) { c->t[i].done = 1; continue; } spawn(i, schedThread); }
		while (c->finished != n) usleep(50);
		c->turn = first;
		c->mode = SCHED;
		for (int i = 0; i < c->nhotPage; i++) { const Map *m = findMap(c->hotPage[i]); if (m) mprotect((void*)c->hotPage[i], 4096, m->prot & c->hotProt); }
		setWake(&c->go, 1);
		uint64_t last = 0; int same = 0;
		for (;;) {
			int fin = c->finished;
			if (fin == n * 2) break;
			timespec t = { 0, 20000000 };
			futex(&c->finished, FUTEX_WAIT, fin, &t);
			if (c->finished == n * 2) break;
			uint64_t now = c->ticks;
			if (now == last) { // the running thread waits for the other one: let that run
				if (++same > 1) { int o = 1 - c->turn; if (!c->t[o].done) { c->forced = c->forced + 1; setWake(&c->turn, o); } if (same > 400) { c->hung = 1; _exit(43); } }
			} else { last = now; same = 0; }
		}
		for (int i = 0; i < c->nhotPage; i++) { const Map *m = findMap(c->hotPage[i]); mprotect((void*)c->hotPage[i], 4096, m ? m->prot : PROT_READ | PROT_WRITE); }
		c->mode = OFF;
	}, 100);
	if (c->hung) s.err = "the two operations block each other";
	for (int i = 0; i < 2; i++) { s.out[i] = c->t[i].out; s.cnt[i] = c->t[i].cnt; }
	s.log.assign(c->log, c->log + c->nlog);
	s.forced = c->forced;
}
inline long countInstr(std::string& err, const std::function<void()>& prep, const Run& a, int va, long limit)
{
	reset(); ctl->dstop = limit;
	err = inChild([&]() { if (prep) prep(); arenaOn(2); static Out d; d.n = 0; a(va, d); arenaOff(); task[0].run = &a; task[0].var = va; ctl->mode = COUNT; pthread_join(spawn(0, denseA), 0); });
	return ctl->instr;
}
// "" or the instruction after which the second thread's result was wrong first
inline std::string dense(long& n, Out& oa, const std::function<void()>& prep, const Run& a, int va, const Run& b, int vb)
{
	reset();
	std::string err = inChild([&]() {
		if (prep) prep();
		arenaOn(2); static Out d; d.n = 0; a(va, d); d.n = 0; b(vb, d); arenaOff();
		task[0].run = &a; task[0].var = va; task[1].run = &b; task[1].var = vb;
		ctl->mode = DENSE;
		pthread_t x = spawn(0, denseA), y = spawn(1, denseB);
		pthread_join(x, 0); pthread_join(y, 0);
	}, 300);
	n = ctl->instr; oa = ctl->t[0].out;
	if (err.empty() && ctl->dbad) { std::ostringstream os; os << "the operation run between instruction " << ctl->dbad << " and the next gives a wrong result"; err = os.str(); }
	return err;
}
} // sch

extern "C" {
void *malloc(size_t n) { return sch::tCur ? sch::bump(n) : __libc_malloc(n); }
void free(void *p) { if (!p) return; if (sch::inArena(p)) sch::giveBack(p); else __libc_free(p); }
void *calloc(size_t a, size_t b) { if (!sch::tCur) return __libc_calloc(a, b); void *p = sch::bump(a * b); memset(p, 0, a * b); return p; }
void *realloc(void *p, size_t n)
{
	if (!sch::tCur && !sch::inArena(p)) return __libc_realloc(p, n);
	void *q = malloc(n);
	if (p) { size_t o = sch::inArena(p) ? ((size_t*)p)[-1] : malloc_usable_size(p); memcpy(q, p, o < n ? o : n); free(p); }
	return q;
}
void *memalign(size_t a, size_t n) { return sch::tCur ? sch::bump(n, a < 16 ? 16 : a) : __libc_memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { *p = memalign(a, n); return *p ? 0 : 12; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
}
