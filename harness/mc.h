#pragma once
/*
	Explicit-state exploration support shared by all harnesses.

	A *domain* is one bounded space.  The enumeration code walks it and calls
	MC::state(hash) for every model state it reaches; the call answers whether
	this process must expand it (new, and in this process' shard).  Every call
	of the implementation compared with the model is counted by MC::step().
	A mismatch is reported with MC::fail(); the state it happened in is
	identified by (domain, hash), and "--only DOMAIN:HASH" re-executes exactly
	that state.
*/
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <fcntl.h>
#include <string>
#include <vector>
#include <map>
#include <stdexcept>
#include <sstream>
#include <iostream>
#include <functional>

namespace mc {

struct Shared { // written by the worker, read by the parent if the worker dies
	volatile uint64_t cur;      // state under execution
	volatile uint64_t ticks;    // progress
	char domain[96];
	char what[256];
};

struct Fail : std::runtime_error { Fail(const std::string& s) : std::runtime_error(s) {} };

inline uint64_t mix(uint64_t h, uint64_t v)
{
	h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdULL; h ^= h >> 32;
	h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 29;
	return h;
}
inline uint64_t hashBytes(const void *p, size_t n, uint64_t h = 0x1234567)
{
	const unsigned char *c = (const unsigned char*)p;
	uint64_t v;
	while (n >= 8) { memcpy(&v, c, 8); h = mix(h, v); c += 8; n -= 8; }
	v = 0;
	if (n) { memcpy(&v, c, n); h = mix(h, v ^ (uint64_t(n) << 56)); }
	return h;
}
inline uint64_t hashStr(const std::string& s, uint64_t h = 0x1234567) { return hashBytes(s.data(), s.size(), mix(h, s.size())); }

// open addressing set of 64-bit hashes
class HashSet {
	std::vector<uint64_t> t_; size_t n_;
	void grow() {
		std::vector<uint64_t> o; o.swap(t_);
		t_.assign(o.empty() ? 1 << 12 : o.size() * 2, 0); n_ = 0;
		for (size_t i = 0; i < o.size(); i++) if (o[i]) insert(o[i]);
	}
public:
	HashSet() : n_(0) {}
	bool insert(uint64_t h) {
		if (h == 0) h = 1;
		if ((n_ + 1) * 2 > t_.size()) grow();
		size_t m = t_.size() - 1, i = h & m;
		while (t_[i]) { if (t_[i] == h) return false; i = (i + 1) & m; }
		t_[i] = h; n_++; return true;
	}
	size_t size() const { return n_; }
	void clear() { std::vector<uint64_t>().swap(t_); n_ = 0; }
};

struct DomainStat { std::string name; uint64_t states, steps, traces; std::string fail; uint64_t failState; double sec; };

struct Ctx {
	std::string tier;      // quick / thorough
	int shard, nshard;
	bool onlySet; std::string onlyDomain; uint64_t onlyState;
	std::string domainFilter; // run only domains with this prefix
	Shared *sh;
	FILE *out;
	HashSet seen;
	DomainStat cur;
	std::vector<DomainStat> done;
	std::map<std::string, uint64_t> outcomes; // observed outcome classes
	std::vector<std::string> samples;
	uint64_t stateNow;
	bool verbose;
	bool thorough() const { return tier == "thorough"; }
};
inline Ctx& ctx() { static Ctx c; return c; }

inline void what(const std::string& s)
{
	Ctx& c = ctx();
	size_t n = s.size() < sizeof(c.sh->what) - 1 ? s.size() : sizeof(c.sh->what) - 1;
	memcpy(c.sh->what, s.data(), n); c.sh->what[n] = 0;
}
inline bool state(uint64_t h, bool sharded = true)
{
	Ctx& c = ctx();
	c.sh->ticks = c.sh->ticks + 1;
	if (c.onlySet) {
		if (h != c.onlyState) return false;
		if (!c.seen.insert(h)) return false;
		c.stateNow = h; c.sh->cur = h; c.cur.states++;
		return true;
	}
	if (sharded && int((h >> 20) % uint64_t(c.nshard)) != c.shard) return false;
	if (!c.seen.insert(h)) return false;
	c.stateNow = h; c.sh->cur = h; c.cur.states++;
	return true;
}
inline void step(uint64_t n = 1) { Ctx& c = ctx(); c.cur.steps += n; c.sh->ticks = c.sh->ticks + 1; }
inline void trace(uint64_t n = 1) { ctx().cur.traces += n; }
inline void outcome(const char *k) { ctx().outcomes[k]++; }
inline void sample(const std::string& s) { Ctx& c = ctx(); if (c.samples.size() < 6) c.samples.push_back(s); }
inline bool wantSample() { return ctx().samples.size() < 6; }
inline void fail(const std::string& s) { throw Fail(s); }

struct Job { std::string name; std::function<void()> fn; };
inline std::vector<Job>& jobs() { static std::vector<Job> v; return v; }
inline void domain(const std::string& name, const std::function<void()>& fn) { Job j; j.name = name; j.fn = fn; jobs().push_back(j); }

inline std::string jsonStr(const std::string& s)
{
	std::string r = "\"";
	for (size_t i = 0; i < s.size(); i++) {
		unsigned char ch = s[i];
		if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
		else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", ch); r += b; }
		else r += ch;
	}
	return r + "\"";
}
inline std::string hex64(uint64_t v) { char b[24]; snprintf(b, sizeof(b), "%016llx", (unsigned long long)v); return b; }

inline void emit(const DomainStat& d)
{
	Ctx& c = ctx();
	fprintf(c.out, "{\"domain\":%s,\"states\":%llu,\"steps\":%llu,\"traces\":%llu,\"sec\":%.3f", jsonStr(d.name).c_str(), (unsigned long long)d.states, (unsigned long long)d.steps, (unsigned long long)d.traces, d.sec);
	if (!d.fail.empty()) fprintf(c.out, ",\"fail\":%s,\"state\":\"%s\"", jsonStr(d.fail).c_str(), hex64(d.failState).c_str());
	fprintf(c.out, "}\n"); fflush(c.out);
}
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline void runDomain(const Job& j)
{
	Ctx& c = ctx();
	c.seen.clear(); c.cur = DomainStat(); c.cur.name = j.name; c.stateNow = 0;
	snprintf(c.sh->domain, sizeof(c.sh->domain), "%s", j.name.c_str());
	c.sh->cur = 0; c.sh->what[0] = 0;
	double t0 = now();
	try { j.fn(); }
	catch (const Fail& e) { c.cur.fail = e.what(); c.cur.failState = c.stateNow; }
	catch (const std::exception& e) { c.cur.fail = std::string("unexpected exception: ") + e.what() + " at " + c.sh->what; c.cur.failState = c.stateNow; }
	c.cur.sec = now() - t0;
	emit(c.cur);
}

/*
	Runs every registered domain in a forked worker.  A worker that dies, exits
	or makes no progress is a failure of the state it was executing.
*/
inline int runAll()
{
	Ctx& c = ctx();
	c.sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::vector<Job>& js = jobs();
	for (size_t i = 0; i < js.size(); ) {
		if ((c.onlySet && js[i].name != c.onlyDomain) || js[i].name.compare(0, c.domainFilter.size(), c.domainFilter) != 0) { i++; continue; }
		fflush(stdout); fflush(c.out);
		memset(c.sh, 0, sizeof(*c.sh));
		volatile size_t *idx = (volatile size_t*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		*idx = i;
		pid_t pid = fork();
		if (pid == 0) {
			c.samples.clear(); c.outcomes.clear();
			for (size_t k = i; k < js.size(); k++) {
				*idx = k;
				if ((c.onlySet && js[k].name != c.onlyDomain) || js[k].name.compare(0, c.domainFilter.size(), c.domainFilter) != 0) continue;
				runDomain(js[k]);
			}
			for (std::map<std::string, uint64_t>::const_iterator o = c.outcomes.begin(); o != c.outcomes.end(); ++o)
				fprintf(c.out, "{\"outcome\":%s,\"n\":%llu}\n", jsonStr(o->first).c_str(), (unsigned long long)o->second);
			for (size_t k = 0; k < c.samples.size(); k++) fprintf(c.out, "{\"sample\":%s}\n", jsonStr(c.samples[k]).c_str());
			fflush(c.out);
			*idx = js.size();
			_exit(42); // an exit() of the library gives another code
		}
		int st = 0; uint64_t last = 0; double lastT = now(); bool hung = false;
		for (;;) {
			pid_t r = waitpid(pid, &st, WNOHANG);
			if (r == pid) break;
			if (c.sh->ticks != last) { last = c.sh->ticks; lastT = now(); }
			else if (now() - lastT > (c.onlySet ? 120 : 60)) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
			usleep(2000);
		}
		if (WIFEXITED(st) && WEXITSTATUS(st) == 42) break;
		size_t k = *idx;
		DomainStat d = DomainStat(); d.name = c.sh->domain; d.failState = c.sh->cur;
		std::ostringstream os;
		if (hung) os << "no progress for a minute (hang)";
		else if (WIFSIGNALED(st)) os << "killed by signal " << WTERMSIG(st);
		else os << "process exited with code " << WEXITSTATUS(st);
		os << " at " << c.sh->what;
		d.fail = os.str();
		emit(d);
		i = k + 1;
	}
	fflush(c.out);
	return 0;
}

inline void parse(int argc, char **argv)
{
	Ctx& c = ctx();
	c.tier = "quick"; c.shard = 0; c.nshard = 1; c.onlySet = false; c.verbose = false; c.out = stdout; c.onlyState = 0; c.stateNow = 0;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--tier") c.tier = argv[++i];
		else if (a == "--shard") { c.shard = atoi(argv[++i]); }
		else if (a == "--nshard") { c.nshard = atoi(argv[++i]); }
		else if (a == "--out") { c.out = fopen(argv[++i], "w"); if (!c.out) { perror("out"); exit(3); } }
		else if (a == "--domain") c.domainFilter = argv[++i];
		else if (a == "--only") {
			std::string s = argv[++i]; size_t p = s.rfind(':');
			c.onlySet = true; c.onlyDomain = s.substr(0, p); c.onlyState = strtoull(s.c_str() + p + 1, 0, 16);
		}
		else if (a == "-v") c.verbose = true;
	}
}
inline const char *arg(int argc, char **argv, const char *name, const char *def)
{
	for (int i = 1; i + 1 < argc; i++) if (strcmp(argv[i], name) == 0) return argv[i + 1];
	return def;
}

} // mc
