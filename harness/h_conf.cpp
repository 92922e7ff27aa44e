/*
	C17: initialisation histories.  Every history runs in a process of its own
	that has never been initialised before; after each initialisation the derived
	parameters and a battery of operations of every kind are compared with the
	reference model of the selected curve, and bit for bit with the results of
	the first configuration.
*/
#include "ops.h"
#include "points.h"
using namespace pts;
using namespace ops;

static bool TH() { return mc::ctx().thorough(); }

// ---------------------------------------------------------------- children
struct ChildShared { volatile uint64_t steps; volatile int done; char msg[6000]; char what[256]; uint64_t dig[2][64]; volatile int haveDig[2]; };
static ChildShared *cs;
struct Outcome { bool signaled, timeout; int code; bool done; std::string msg; };
static Outcome inChild(const std::function<void()>& fn, double limit = 60)
{
	cs->steps = 0; cs->done = 0; cs->msg[0] = 0; cs->what[0] = 0;
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid == 0) {
		mc::ctx().sh = (mc::Shared*)malloc(sizeof(mc::Shared)); memset(mc::ctx().sh, 0, sizeof(mc::Shared));
		int dn = open("/dev/null", 1); dup2(dn, 2); dup2(dn, 1);
		uint64_t s0 = mc::ctx().cur.steps;
		try { fn(); cs->done = 1; }
		catch (const mc::Fail& e) { snprintf(cs->msg, sizeof(cs->msg), "%s", e.what()); }
		catch (const std::exception& e) { snprintf(cs->msg, sizeof(cs->msg), "exception %s at %s", e.what(), mc::ctx().sh->what); cs->done = 2; }
		cs->steps = mc::ctx().cur.steps - s0;
		_exit(42);
	}
	Outcome o; int st = 0; o.timeout = false; double t0 = mc::now(); int us = 50;
	for (;;) { if (waitpid(pid, &st, WNOHANG) == pid) break; if (mc::now() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); o.timeout = true; break; } usleep(us); if (us < 2000) us *= 2; }
	mc::step(cs->steps); o.done = cs->done == 1; o.msg = cs->msg; o.signaled = WIFSIGNALED(st); o.code = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
	return o;
}
static void mustPass(const Outcome& o, const std::string& w)
{
	if (o.timeout) mc::fail(w + ": no end");
	if (!o.done) { std::ostringstream os; os << w << ": " << (o.msg.empty() ? "process ended" : o.msg) << " (exit " << o.code << ")"; mc::fail(os.str()); }
}

// ---------------------------------------------------------------- curves
struct CurveInfo { const char *name; bn::CurveParam cp; ref::Curve rc; P1 g1; P2 g2; ref::F12 e, ml2; ref::F12 fin, fe; P1 p5, pm; P2 q5; std::vector<std::vector<Obj> > dummy; };
static std::vector<CurveInfo>& curves() { static std::vector<CurveInfo> v; return v; }
static ref::F12 dense12(int k) { ref::F12 d; for (int i = 0; i < 3; i++) { d.a.c[i] = ref::mk2(ref::Fz(dense(k + 2 * i)), ref::Fz(dense(k + 2 * i + 1))); d.b.c[i] = ref::mk2(ref::Fz(dense(k + 3 * i)), ref::Fz(dense(k + 3 * i + 7))); } return d; }
static void addCurve(const char *n)
{
	CurveInfo c; c.name = n; c.cp = curveByName(n); c.rc = refCurve(n); ref::setCurve(c.rc);
	c.g1 = gen1(); c.g2 = gen2(); c.e = ref::pairing(c.g2, c.g1); c.fin = dense12(1); c.fe = ref::finalExp(c.fin);
	c.p5 = ref::mul(c.g1, 5); c.q5 = ref::mul(c.g2, 5); c.pm = ref::mul(c.g1, c.rc.r / 3); c.ml2 = c.e * c.e * c.e;
	curves().push_back(c);
}
static std::vector<Op> allOps()
{
	std::vector<Op> v; void (*fs[])(std::vector<Op>&) = { fpOps, fpInvOps, dblOps, fp2Ops, fp2InvOps, dbl2Ops, fp6Ops, fp6InvOps, dbl6Ops, fp12Ops, fp12InvOps, sparseOps, frobOps, fpFastOps, fp2COps, dbl2COps, fp6COps, dbl6COps, fp12COps, fpPortOps, dblPortOps };
	for (size_t i = 0; i < sizeof(fs) / sizeof(*fs); i++) fs[i](v);
	return v;
}
static Obj operand(int ty, int k)
{
	Obj o; const mpz_class& p = ref::curve().p;
	for (int i = 0; i < ncoef[ty]; i++) {
		mpz_class x;
		if (isDbl(ty)) { x = k == 0 ? (mpz_class(p - 1) << 256) + dense(i) : k == 1 ? mpz_class(dense(i) * dense(i + 3)) : mpz_class((p - 1) * (p - 1)); }
		else x = k == 0 ? dense(i) : k == 1 ? mpz_class(p - 1 - i) : i % 2 ? mpz_class(0) : dense(i + 9);
		Obj w(isDbl(ty) ? 8 : 4); ref::fromMpz(&w[0], w.size(), x); o = cat(o, w);
	}
	if (o.empty()) o.resize(1);
	return o;
}
static void params(const CurveInfo& c)
{
	typedef Param P; const ref::Curve& r = c.rc; const mpz_class& p = r.p;
	mc::what("derived parameters"); mc::step(30);
#define CK(cond, nm_) if (!(cond)) mc::fail(std::string("parameter " nm_ " of curve ") + c.name);
	CK(M(P::z) == r.z, "z") CK(M(P::p) == p, "p") CK(M(P::r) == r.r, "r") CK(M(P::t) == r.t, "t") CK(M(P::largest_c) == 6 * r.z + 2, "largest_c")
	CK(P::b == r.b, "b") CK(A(P::b_invxi) == ref::twistB() && canon(P::b_invxi), "b_invxi") CK(A(P::half) == ref::inv(ref::Fi(2)) && canon(P::half), "half")
	CK(A(P::i0) == ref::Fi(0), "i0") CK(A(P::i1) == ref::Fi(1), "i1")
	ref::F2 g = ref::pow(ref::xi(), (p - 1) / 6), a = ref::F2i(1);
	for (int i = 0; i < 5; i++) {
		a = a * g; ref::F2 n = a * ref::mk2(a.a, -a.b);
		CK(A(P::gammar[i]) == a && canon(P::gammar[i]), "gammar") CK(A(P::gammar2[i]) == n && canon(P::gammar2[i]), "gammar2") CK(A(P::gammar3[i]) == a * n && canon(P::gammar3[i]), "gammar3")
	}
	CK(A(P::W2p) == ref::pow(ref::xi(), (p - 1) / 3), "W2p") CK(A(P::W3p) == ref::pow(ref::xi(), (p - 1) / 2), "W3p")
	ref::F2 zz = ref::pow(ref::xi(), (p * p - 1) / 6); CK(zz.b.isZero(), "(model)") CK(A(P::Z) == zz.a * zz.a, "Z")
	auto val = [](const std::vector<signed char>& v) { mpz_class s = 0; for (size_t i = 0; i < v.size(); i++) { if (v[i] < -1 || v[i] > 1) mc::fail("signed digit out of range"); s = 2 * s + v[i]; } return s; };
	CK(val(P::siTbl) == abs(6 * r.z + 2), "siTbl")
	bool neg = false; for (size_t i = 0; i < P::siTbl.size(); i++) if (P::siTbl[i] < 0) neg = true;
	CK(!neg || P::useNAF, "useNAF")
#ifdef BN_SUPPORT_SNARK
	CK(val(P::zReplTbl) == abs(r.z), "zReplTbl")
#endif
	CK(M(Fp::getModulo()) == p, "Fp modulus")
#undef CK
}
// generators of every known curve are accepted on their own curve only; the others come first,
// so that a point accepted last under an earlier initialisation is the first one now
static void membership(const CurveInfo& c)
{
	mc::what("points of other curves");
	for (int own = 0; own < 2; own++) for (size_t k = 0; k < curves().size(); k++) {
		const CurveInfo& o = curves()[k]; const bool want = &o == &c; if (want != (own == 1)) continue;
		Fp X, Y; C(X, o.g1.x); C(Y, o.g1.y); Fp2 U, V; C(U, o.g2.x); C(V, o.g2.y);
		auto tr = [&](const char *w, std::function<void()> f) { mc::step(); bool ok = true; try { f(); } catch (std::exception&) { ok = false; } if (ok != want) mc::fail(std::string(w) + (ok ? ": accepts" : ": refuses") + " a generator of " + o.name + " on curve " + c.name); };
		auto txt = [](const std::string& t, bool two) { std::istringstream is(t); if (two) { Ec2 q; is >> q; } else { Ec1 p; is >> p; } if (!is) throw std::runtime_error("text"); };
		tr("Ec1(x, y)", [&]() { Ec1 p(X, Y); }); tr("Ec1(x, y, z)", [&]() { Ec1 p(X, Y, Fp(1)); }); tr("Ec1::set", [&]() { Ec1 p; p.set(X, Y); });
		tr("Ec2(x, y)", [&]() { Ec2 p(U, V); }); tr("Ec2(x, y, z)", [&]() { Ec2 p(U, V, Fp2(1)); }); tr("Ec2::set", [&]() { Ec2 p; p.set(U, V); });
		Ec1 p(X, Y, false); Ec2 q(U, V, false); std::ostringstream a, b; a << p; b << q;
		tr("Ec1 text", [&]() { txt(a.str(), false); }); tr("Ec2 text", [&]() { txt(b.str(), true); });
		mc::step(2); if (p.isValid() != want || q.isValid() != want || bn::ecop::isOnECJac3(p.p) != want || bn::ecop::isOnTwistECJac3(q.p) != want) mc::fail(std::string("isValid of a generator of ") + o.name + " on curve " + c.name);
	}
}
/*
	operations of every kind; slot k of the digests holds the bits of the results
*/
static void battery(const CurveInfo& c, int ci, bool longOne)
{
	uint64_t dig[64]; int nd = 0; memset(dig, 0, sizeof(dig));
	membership(c);
	params(c);
	static std::vector<Op> t = allOps();
	uint64_t h = 1;
	for (int k = 0; k < (longOne ? 3 : 1); k++) {
		for (size_t i = 0; i < t.size(); i++) {
			mc::what(t[i].name);
			Obj x = operand(t[i].tx, k), y = t[i].ty == TNONE ? Obj(1) : operand(t[i].ty, (k + 1) % 3), z = operand(t[i].tz, (k + 2) % 3), r(48 * 2);
			if (!pre(t[i], &x[0], &y[0])) continue;
			doStep(t[i], 0, &z[0], &x[0], &y[0], &r[0]); h = mc::hashBytes(&r[0], bytes(t[i].tz), h);
		}
		if (k == 0) dig[nd++] = h;
	}
	if (longOne) dig[60] = h;
	auto ck = [&](bool b, const char *w) { mc::step(); if (!b) mc::fail(std::string(w) + " on curve " + c.name); };
	mc::what("points");
	Fp X, Y; C(X, c.g1.x); C(Y, c.g1.y); Fp2 U, V; C(U, c.g2.x); C(V, c.g2.y);
	Ec1 P(X, Y); Ec2 Q(U, V); ck(P.isValid() && Q.isValid(), "generators are valid");
	{ bool thr = false; try { Ec1 bad(X, Y + Fp(1)); } catch (std::exception&) { thr = true; } ck(thr, "a wrong point is refused"); thr = false; try { Ec2 bad(U, V + Fp2(1)); } catch (std::exception&) { thr = true; } ck(thr, "a wrong twist point is refused"); }
	Ec1 P5 = P * 5; Ec2 Q5 = Q * mie::Vuint(5); ck(A(P5) == c.p5 && A(Q5) == c.q5, "5-fold points");
	ck(A(Ec1(P * mpz_class(c.rc.r / 3))) == c.pm, "multiple");
	ck((P * c.rc.r).isZero() && (Q * Param::r).isZero(), "order");
	Ec1 s = P5; for (int i = 0; i < 4; i++) s -= P; ck(s == P, "sums"); Ec2 d; Ec2::dbl(d, Q); d += Q; d += Q; d += Q; ck(d == Q5, "twist sums");
	h = 1; { Ec1 n = P5; n.normalize(); Ec2 m = Q5; m.normalize(); for (int i = 0; i < 3; i++) { h = mc::hashBytes(&P5.p[i], sizeof(Fp), h); h = mc::hashBytes(&n.p[i], sizeof(Fp), h); h = mc::hashBytes(&Q5.p[i], sizeof(Fp2), h); h = mc::hashBytes(&m.p[i], sizeof(Fp2), h); } } dig[nd++] = h;
	mc::what("roots");
	{ Fp y, x; C(x, ref::Fi(4)); ck(Fp::squareRoot(y, x) && A(y) * A(y) == ref::Fi(4), "square root"); ck(!Fp::squareRoot(y, Fp(-1)), "no root of -1"); dig[nd++] = mc::hashBytes(&y, sizeof(y)); }
	mc::what("pairing");
	Fp12 f, g; bn::opt_atePairing(f, Q, P); ck(canon(f) && A(f) == c.e, "pairing"); dig[nd++] = mc::hashBytes(&f, sizeof(f));
	bn::opt_atePairing(g, Q5, P5); ck(A(g) == ref::pow(c.e, mpz_class(25)), "pairing of multiples"); { Fp12 e = mie::power(f, 25); ck(e == g, "power of the pairing"); }
	{ Ec1 O; O.clear(); bn::opt_atePairing(g, Q, O); ck(g == Fp12(1), "pairing with infinity"); }
	mc::what("split pairing");
	{ std::vector<Fp6> co, c5; Fp2 R[3]; bn::components::precomputeG2(co, R, Q5.p); bn::components::precomputeG2(c5, R, Q.p); Fp p5[2]; Ec1 n = P5; n.normalize(); p5[0] = n.p[0]; p5[1] = n.p[1]; Fp p1[2] = { X, Y };
	  bn::components::millerLoop(g, c5, p1); dig[nd++] = mc::hashBytes(&g, sizeof(g)); g.final_exp(); ck(A(g) == c.e, "precomputed pairing");
	  bn::components::millerLoop2(g, co, p1, c5, p5); dig[nd++] = mc::hashBytes(&g, sizeof(g)); g.final_exp(); ck(A(g) == ref::pow(c.e, mpz_class(10)), "double Miller loop"); }
	mc::what("final exponentiation");
	{ Fp12 a; C(a, c.fin); a.final_exp(); ck(canon(a) && A(a) == c.fe, "final exponentiation"); dig[nd++] = mc::hashBytes(&a, sizeof(a));
	  Fp12 u, v, w; u = f; { Compress k(v, u); Compress::square_n(k, 7); k.decompress(); } ck(A(v) == ref::pow(c.e, mpz_class(128)), "compressed squarings"); w = f; w.sqru(); ck(A(w) == c.e * c.e, "cyclotomic square"); }
	mc::what("text");
	{ std::ostringstream os; os << P5 << ' ' << X << ' ' << std::hex << Y << ' ' << f; std::istringstream is(os.str()); Ec1 a; Fp x, y; Fp12 q; is >> a >> x >> std::hex >> y >> q; ck(bool(is) && a == P5 && x == X && y == Y && q == f, "text"); dig[nd++] = mc::hashStr(os.str()); }
	mc::what("integers");
	{ mie::Vuint a(Param::p), b(Param::r); mie::Vuint q = (a * b + mie::Vuint(12345)) / b; ck(q == a && (a * b + mie::Vuint(12345)) % b == mie::Vuint(12345) && M(a * b) == c.rc.p * c.rc.r && M(a - (a >> 3)) == c.rc.p - (c.rc.p >> 3) && M((a + b) << 70) == (c.rc.p + c.rc.r) << 70, "integer arithmetic"); }
	membership(c);
	if (cs->haveDig[ci]) { for (int i = 0; i < 64; i++) if ((i < 60 || longOne) && cs->dig[ci][i] != dig[i]) { std::ostringstream os; os << "bits of result group " << i << " differ from those of the first configuration on curve " << c.name; mc::fail(os.str()); } }
	else { memcpy(cs->dig[ci], dig, sizeof(dig)); cs->haveDig[ci] = 1; }
}
// integers before any initialisation
static void integers()
{
	mpz_class x = (mpz_class(1) << 300) - 12345, y = (mpz_class(1) << 130) + 77, z = 1000003;
	mie::Vuint a(x.get_str()), b(y.get_str()), d(z.get_str()); mc::what("integers before initialisation"); mc::step(10);
	if (M(a + b) != x + y || M(a - b) != x - y || M(b * a) != x * y || M(a / b) != x / y || M(a % b) != x % y || M(a / d) != x / z || M(a % d) != x % z || M(a << 65) != x << 65 || M(a >> 65) != x >> 65 || a.toString(10) != x.get_str() || M(a + mie::Vuint(1)) != x + 1 || M(b - mie::Vuint(1)) != y - 1) mc::fail("integer arithmetic");
}
struct Init { int curve; int mode; bool mulx; int kind; std::string name() const { std::ostringstream os; if (kind == 1) os << "init()"; else if (kind == 2) os << "init(" << curves()[curve].name << ")"; else if (kind == 3) os << "init(mode " << mode << ")"; else if (kind == 4) os << "zmInit()"; else os << "init(" << curves()[curve].name << ", mode " << mode << ", mulx " << mulx << ")"; return os.str(); } };
static std::vector<Init> inits()
{
	std::vector<Init> v;
	for (size_t c = 0; c < curves().size(); c++) for (int m = 0; m <= 2; m++) for (int x = 1; x >= 0; x--) { Init i = { (int)c, m == 2 ? -1 : m, x != 0, 0 }; v.push_back(i); }
	Init d = { 0, -1, true, 1 }; v.push_back(d);
	for (size_t c = 0; c < curves().size(); c++) { Init e = { (int)c, -1, true, 2 }; v.push_back(e); }
	Init g = { 0, 1, true, 3 }; v.push_back(g);
	return v;
}
static void doInit(const Init& i)
{
	mc::what(i.name());
	switch (i.kind) {
	case 1: Param::init(); break;
	case 2: Param::init(curves()[i.curve].cp); break;
	case 3: Param::init(i.mode); break;
	default: Param::init(curves()[i.curve].cp, i.mode, i.mulx); break;
	}
	ref::setCurve(curves()[i.curve].rc);
}
static void history(const std::vector<Init>& s, int use, bool before)
{
	if (before) integers();
	if (use & 64) mie::zmInit();
	struct Kept { Fp x; Ec1 p; Ec2 q; Fp12 f; int curve; ref::F rx; };
	std::vector<Kept> kept;
	for (size_t i = 0; i < s.size(); i++) {
		doInit(s[i]);
		if ((use >> i & 1) || i + 1 == s.size()) {
			const CurveInfo& c = curves()[s[i].curve];
			battery(c, s[i].curve, i + 1 == s.size());
			// objects made under earlier initialisations
			for (size_t k = 0; k < kept.size(); k++) {
				mc::step(3); mc::what("objects kept across an initialisation");
				if (A(kept[k].x) != kept[k].rx || !(kept[k].x * kept[k].x / kept[k].x == kept[k].x)) mc::fail("field element kept across an initialisation");
				bool same = kept[k].curve == s[i].curve;
				if (kept[k].p.isValid() != same || kept[k].q.isValid() != same) mc::fail("validity of a point kept across an initialisation");
				if (same) { Fp12 f; bn::opt_atePairing(f, kept[k].q, kept[k].p); if (!(f == kept[k].f)) mc::fail("pairing of points kept across an initialisation"); }
			}
			Kept k; k.x = Fp(12345); k.rx = ref::Fi(12345); Fp X, Y; C(X, c.g1.x); C(Y, c.g1.y); Fp2 U, V; C(U, c.g2.x); C(V, c.g2.y); k.p.set(X, Y); k.q.set(U, V); k.p = k.p * 3; k.q = k.q * 3; bn::opt_atePairing(k.f, k.q, k.p); k.curve = s[i].curve; kept.push_back(k);
		}
	}
}
static void c17()
{
	mc::domain("initialisation histories", []() {
		std::vector<Init> in = inits(); size_t K = in.size();
		memset((void*)cs->haveDig, 0, sizeof(cs->haveDig));
		for (size_t c = 0; c < curves().size(); c++) { Init b = { (int)c, 0, true, 0 }; mustPass(inChild([=]() { history(std::vector<Init>(1, b), 1, false); }), "first configuration " + b.name()); }
		int depth = TH() ? (K <= 10 ? 5 : 4) : 3;
		std::vector<std::vector<int> > seqs(1);
		for (int d = 0; d < depth; d++) {
			std::vector<std::vector<int> > nx;
			for (size_t i = 0; i < seqs.size(); i++) for (size_t k = 0; k < K; k++) { std::vector<int> s = seqs[i]; s.push_back(k); nx.push_back(s); }
			seqs.swap(nx);
			for (size_t i = 0; i < seqs.size(); i++) {
				int n = seqs[i].size();
				for (int use = 0; use < (1 << (n - 1)); use++) for (int bf = 0; bf < (n == 1 ? 4 : 1); bf++) {
					if (n >= 3 && use != 0 && use != (1 << (n - 1)) - 1 && (!TH() || n > 4)) continue;
					uint64_t h = mc::mix(use, bf); for (int k = 0; k < n; k++) h = mc::mix(h, seqs[i][k] + 1);
					if (!mc::state(h)) continue;
					std::vector<Init> s; std::string w; if (bf & 1) w += "integers; "; if (bf & 2) w += "zmInit(); "; for (int k = 0; k < n; k++) { s.push_back(in[seqs[i][k]]); w += s.back().name() + ((use >> k & 1) || k + 1 == n ? "; use; " : "; "); }
					mc::what(w); mustPass(inChild([=]() { history(s, use | (bf & 2 ? 64 : 0), bf & 1); }), w); mc::trace();
					if (mc::wantSample() && n > 1) mc::sample(w);
				}
			}
		}
	});
	mc::domain("long histories", []() {
		// alternating initialisations, many times
		std::vector<Init> in = inits(); size_t K = in.size();
		for (size_t i = 0; i < K; i++) for (size_t j = 0; j < K; j++) {
			if (!TH() && K > 10 && (i + j) % 3) continue;
			if (!mc::state(mc::mix(i, j))) continue;
			std::vector<Init> s; for (int k = 0; k < 12; k++) s.push_back(in[k % 2 ? j : i]);
			std::string w = "twelve alternations of " + in[i].name() + " and " + in[j].name(); mc::what(w);
			mustPass(inChild([=]() { history(s, 0x20, false); }), w); mc::trace();
		}
	});
	mc::domain("unsupported parameters", []() {
		std::vector<bn::CurveParam> base; for (size_t c = 0; c < curves().size(); c++) base.push_back(curves()[c].cp);
		{ bn::CurveParam o1 = { 4965661367192848881LL, 3, 9, 1 }, o2 = { 4965661367192848881LL, 82, 9, 1 }, o3 = { -((1LL << 62) + (1LL << 55) + (1LL << 0)), 2, 1, 1 }, o4 = { 0, 0, 0, 0 }; base.push_back(o1); base.push_back(o2); base.push_back(o3); base.push_back(o4); }
		std::vector<bn::CurveParam> v;
		for (size_t i = 0; i < base.size(); i++) {
			v.push_back(base[i]);
			static const long long dz[] = { 1, -1, 2, -2, 1LL << 32, 1LL << 55, -(1LL << 55) };
			for (int k = 0; k < 7; k++) { bn::CurveParam q = base[i]; q.z += dz[k]; v.push_back(q); }
			{ bn::CurveParam q = base[i]; q.z = -q.z; v.push_back(q); q.z = (int)q.z; v.push_back(q); }
			for (int f = 0; f < 3; f++) for (int d = -3; d <= 3; d++) { bn::CurveParam q = base[i]; (f == 0 ? q.b : f == 1 ? q.xi_a : q.xi_b) += d; v.push_back(q); }
			{ bn::CurveParam q = base[i]; std::swap(q.xi_a, q.xi_b); v.push_back(q); q = base[i]; q.b = -q.b; v.push_back(q); q = base[i]; q.xi_a = -q.xi_a; v.push_back(q); q = base[i]; q.xi_b = -q.xi_b; v.push_back(q); }
			for (size_t j = 0; j < base.size(); j++) { bn::CurveParam q = base[i]; q.z = base[j].z; v.push_back(q); q = base[i]; q.b = base[j].b; v.push_back(q); q = base[i]; q.xi_a = base[j].xi_a; v.push_back(q); }
		}
		for (size_t i = 0; i < v.size(); i++) for (int after = 0; after < 3; after++) {
			bn::CurveParam q = v[i]; bool sup = false; for (size_t c = 0; c < curves().size(); c++) { const bn::CurveParam& k = curves()[c].cp; if (k.z == q.z && k.b == q.b && k.xi_a == q.xi_a && k.xi_b == q.xi_b) sup = true; }
			if (sup) continue;
			uint64_t h = mc::mix(mc::mix(mc::mix(mc::mix(q.z, q.b), q.xi_a), q.xi_b), after);
			if (!mc::state(h)) continue;
			std::ostringstream os; os << "parameter (" << q.z << ", " << q.b << ", " << q.xi_a << ", " << q.xi_b << ")" << (after == 1 ? " after an initialisation" : after == 2 ? " with an explicit mode" : ""); mc::what(os.str());
			Outcome o = inChild([=]() { if (after == 1) Param::init(curves()[0].cp, 1); if (after == 2) Param::init(q, 1, false); else Param::init(q); });
			mc::step(); mc::trace();
			bool refused = !o.timeout && !o.signaled && !o.done && (o.code != 42 ? o.code != 0 : !o.msg.empty());
			if (!refused) mc::fail(os.str() + " is not refused");
			mc::outcome("refused");
		}
	});
	mc::domain("field set up for other sources", []() {
		// the translation units must agree on the curve family
		for (int k = 0; k < 2; k++) { if (!mc::state(k)) continue; mc::what("Fp::setModulo with another curve family");
#ifdef BN_SUPPORT_SNARK
			const bool mine = true;
#else
			const bool mine = false;
#endif
			mie::Vuint p; ref::setCurve(curves()[0].rc); p.set(curves()[0].rc.p.get_str());
			Outcome o = inChild([=]() { if (k) Param::init(curves()[0].cp); mie::Fp::setModulo(p, 0, true, !mine); }); mc::step(); mc::trace();
			if (o.timeout || o.signaled || o.done || o.code == 0) mc::fail("mixed curve families are not refused"); }
	});
	mc::domain("signed digits", []() {
		// the representation used for the loops: same value, digits -1, 0, 1, no heavier than binary
		std::vector<mpz_class> xs; int lim = TH() ? 1 << 18 : 1 << 15; for (int i = 0; i < lim; i++) xs.push_back(i);
		for (int b = 1; b < 130; b++) for (int d = -3; d <= 3; d++) { mpz_class x = (mpz_class(1) << b) + d; if (x >= 0) xs.push_back(x); for (int e = 0; e < b; e += 3) { mpz_class y = x - (mpz_class(1) << e); if (y > 0) xs.push_back(y); y = x + (mpz_class(1) << e); xs.push_back(y); } }
		for (size_t i = 0; i < xs.size(); i++) {
			if (!mc::state(mc::hashStr(xs[i].get_str(16)))) continue;
			std::string w = "signed digits of " + hex(xs[i]); if (i % 64 == 0 || mc::ctx().onlySet) mc::what(w);
			mie::Vuint x; x.set(xs[i].get_str()); std::vector<signed char> v; bool naf = bn::util::getGoodRepl(v, x); mc::step(); mc::trace();
			mpz_class s = 0; size_t wt = 0, bw = mpz_popcount(xs[i].get_mpz_t()); bool neg = false; for (size_t k = 0; k < v.size(); k++) { if (v[k] < -1 || v[k] > 1) mc::fail(w + ": digit out of range"); s = 2 * s + v[k]; if (v[k]) wt++; if (v[k] < 0) neg = true; }
			if (s != xs[i]) mc::fail(w + ": value " + hex(s));
			if (wt > bw || (neg && !naf) || (naf && wt >= bw)) mc::fail(w + ": weight");
			if (bn::util::getNumOfNonZeroElement(v) != wt) mc::fail(w + ": weight function");
			std::vector<signed char> bin; bn::util::convertToBinary(bin, x); s = 0; for (size_t k = 0; k < bin.size(); k++) { if (bin[k] < 0 || bin[k] > 1) mc::fail(w + ": binary digit"); s = 2 * s + bin[k]; } if (s != xs[i] || (xs[i] > 0 && (bin.empty() || bin[0] != 1))) mc::fail(w + ": binary digits");
			mc::outcome(naf ? "signed" : "binary");
		}
	});
}
int main(int argc, char **argv)
{
	mc::parse(argc, argv);
	cs = (ChildShared*)mmap(0, sizeof(ChildShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
#ifdef BN_SUPPORT_SNARK
	addCurve("s1"); addCurve("s2");
#else
	addCurve("n");
#endif
	c17();
	return mc::runAll();
}
