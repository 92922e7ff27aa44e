/*
	C18: operations of different threads.  Every operation is run under the
	write monitor (mcthr.h); operations that store to memory another thread can
	see are explored under all schedules with up to two preemptions around the
	shared accesses.  A second, reduction-free exploration runs complete
	operations of a second thread between every two instructions of the first.
*/
#include "java/bn254_if.hpp"
#include "ops.h"
#include "points.h"
#include "mcthr.h"
using namespace ops;
using pts::P1; using pts::P2;
typedef lib::Fp LFp; typedef lib::Fp2 LFp2; typedef lib::Fp6 LFp6; typedef lib::Fp12 LFp12; typedef lib::Ec1 LEc1; typedef lib::Ec2 LEc2;
static bool TH() { return mc::ctx().thorough(); }

enum Kind { RAW, EC1, EC2 };
struct TOp { std::string name; sch::Run run; std::function<void()> prep; Kind kind; };
static std::vector<TOp> tops;

// ---- operands; the const ones are shared by the threads
struct Obj2 { unsigned char b[1536]; };
static Obj2 pool[9][4] __attribute__((aligned(4096)));
static LEc1 sP1[6] __attribute__((aligned(4096)));
static LEc2 sP2[6];
static LFp12 sF12[3], sUnit[3];
static Vuint sVu[6]; static Vsint sVs[4]; static mpz_class sMz[4]; static int sInt[4]; static std::string sTxt[4]; static std::string sHex[4];
static std::vector<LFp6> sCoef[2]; static LFp2 sCQ[2][3]; static LFp sAff1[2][2];
static std::string sPt1[2], sPt2[2], sF2t[2], sF12t[2];
typedef mie::ZmZ<Vuint, LFp> ZT; static std::vector<ZT> sZ; // (made after its modulus is set)
static std::vector<int> sNaf;

static void buildPools()
{
	std::vector<Obj> f = fpSet(1); f.insert(f.begin(), fpSet(0)[6]);
	std::vector<Obj> d = dblSet(1);
	for (int t = 0; t < 8; t++) for (int v = 0; v < 4; v++) {
		const std::vector<Obj>& a = isDbl(t) ? d : f; unsigned char *p = pool[t][v].b;
		for (int i = 0; i < ncoef[t]; i++) { const Obj& o = a[(i * 7 + v * 11 + (v == 0 ? 0 : 3)) % a.size()]; memcpy(p, &o[0], o.size() * 8); p += o.size() * 8; }
	}
	for (int i = 0; i < 2; i++) {
		P1 g = i ? pts::hash1(2) : pts::gen1(); P2 h = i ? pts::hash2(0) : pts::gen2();
		std::vector<pts::Rep<LFp> > r = pts::reps<LFp>(g, 6); std::vector<pts::Rep<LFp2> > q = pts::reps<LFp2>(h, 6);
		sP1[2 * i] = pts::ec<LFp>(r[4]); sP1[2 * i + 1] = pts::ec<LFp>(r[0]); sP2[2 * i] = pts::ec<LFp2>(q[4]); sP2[2 * i + 1] = pts::ec<LFp2>(q[0]);
		sP1[4 + i] = i ? pts::ec<LFp>(r[1]) : pts::ec<LFp>(pts::reps<LFp>(ref::infPt<ref::F>(), 2)[1]); sP2[4 + i] = i ? pts::ec<LFp2>(q[1]) : pts::ec<LFp2>(pts::reps<LFp2>(ref::infPt<ref::F2>(), 2)[1]);
		lib::C(sAff1[i][0], g.x); lib::C(sAff1[i][1], g.y);
	}
	ref::F12 a = ref::mk12(ref::mk6(ref::F2i(3, 1), ref::F2i(4, -1), ref::F2i(5, 9)), ref::mk6(ref::F2i(2, 6), ref::F2i(5, 3), ref::F2i(5, 8))), u = a;
	for (int i = 0; i < 3; i++) {
		lib::C(sF12[i], u);
		ref::F12 e = ref::frob(u, 6) * ref::inv(u); e = ref::frob(e, 2) * e; lib::C(sUnit[i], e);
		u = u * a;
	}
	const char *vu[] = { "123456789012345678901234567890", "16798108731015832284940804142231733909759579603404752749028378864165570215949", "18446744073709551616", "0", "98765432109876543210987654321098765432109876543210987654321", "7" };
	for (int i = 0; i < 6; i++) { mpz_class z(vu[i]); mp_limb_t w[5]; memset(w, 0, 40); size_t n = 0; mpz_export(w, &n, -1, 8, 0, 0, z.get_mpz_t()); sVu[i].set((const uint64_t*)w, n ? n : 1); if (i < 4) { sTxt[i] = vu[i]; sHex[i] = "0x" + z.get_str(16); sMz[i] = z; } }
	for (int i = 0; i < 4; i++) { sVs[i].set(sVu[i == 3 ? 4 : i]); if (i & 1) sVs[i] = -sVs[i]; }
	sMz[3] = -sMz[0]; sInt[0] = 12345; sInt[1] = -77; sInt[2] = 2147483647; sInt[3] = 1;
	for (int i = 0; i < 2; i++) {
		std::string h = ref::str(lib::A(sP1[2 * i + 1].p[0]));
		#define HX(e) ("0x" + ref::Z(e).get_str(16))
		ref::F x = lib::A(sP1[2 * i + 1].p[0]), y = lib::A(sP1[2 * i + 1].p[1]); ref::F2 X = lib::A(sP2[2 * i + 1].p[0]), Y = lib::A(sP2[2 * i + 1].p[1]);
		sPt1[i] = HX(x) + "_" + HX(y); sPt2[i] = "[" + HX(X.a) + "," + HX(X.b) + "]_[" + HX(Y.a) + "," + HX(Y.b) + "]"; sF2t[i] = "[" + ref::Z(X.a).get_str() + "," + ref::Z(X.b).get_str() + "]";
	}
}
static void prepCoef() { for (int i = 0; i < 2; i++) bn::components::precomputeG2(sCoef[i], sCQ[i], sP2[2 * i].p); }
static void prepTxt() { for (int i = 0; i < 2; i++) { std::ostringstream os; os << sF12[i]; sF12t[i] = os.str(); } }
static void prepMod() { mie::ZmZ<Vuint, LFp>::setModulo(sVu[1]); sZ.resize(4); for (int i = 0; i < 4; i++) sZ[i].set(sVu[i == 3 ? 4 : i]); }

template<class T> static void putObj(sch::Out& o, const T& x) { o.put(&x, sizeof(x)); }
static void putV(sch::Out& o, const Vuint& x) { size_t n = x.size(); o.put(&n, 8); o.put(&x[0], n * 8); }
static void putV(sch::Out& o, const Vsint& x) { char s = x.isNegative(); o.put(&s, 1); putV(o, x.get()); }
static void putS(sch::Out& o, const std::string& s) { o.put(s.data(), s.size()); }
static void put(sch::Out& o, int x) { putObj(o, x); }
template<class T> static void putHash(sch::Out& o, const T& x) { uint64_t h = mc::hashBytes(&x, sizeof(x)); putObj(o, h); }
static int nsInt() { return 8; }
static int intOf(int j) { static const int v[] = { 0, 1, -1, 2, -2, 2147483647, -2147483647 - 1, 77 }; return v[j]; }

static void add(const std::string& n, Kind k, const sch::Run& r, void (*prep)() = 0) { TOp t; t.name = n; t.kind = k; t.run = r; if (prep) t.prep = prep; tops.push_back(t); }
static void addTable(const std::vector<Op>& v)
{
	for (size_t i = 0; i < v.size(); i++) {
		const Op op = v[i];
		add(op.name, RAW, [op](int var, sch::Out& o) {
			unsigned char z[1536] __attribute__((aligned(64))); size_t bz = bytes(op.tz);
			const void *x = (op.flags & PRE_UNIT) ? (const void*)&sUnit[var] : (const void*)pool[op.tx][var].b, *y = op.ty == TNONE ? x : (const void*)pool[op.ty][1 - var + 2 * (op.ty == op.tx)].b;
			if (op.flags & INOUT) memcpy(z, pool[op.tz][var + 2].b, bz); else memset(z, 0x5c, bz);
			op.run(z, x, y);
			o.put(z, bz);
		});
	}
}
#define OPV [](int v, sch::Out& o)
#define A1(name, code) add("G1 " name, EC1, OPV { typedef LEc1 E; typedef LFp F_; const E& P = sP1[2 * v]; const E& Q = sP1[2 - 2 * v]; const E& I = sP1[4]; const E& P2_ = sP1[5]; (void)P; (void)Q; (void)I; (void)P2_; E R; memset((void*)&R, 0x11, sizeof(R)); code; });
#define A2(name, code) add("G2 " name, EC2, OPV { typedef LEc2 E; typedef LFp2 F_; const E& P = sP2[2 * v]; const E& Q = sP2[2 - 2 * v]; const E& I = sP2[4]; const E& P2_ = sP2[5]; (void)P; (void)Q; (void)I; (void)P2_; E R; memset((void*)&R, 0x11, sizeof(R)); code; });
#define ABOTH(name, code) A1(name, code) A2(name, code)
#define ABOOL(name, code) add("G1 " name, RAW, OPV { typedef LEc1 E; const E& P = sP1[2 * v]; const E& Q = sP1[2 - 2 * v]; const E& I = sP1[4]; const E& P2_ = sP1[5]; (void)P; (void)Q; (void)I; (void)P2_; code; }); \
	add("G2 " name, RAW, OPV { typedef LEc2 E; const E& P = sP2[2 * v]; const E& Q = sP2[2 - 2 * v]; const E& I = sP2[4]; const E& P2_ = sP2[5]; (void)P; (void)Q; (void)I; (void)P2_; code; });
#define PUT putObj(o, R)
static void buildOps()
{
	std::vector<Op> v;
	fpOps(v); fpInvOps(v); dblOps(v); fp2Ops(v); fp2InvOps(v); dbl2Ops(v); fp6Ops(v); fp6InvOps(v); dbl6Ops(v); fp12Ops(v); fp12InvOps(v); sparseOps(v); frobOps(v); cycloOps(v); fp2COps(v); dbl2COps(v); fp6COps(v); dbl6COps(v); fp12COps(v); fpFastOps(v);
	addTable(v);
	// base field
	add("Fp from int", RAW, OPV { LFp x(sInt[v]); putObj(o, x); });
	add("Fp from text", RAW, OPV { LFp x(sTxt[v]); putObj(o, x); x.set(sHex[1 - v]); putObj(o, x); });
	add("Fp from integer", RAW, OPV { LFp x; LFp::toMont(x, LFp(sInt[v])); putObj(o, x); LFp z(sVu[v ? 5 : 0]); putObj(o, z); });
	add("Fp to text", RAW, OPV { const LFp& x = *(const LFp*)pool[TF][v].b; putS(o, x.toString(10)); putS(o, x.toString(16)); std::ostringstream os; os << x << std::hex << x; putS(o, os.str()); });
	add("Fp get, isOdd", RAW, OPV { const LFp& x = *(const LFp*)pool[TF][v].b; putV(o, x.get()); put(o, x.isOdd()); put(o, LFp::compare(x, *(const LFp*)pool[TF][2].b)); put(o, x == *(const LFp*)pool[TF][v].b); });
	add("Fp from stream", RAW, OPV { std::istringstream is(sTxt[v] + " " + sHex[2]); LFp x, y; is >> x >> y; putObj(o, x); putObj(o, y); });
	add("Fp square root", RAW, OPV { LFp r; bool b = LFp::squareRoot(r, *(const LFp*)pool[TF][v].b); put(o, b); if (b) putObj(o, r); });
	add("Fp power", RAW, OPV { putObj(o, mie::power(*(const LFp*)pool[TF][v].b, sVu[v])); putObj(o, mie::power(*(const LFp*)pool[TF][v].b, sMz[2 - v])); });
	add("Fp2 text", RAW, OPV { std::ostringstream os; os << *(const LFp2*)pool[TF2][v].b; putS(o, os.str()); std::istringstream is(sF2t[v]); LFp2 x; is >> x; putObj(o, x); });
	add("Fp2 power", RAW, OPV { putObj(o, mie::power(*(const LFp2*)pool[TF2][v].b, sVu[v])); });
	add("Fp6 text", RAW, OPV { std::ostringstream os; os << *(const LFp6*)pool[TF6][v].b; putS(o, os.str()); });
	add("Fp12 text", RAW, OPV { std::istringstream is(sF12t[v]); LFp12 x; is >> x; putObj(o, x); std::ostringstream os; os << x; putS(o, os.str()); }, prepTxt);
	add("Fp12 power", RAW, OPV { putObj(o, mie::power(sF12[v], sVu[v])); });
	add("Fp12 comparison", RAW, OPV { put(o, sF12[v] == sF12[1]); put(o, sF12[v] != sF12[0]); put(o, sF12[v].isZero()); });
	add("final_exp", RAW, OPV { LFp12 f(sF12[v]); f.final_exp(); putObj(o, f); });
	add("mapToCyclo", RAW, OPV { LFp12 f(sF12[v]); LFp12 z; f.mapToCyclo(z); putObj(o, z); });
	add("unitary power by z", RAW, OPV { LFp12 f; Compress::fixed_power(f, sUnit[v]); putObj(o, f); });
	add("compressed squaring", RAW, OPV { LFp12 z, z2; Compress c(z, sUnit[v]); Compress::square_n(c, 5); c.decompress(); putObj(o, z); });
	// groups
	ABOTH("add", E::add(R, P, Q); PUT)
	ABOTH("add equal points", E::add(R, P, v ? P : P2_); PUT)
	ABOTH("add infinity", E::add(R, v ? I : P, v ? P : I); PUT)
	ABOTH("sub", E::sub(R, P, Q); PUT)
	ABOTH("dbl", E::dbl(R, P); PUT)
	ABOTH("neg", E::neg(R, P); PUT)
	ABOTH("copy", R = P; PUT)
	ABOTH("mul int", E::mul(R, P, sInt[v]); PUT)
	ABOTH("mul Vuint", E::mul(R, P, sVu[v]); PUT)
	ABOTH("mul mpz", E::mul(R, P, sMz[v ? 3 : 2]); PUT)
	ABOTH("+ and +=", R = P; R += Q; R = R + P; PUT)
	ABOTH("- and -=", R = P; R -= Q; R = R - Q; PUT)
	ABOTH("* and *=", R = P * 5; R *= 3; PUT)
	ABOTH("normalize own copy", R = P; R.normalize(); PUT)
	ABOTH("set", R.set(sizeof(E) ? P2_.p[0] : P2_.p[0], P2_.p[1], P2_.p[2]); PUT)
	A1("from text", std::istringstream is(sPt1[v]); is >> R; PUT)
	A2("from text", std::istringstream is(sPt2[v]); is >> R; PUT)
	ABOOL("==", put(o, P == Q); put(o, P == P2_); put(o, P == I); put(o, P != P2_))
	ABOOL("isValid", put(o, P.isValid()); put(o, I.isZero()); put(o, P.isZero()))
	ABOOL("to text", std::ostringstream os; os << P << I << P2_; putS(o, os.str()))
	add("NormalizeJac", RAW, OPV { LFp t[3]; bn::ecop::NormalizeJac(t, sP1[2 * v].p); o.put(t, sizeof(t)); LFp2 s[3]; bn::ecop::NormalizeJac(s, sP2[2 * v].p); o.put(s, sizeof(s)); });
	add("Frobenius on the twist", RAW, OPV { LFp2 q[3]; bn::ecop::FrobEndOnTwist_1(q, sP2[2 * v + 1].p); o.put(q, 2 * sizeof(LFp2)); bn::ecop::FrobEndOnTwist_2(q, sP2[2 * v + 1].p); o.put(q, 2 * sizeof(LFp2)); bn::ecop::FrobEndOnTwist_8(q, sP2[2 * v + 1].p); o.put(q, 2 * sizeof(LFp2)); });
	add("line evaluation", RAW, OPV { LFp2 t[3] = { sP2[2 * v].p[0], sP2[2 * v].p[1], sP2[2 * v].p[2] }; LFp6 l; LFp6::pointDblLineEval(l, t, sAff1[v]); putObj(o, l); LFp6::pointAddLineEval(l, t, sP2[3 - 2 * v].p, sAff1[v]); putObj(o, l); LFp6::pointDblLineEvalWithoutP(l, t); putObj(o, l); LFp6::pointAddLineEvalWithoutP(l, t, sP2[3 - 2 * v].p); putObj(o, l); o.put(t, sizeof(t)); });
	// pairing
	add("pairing", RAW, OPV { LFp12 f; bn::opt_atePairing(f, sP2[2 * v], sP1[2 * v]); putObj(o, f); });
	add("pairing with infinity", RAW, OPV { LFp12 f; if (v) bn::opt_atePairing(f, sP2[4], sP1[0]); else bn::opt_atePairing(f, sP2[0], sP1[4]); putObj(o, f); });
	add("pairing, affine", RAW, OPV { LFp12 f; bn::opt_atePairing<LFp>(f, sP2[2 * v + 1].p, sAff1[v]); putObj(o, f); });
	add("pairing, Jacobian", RAW, OPV { LFp12 f; bn::opt_atePairingJac<LFp>(f, sP2[2 * v].p, sP1[2 * v].p); putObj(o, f); });
	add("precomputeG2", RAW, OPV { std::vector<LFp6> c; LFp2 q[3]; bn::components::precomputeG2(c, q, sP2[2 * v].p); uint64_t h = mc::hashBytes(&c[0], c.size() * sizeof(c[0])); putObj(o, h); o.put(q, sizeof(q)); });
	add("millerLoop", RAW, OPV { LFp12 f; bn::components::millerLoop(f, sCoef[v], sAff1[v]); putObj(o, f); }, prepCoef);
	add("millerLoop, same point", RAW, OPV { LFp12 f; bn::components::millerLoop(f, sCoef[0], sAff1[v]); putObj(o, f); }, prepCoef);
	add("millerLoop2", RAW, OPV { LFp12 f; bn::components::millerLoop2(f, sCoef[0], sAff1[v], sCoef[1], sAff1[1 - v]); putObj(o, f); }, prepCoef);
	// integers
	add("Vuint add, sub", RAW, OPV { putV(o, sVu[v] + sVu[2]); Vuint z = sVu[1]; z -= sVu[v ? 0 : 2]; putV(o, z); z += 5; putV(o, z); });
	add("Vuint mul", RAW, OPV { putV(o, sVu[v] * sVu[4]); Vuint z; Vuint::mul1(z, sVu[v], 12345); putV(o, z); });
	add("Vuint div", RAW, OPV { Vuint q, r; Vuint::div(&q, r, sVu[1], sVu[v ? 0 : 2]); putV(o, q); putV(o, r); putV(o, sVu[4] / sVu[5]); putV(o, sVu[4] % sVu[0]); putObj(o, Vuint::div1(&q, sVu[4], (mie::Unit)(7 + v))); });
	add("Vuint shift", RAW, OPV { putV(o, sVu[v] << (70 + v)); putV(o, sVu[v] >> (33 + v)); put(o, (int)sVu[v].bitLen()); put(o, sVu[v].testBit(5)); });
	add("Vuint compare", RAW, OPV { put(o, sVu[v] < sVu[2]); put(o, sVu[v] == sVu[0]); put(o, Vuint::compare(sVu[v], sVu[4])); put(o, sVu[3].isZero()); });
	add("Vuint text", RAW, OPV { putS(o, sVu[v].toString(10)); putS(o, sVu[v].toString(16)); Vuint z; z.set(sTxt[v]); putV(o, z); z.set(sHex[v]); putV(o, z); });
	add("Vuint stream", RAW, OPV { std::ostringstream os; os << sVu[v] << std::hex << sVu[v]; putS(o, os.str()); std::istringstream is(sTxt[v]); Vuint z; is >> z; putV(o, z); });
	add("Vuint power", RAW, OPV { putV(o, mie::power(Vuint(3 + v), 40)); });
	add("Vsint arithmetic", RAW, OPV { putV(o, sVs[v] + sVs[2]); putV(o, sVs[v] - sVs[1]); putV(o, sVs[v] * sVs[0]); putV(o, sVs[1] / sVs[v ? 2 : 0]); putV(o, sVs[1] % sVs[v ? 2 : 0]); putV(o, -sVs[v]); put(o, Vsint::compare(sVs[v], sVs[3])); });
	add("Vsint text", RAW, OPV { putS(o, sVs[v].toString(10)); std::ostringstream os; os << sVs[v]; putS(o, os.str()); std::istringstream is("-" + sTxt[v]); Vsint z; is >> z; putV(o, z); z.set("-" + sHex[v]); putV(o, z); });
	add("ZmZ arithmetic", RAW, OPV { putV(o, (sZ[v] + sZ[2]).get()); putV(o, (sZ[v] - sZ[2]).get()); putV(o, (sZ[v + 2] * sZ[2 - 2 * v]).get()); putV(o, (-sZ[v + 2]).get()); ZT a(-5 - v), b(sTxt[0]); putV(o, a.get()); putV(o, b.get()); }, prepMod);
	add("ZmZ inverse", RAW, OPV { ZT z; ZT::inv(z, sZ[2 * v]); putV(o, z.get()); putV(o, (sZ[0] / sZ[2]).get()); putV(o, mie::power(sZ[2 * v], 77).get()); }, prepMod);
	add("NAF", RAW, OPV { std::vector<signed char> t; bn::util::getGoodRepl(t, sVu[v]); o.put(&t[0], t.size()); });
	// scripting-language wrappers
	add("wrapper Mpz", RAW, OPV { ::Mpz a(sInt[v]), b(sTxt[v]); a.add(b); a.mul(b); a.sub(::Mpz(3)); putS(o, a.toString()); put(o, a.compareTo(b)); });
	add("wrapper Fp", RAW, OPV { ::Fp a(sInt[v]), b(sTxt[v]); a.add(b); a.power(::Mpz(-3)); putS(o, a.toString()); });
	add("wrapper Ec1", RAW, OPV { const ::Ec1& P = *(const ::Ec1*)(const void*)&sP1[2 * v]; ::Ec1 a(P); a.mul(::Mpz("-123456789123456789123456789")); a.add(P); a.sub(*(const ::Ec1*)(const void*)&sP1[2]); put(o, a.equals(P)); putS(o, a.toString()); putS(o, P.toString()); });
	add("wrapper pairing", RAW, OPV { ::Fp12 f; f.pairing(*(const ::Ec2*)(const void*)&sP2[2 * v], *(const ::Ec1*)(const void*)&sP1[2 * v]); f.power(::Mpz(3)); putS(o, f.toString()); });
}

// ---- results: the same bytes, or for points the same point
static bool same(const TOp& t, const sch::Out& a, const sch::Out& b)
{
	if (a.n == b.n && memcmp(a.b, b.b, a.n) == 0) return true;
	if (a.n != b.n) return false;
	if (t.kind == EC1) return lib::A(*(const LEc1*)(const void*)a.b) == lib::A(*(const LEc1*)(const void*)b.b);
	if (t.kind == EC2) return lib::A(*(const LEc2*)(const void*)a.b) == lib::A(*(const LEc2*)(const void*)b.b);
	return false;
}
static std::string where(uintptr_t a)
{
	Dl_info d; std::ostringstream os; os << "0x" << std::hex << a;
	if (dladdr((void*)a, &d) && d.dli_sname) os << " (" << d.dli_sname << "+" << a - (uintptr_t)d.dli_saddr << ")";
	return os.str();
}
// data of the C and C++ run-time libraries
static bool inRuntime(uintptr_t a) { Dl_info d; static Dl_info me; static bool got = dladdr((void*)&where, &me); (void)got; return dladdr((void*)a, &d) && d.dli_fname && strcmp(d.dli_fname, me.dli_fname) != 0; }
static uint64_t sigOf(const std::vector<sch::Acc>& w, uint64_t h) { for (size_t k = 0; k < w.size(); k++) h = mc::mix(h, mc::mix(w[k].addr, w[k].rip)); return h; }
static std::set<uint64_t> sigSeen; static double deadline;
static std::vector<uintptr_t> granules(const std::vector<sch::Acc>& w) { std::set<uintptr_t> s; for (size_t i = 0; i < w.size(); i++) { s.insert(w[i].addr >> 5); s.insert((w[i].addr + 31) >> 5); } return std::vector<uintptr_t>(s.begin(), s.end()); }
static std::function<void()> both(const TOp& a, const TOp& b) { std::function<void()> p = a.prep, q = b.prep; return [p, q]() { if (p) p(); if (q) q(); }; }

// all schedules of two operations around the hot locations
static void explore(const TOp& a, int va, const TOp& b, int vb, bool warm, const std::vector<uintptr_t>& hot, const std::string& via, bool rt)
{
	using namespace sch;
	std::function<void()> prep = both(a, b);
	SOut alone[2], s;
	schedule(alone[0], prep, a.run, va, b.run, vb, warm, 0, -1, -1, true, hot, false);
	schedule(alone[1], prep, a.run, va, b.run, vb, warm, 1, -1, -1, true, hot, false);
	if (!alone[0].err.empty() || !alone[1].err.empty()) mc::fail(a.name + " alone: " + alone[0].err + alone[1].err);
	long n[2] = { alone[0].cnt[0], alone[1].cnt[1] };
	mc::step(2);
	long cap = TH() ? 40 : 12;
	// locations of the C and C++ run-time only (reference counts, lazy locale data): one preemption at few places
	for (int first = 0; first < 2; first++) {
		std::vector<long> ks, js; long na = n[first], nb = n[1 - first];
		// every position of the first preemption up to a bound, then evenly spaced ones; the same for the second
		for (long i = 0; i <= na; i++) if (rt ? i % (na / 8 + 1) == 0 : na <= 200 || i < 100 || i % (na / 100 + 1) == 0) ks.push_back(i);
		js.push_back(-1);
		if (!rt) for (long i = 1; i < nb; i++) if (nb <= cap || i < cap / 2 || i % (nb / (cap / 2) + 1) == 0) js.push_back(i);
		for (size_t i = 0; i < ks.size(); i++) for (size_t j = 0; j < js.size(); j++) {
			if (j > 0 && ks.size() > 60 && i % (ks.size() / 30) != 0) continue; // both preemptions: a grid
			if (mc::now() > deadline && (j > 0 || i % (ks.size() / 8 + 1) != 0)) { mc::outcome("schedule left out (time bound)"); continue; }
			if (mc::now() > deadline + (TH() ? 3600 : 150)) { mc::outcome("schedule left out (time bound)"); continue; }
			schedule(s, prep, a.run, va, b.run, vb, warm, first, ks[i], js[j], false, hot, false, 0, 2 * n[0] + 500, 2 * n[1] + 500);
			// the kernel cannot wait on a futex in an inaccessible page: then only stores are scheduling points
			if (s.err == "killed by signal 6") { mc::outcome("schedule at stores only"); schedule(s, prep, a.run, va, b.run, vb, warm, first, ks[i], js[j], false, hot, false, PROT_READ | PROT_EXEC, 2 * n[0] + 500, 2 * n[1] + 500); }
			mc::step(); mc::trace();
			const char *why = 0;
			if (!s.err.empty()) why = s.err.c_str();
			else if (!same(a, s.out[0], alone[0].out[0])) why = "the first operation gives another result than alone";
			else if (!same(b, s.out[1], alone[1].out[1])) why = "the second operation gives another result than alone";
			mc::outcome(s.forced ? "schedule with a blocked thread" : "schedule");
			if (why) {
				std::ostringstream os; os << a.name << " (operands " << va << ") and " << b.name << " (operands " << vb << ") on two threads" << (warm ? "" : ", first use after initialisation") << ", thread " << first << " preempted before shared access " << ks[i] << (js[j] >= 0 ? ", the other before access " + std::to_string(js[j]) : std::string()) << ": " << why << "; shared location written: " << via;
				mc::fail(os.str());
			}
		}
	}
}
static void footprints()
{
	deadline = mc::now() + (TH() ? 3600 : 150);
	for (size_t i = 0; i < tops.size(); i++) {
		const TOp& t = tops[i];
		if (!mc::state(mc::hashStr(t.name))) continue;
		mc::what(t.name);
		for (int cfg = 0; cfg < 4; cfg++) {
			bool warm = cfg & 1; int v = cfg >> 1;
			sch::Foot f;
			sch::footprint(f, t.prep, t.run, v, warm, 1 - v);
			mc::step();
			if (!f.err.empty()) mc::fail(t.name + " on a thread of its own: " + f.err);
			mc::trace();
			mc::outcome(f.w.empty() ? "no store outside the thread" : "stores to shared memory");
			if (mc::wantSample() && i % 9 == 3) mc::sample(t.name + (warm ? ", repeated" : ", first use") + ": " + std::to_string(f.w.size()) + " shared locations written");
			if (f.w.empty()) continue;
			// locations of the program; those of the run-time libraries separately and with less depth
			std::vector<sch::Acc> own, rtw;
			for (size_t k = 0; k < f.w.size(); k++) (inRuntime(f.w[k].addr) ? rtw : own).push_back(f.w[k]);
			if (mc::ctx().verbose) { fprintf(stderr, "%s cfg %d: %zu writes\n", t.name.c_str(), cfg, f.w.size()); for (size_t k = 0; k < f.w.size(); k++) fprintf(stderr, "   %s by %s\n", where(f.w[k].addr).c_str(), where(f.w[k].rip).c_str()); }
			if (!rtw.empty() && (mc::ctx().onlySet || sigSeen.insert(sigOf(rtw, warm)).second)) { mc::outcome("stores to data of the run-time libraries"); explore(t, v, t, 1 - v, warm, granules(rtw), where(rtw[0].addr), true); }
			if (own.empty()) continue;
			if (!mc::ctx().onlySet && !sigSeen.insert(sigOf(own, warm)).second) { mc::outcome("stores already explored with another operation"); continue; }
			std::vector<uintptr_t> hot = granules(own);
			std::string via = where(own[0].addr) + " by " + where(own[0].rip);
			explore(t, v, t, 1 - v, warm, hot, via, false);
			explore(t, v, t, v, warm, hot, via, false);
			// other operations that touch the same locations
			int done = 0;
			for (size_t k = 0; k < tops.size() && done < (TH() ? 30 : 5) && mc::now() < deadline; k++) {
				if (k == i) continue;
				sch::SOut s; sch::schedule(s, both(t, tops[k]), tops[k].run, 1 - v, tops[k].run, v, warm, 0, -1, -1, true, hot, false);
				mc::step();
				if (s.cnt[0] == 0) continue;
				explore(t, v, tops[k], 1 - v, warm, hot, via, false); done++;
			}
		}
	}
}
/*
	Sweeps: one operation over many boundary operands (zero parts, equal and opposite
	operands, every aliasing, long integers, refused texts, ...), so that stores on
	the rarely taken branches are seen too.  An operand that makes the operation store
	to shared memory is then explored like any other operation.
*/
struct Sweep { std::string name; int n; std::function<void(int, sch::Out&)> item; std::function<void()> prep; Kind kind; };
static std::vector<Sweep> sweeps;
static void sweep(const std::string& n, int cnt, const std::function<void(int, sch::Out&)>& f, void (*prep)() = 0, Kind k = RAW) { Sweep s; s.name = n; s.n = cnt; s.item = f; s.kind = k; if (prep) s.prep = prep; sweeps.push_back(s); }
static std::vector<Obj> patterns(int t) // objects whose coefficients vanish, are one, are extreme or dense
{
	int n = ncoef[t], l = ncoefLimbs[t]; std::vector<Obj> al = isDbl(t) ? dblSet(0) : fpSet(0), r;
	const Obj zero(l, 0), d1 = isDbl(t) ? dblSet(1).back() : fpSet(1).back(), &ext = al.back(); Obj one(l, 0), mone(l, 0);
	{ ref::F e = ref::toRaw(ref::Fi(1)), m = ref::toRaw(ref::Fi(-1)); memcpy(&one[0], e.v, 32); memcpy(&mone[0], m.v, 32); }
	auto fill = [&](const Obj& o) { Obj z; for (int i = 0; i < n; i++) z = cat(z, o); r.push_back(z); };
	auto single = [&](int k, const Obj& o, const Obj& rest) { Obj z; for (int i = 0; i < n; i++) z = cat(z, i == k ? o : rest); r.push_back(z); };
	fill(zero); fill(d1); fill(ext); fill(one); single(0, one, zero); single(0, mone, zero);
	if (n > 1) for (int i = 0; i < n; i++) { single(i, zero, d1); single(i, d1, zero); single(i, zero, ext); }
	if (n == 1) for (size_t i = 0; i < al.size(); i++) r.push_back(al[i]);
	{ Obj z; for (int i = 0; i < n; i++) z = cat(z, al[(i * 5 + 1) % al.size()]); r.push_back(z); }
	uniq(r); return r;
}
static std::vector<LFp12> gUnits;
static std::vector<Obj> gPat[9];
static void sweepTable(const std::vector<Op>& v)
{
	for (size_t i = 0; i < v.size(); i++) {
		const Op op = v[i];
		bool unit = (op.flags & PRE_UNIT) != 0, two = op.ty != TNONE;
		int nx = unit ? (int)gUnits.size() : (int)gPat[op.tx].size(), ny = two ? (int)gPat[op.ty].size() : 1;
		sweep(op.name, nx * ny, [op, unit, two, ny](int k, sch::Out& o) {
			unsigned char z[1536] __attribute__((aligned(64))), x[1536] __attribute__((aligned(64))), y[1536] __attribute__((aligned(64))), w[1536] __attribute__((aligned(64)));
			size_t bz = bytes(op.tz), bx = bytes(op.tx), by = two ? bytes(op.ty) : 0;
			if (unit) memcpy(x, &gUnits[k / ny], bx); else memcpy(x, &gPat[op.tx][k / ny][0], bx);
			if (two) memcpy(y, &gPat[op.ty][k % ny][0], by);
			auto nz = [](int t, const unsigned char *p) { size_t b = bytes(t); for (size_t j = 0; j < b; j++) if (p[j]) return true; return false; };
			if ((op.flags & PRE_NZX) && !nz(op.tx, x)) return;
			if ((op.flags & PRE_NZY) && two && !nz(op.ty, y)) return;
			auto run = [&](void *zz, void *xx, void *yy) { if ((op.flags & INOUT) && zz == (void*)z) memcpy(z, pool[op.tz][2].b, bz); op.run(zz, xx, yy); o.n = 0; o.put(zz, bz); };
			run(z, x, two ? y : x);
			if (op.flags & ZX) { memcpy(w, x, bx); run(w, w, two ? y : w); }
			if (two && (op.flags & ZY)) { memcpy(w, y, by); run(w, x, w); }
			if (two && (op.flags & XY)) run(z, x, x);
			if (two && (op.flags & ZXY) && op.tx == op.ty && op.tx == op.tz) { memcpy(w, x, bx); run(w, w, w); }
			if (op.flags & INOUT) { memcpy(z, pool[op.tz][3].b, bz); op.run(z, x, two ? y : x); }
			run(z, x, two ? y : x);
		});
	}
}
template<class E> static std::vector<E> pointSet();
template<class T> static std::vector<typename pts::Grp<T>::E> pointSetT()
{
	typedef pts::Grp<T> G; typedef typename G::R R; typedef ref::Pt<R> P; std::vector<typename G::E> v;
	P g = G::gen(), h = G::other(0), m = g; m.y = g.y - g.y - g.y;
	P a[5] = { g, m, ref::add(g, g), h, ref::infPt<R>() };
	for (int i = 0; i < 5; i++) { std::vector<pts::Rep<T> > r = pts::reps<T>(a[i], 5); for (size_t k = 0; k < r.size(); k++) v.push_back(pts::ec<T>(r[k])); }
	std::vector<P> s = pts::structured(g.x, 2); for (size_t k = 0; k < s.size() && k < 8; k++) v.push_back(pts::ec<T>(pts::reps<T>(s[k], 1)[0]));
	return v;
}
static std::vector<LEc1> gE1; static std::vector<LEc2> gE2; static std::vector<mpz_class> gK; static std::vector<Vuint> gV; static std::vector<std::string> gT;
static std::vector<LFp> gAff; static std::vector<std::vector<LFp6> > gCo;
static Vuint toV(const mpz_class& z) { mp_limb_t w[10]; memset(w, 0, sizeof(w)); size_t n = 0; mpz_export(w, &n, -1, 8, 0, 0, z.get_mpz_t()); Vuint v; v.set((const uint64_t*)w, n ? n : 1); return v; }
template<class E> static void sweepGroup(const char *g, const std::vector<E>& v, Kind kind)
{
	int n = (int)v.size(); std::string G(g);
	sweep(G + "add, sub", n * n, [&v, n](int k, sch::Out& o) { const E &P = v[k / n], &Q = v[k % n]; E R, S; E::add(R, P, Q); S = P; E::add(S, S, Q); S = Q; E::add(S, P, S); E::sub(S, P, Q); S = P; S -= Q; S = P; S += S; S = P; S -= S; S = P + Q; S = P - Q; putObj(o, R); }, 0, kind);
	sweep(G + "==, valid", n * n, [&v, n](int k, sch::Out& o) { const E &P = v[k / n], &Q = v[k % n]; put(o, P == Q); put(o, P != Q); put(o, P.isValid()); put(o, P.isZero()); });
	sweep(G + "dbl, neg, normalize, copy", n, [&v](int k, sch::Out& o) { const E &P = v[k]; E R, S; E::dbl(R, P); S = P; E::dbl(S, S); E::neg(S, P); E::neg(S, S); S = P; S.normalize(); S = P.normalized(); S.clear(); S.set(P.p[0], P.p[1], P.p[2]); S = E(P.p[0], P.p[1], P.p[2], false); putObj(o, R); }, 0, kind);
	sweep(G + "to and from text", n, [&v](int k, sch::Out& o) { std::ostringstream os; os << v[k] << ' '; std::istringstream is(os.str()); E R; is >> R; putS(o, os.str()); });
	sweep(G + "mul", (int)gK.size() * 4, [&v](int k, sch::Out& o) { const E& P = v[(k % 4) * 7 % v.size()]; const mpz_class& m = gK[k / 4]; E R, S; E::mul(R, P, m); S = P; S *= m; E::mul(S, P, (int)m.get_si()); E::mul(S, P, (size_t)m.get_ui()); E::mul(S, P, toV(abs(m))); putObj(o, R); }, 0, kind);
	sweep(G + "points refused", n, [&v](int k, sch::Out& o) { E R; int e = 0; try { R.set(v[k].p[1], v[k].p[0]); } catch (std::exception& x) { e = 1; putS(o, x.what()); } try { E S(v[k].p[1], v[k].p[0], v[k].p[0]); } catch (std::exception&) { e |= 2; } put(o, e); });
}
static void prepCo() { gCo.resize(gE2.size()); for (size_t i = 0; i < gE2.size(); i++) { LFp2 q[3]; bn::components::precomputeG2(gCo[i], q, gE2[i].p); } }
static void prepZ() { mie::ZmZ<Vuint, LFp>::setModulo(sVu[1]); }
template<class T> static void parse(const std::string& s, sch::Out& o) { try { std::istringstream is(s); T x; is >> x; put(o, !is); } catch (std::exception& e) { putS(o, std::string(e.what()).substr(0, 60)); } }
static void buildSweeps()
{
	for (int t = 0; t < 8; t++) gPat[t] = patterns(t);
	{ std::vector<ref::F12> sp = specialCyclo(4); for (size_t i = 0; i < sp.size(); i++) gUnits.push_back(lib::mk<LFp12>(sp[i])); ref::F12 one = ref::mk12(ref::mk6(ref::F2i(1), ref::F2i(0), ref::F2i(0)), ref::mk6(ref::F2i(0), ref::F2i(0), ref::F2i(0))); gUnits.push_back(lib::mk<LFp12>(one)); for (int i = 0; i < 3; i++) gUnits.push_back(sUnit[i]); ref::F12 a = lib::A(sUnit[0]); gUnits.push_back(lib::mk<LFp12>(ref::inv(a))); for (size_t i = 0; i < 2 && i < sp.size(); i++) gUnits.push_back(lib::mk<LFp12>(rootPow2(sp[i], i ? 62 : 55))); }
	gE1 = pointSetT<LFp>(); gE2 = pointSetT<LFp2>();
	const mpz_class& r = ref::curve().r;
	{ const char *k[] = { "0", "1", "-1", "2", "3", "-2", "2147483647", "-2147483648", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "-340282366920938463463374607431768211456" }; for (size_t i = 0; i < sizeof(k) / sizeof(*k); i++) gK.push_back(mpz_class(k[i])); gK.push_back(r); gK.push_back(r - 1); gK.push_back(r + 1); gK.push_back(-r); gK.push_back((mpz_class(1) << 511) - 1); gK.push_back(mpz_class(1) << 320); }
	for (int b = 0; b < 9; b++) { mpz_class m = mpz_class(1) << (64 * b); gV.push_back(toV(m)); if (b < 8) { gV.push_back(toV((m << 64) - 1)); gV.push_back(toV(m * 123456789 + r % m)); } } gV.push_back(toV(0)); gV.push_back(toV((mpz_class(1) << 576) - 1)); gV.push_back(toV(r)); gV.push_back(toV(r * r));
	{ const char *t[] = { "", "0", "00", "0x", "0x0", "-", "-0", "-1", "1", "9", "a", "0xg", "0xA0b", "12a", "0x-1", "1 2", " 7", "+3", "0b1", "_", "[", "]", ",", "[1", "[1,", "[1,2", "[1,2]", "[ 1 , 2 ]", "[1,2]]", "[x,2]", "[[1,2],[3,4],[5,6]]", "[[1,2],\n[3,4],\n[5]]", "[[[1,2],[3,4],[5,6]],[[1,2],[3,4],[5,6]]]", "1_2", "0x1_0x2", "0_0", "[1,2]_[3,4]", "0x1_", "_0x1" }; for (size_t i = 0; i < sizeof(t) / sizeof(*t); i++) gT.push_back(t[i]); gT.push_back(std::string(80, '9')); gT.push_back(std::string(300, '7')); gT.push_back("0x" + std::string(70, 'f')); gT.push_back("0x" + std::string(144, 'f')); gT.push_back("0x" + std::string(145, 'f')); gT.push_back(std::string(500, 'z')); gT.push_back(sPt1[0]); gT.push_back(sPt2[0]); gT.push_back(sF2t[0]); }

	std::vector<Op> v;
	fpOps(v); fpInvOps(v); dblOps(v); fp2Ops(v); fp2InvOps(v); dbl2Ops(v); fp6Ops(v); fp6InvOps(v); dbl6Ops(v); fp12Ops(v); fp12InvOps(v); sparseOps(v); frobOps(v); cycloOps(v); fp2COps(v); dbl2COps(v); fp6COps(v); dbl6COps(v); fp12COps(v); fpFastOps(v); compOps(v);
	sweepTable(v);
	int nf = (int)gPat[TF].size();
	sweep("Fp conversions", nf, [](int k, sch::Out& o) { const LFp& x = *(const LFp*)&gPat[TF][k][0]; putV(o, x.get()); LFp y; y.set(x.get()); y.set(x.toString(10)); y.set(x.toString(16)); std::ostringstream os; os << x << ' ' << std::hex << x << ' '; std::istringstream is(os.str()); is >> y >> y; LFp::toMont(y, x); LFp::fromMont(y, x); put(o, x.isOdd()); put(o, x.isZero()); LFp s; put(o, LFp::squareRoot(s, x)); if (!x.isZero()) { LFp i; LFp::preInv(i, x); i = x; i.inverse(); y = i / x; y /= x; } for (int j = 0; j < nsInt(); j++) { LFp t(intOf(j)); y = t; y = intOf(j); t.set(intOf(j)); put(o, t == x); } });
	sweep("Fp powers", nf * 4, [](int k, sch::Out& o) { const LFp& x = *(const LFp*)&gPat[TF][k / 4][0]; for (size_t j = k % 4; j < gK.size(); j += 4) { if (gK[j] < 0) continue; putHash(o, mie::power(x, gK[j])); mie::power(x, toV(gK[j])); mie::power(x, (int)(gK[j].get_ui() & 0x7fffffff)); mie::power(x, (size_t)gK[j].get_ui()); } });
	sweep("negative power refused", 2, [](int k, sch::Out& o) { try { if (k) mie::power(sF12[0], mpz_class(-1)); else mie::power(LFp(3), -5); } catch (std::exception& e) { putS(o, e.what()); } });
	int n2 = (int)gPat[TF2].size(), n6 = (int)gPat[TF6].size(), n12 = (int)gPat[TF12].size();
	sweep("Fp2 text, powers", n2, [](int k, sch::Out& o) { const LFp2& x = *(const LFp2*)&gPat[TF2][k][0]; std::ostringstream os; os << x << ' ' << std::hex << x << ' '; std::istringstream is(os.str()); LFp2 y; is >> y >> y; y.set(x.toString()); putS(o, os.str()); for (size_t j = 0; j < gK.size(); j += 3) if (gK[j] >= 0) mie::power(x, gK[j]); put(o, x == y); put(o, x.isZero()); LFp2 z(5); z = -x; z.clear(); });
	sweep("Fp6, Fp12 text, powers", n6 + n12, [n6](int k, sch::Out& o) { std::ostringstream os; if (k < n6) { const LFp6& x = *(const LFp6*)&gPat[TF6][k][0]; os << x << ' '; std::istringstream is(os.str()); LFp6 y; is >> y; put(o, x == y); putObj(o, y); LFp6 z(1); z = -x; z.clear(); for (int j = 0; j < 12; j++) if (gK[j] >= 0) mie::power(x, gK[j]); } else { const LFp12& x = *(const LFp12*)&gPat[TF12][k - n6][0]; os << x << ' '; std::istringstream is(os.str()); LFp12 y; is >> y; put(o, x == y); putObj(o, y); LFp12 z(1); z.clear(); z = 1; for (int j = 0; j < 12; j++) if (gK[j] >= 0) mie::power(x, gK[j]); } });
	sweep("final_exp, mapToCyclo", n12, [](int k, sch::Out& o) { LFp12 x = *(const LFp12*)&gPat[TF12][k][0]; if (x.isZero()) return; LFp12 z; x.mapToCyclo(z); x = *(const LFp12*)&gPat[TF12][k][0]; x.final_exp(); putObj(o, x); });
	sweep("unit powers, compressed squaring, final_exp", (int)gUnits.size() * 5, [](int k, sch::Out& o) { static const int ns[] = { 0, 1, 2, 7, 62 }; const LFp12& x = gUnits[k / 5]; LFp12 z; Compress c(z, x); Compress::square_n(c, ns[k % 5]); LFp12 w; Compress d(w, c); c.decompress(); d.decompress(); LFp12 y; { LFp12 u; Compress e(u, x); Compress::square_nC(e, ns[k % 5]); e.decompress(); putObj(o, u); } if (k % 5 == 0) { Compress::fixed_power(y, x); y = x; y.final_exp(); LFp12 t; y = x; y.mapToCyclo(t); putObj(o, y); } });
	// groups and pairings
	sweepGroup("G1 ", gE1, EC1); sweepGroup("G2 ", gE2, EC2);
	int a = (int)gE1.size(), b = (int)gE2.size();
	sweep("pairing", a + b, [a](int k, sch::Out& o) { LFp12 f; const LEc1& P = gE1[k < a ? k : (k - a) * 3 % a]; const LEc2& Q = gE2[k < a ? k * 5 % gE2.size() : k - a]; bn::opt_atePairing(f, Q, P); putObj(o, f); bn::opt_atePairingJac<LFp>(f, Q.p, P.p); });
	sweep("precomputeG2", b, [](int k, sch::Out& o) { std::vector<LFp6> c; LFp2 q[3]; bn::components::precomputeG2(c, q, gE2[k].p); uint64_t h = mc::hashBytes(&c[0], c.size() * sizeof(c[0])); putObj(o, h); bn::components::precomputeG2(c, q, gE2[(k + 1) % gE2.size()].p); LFp2 w[3] = { gE2[k].p[0], gE2[k].p[1], gE2[k].p[2] }; bn::components::precomputeG2(c, w, w); });
	sweep("millerLoop", b, [](int k, sch::Out& o) { LFp12 f; LFp p[2] = { sAff1[k & 1][0], sAff1[k & 1][1] }; bn::components::millerLoop(f, gCo[k], p); putObj(o, f); bn::components::millerLoop2(f, gCo[k], p, gCo[(k * 3 + 1) % gCo.size()], sAff1[1 - (k & 1)]); putObj(o, f); }, prepCo);
	// integers
	int nv = (int)gV.size();
	sweep("Vuint arithmetic", nv * nv, [nv](int k, sch::Out& o) { const Vuint &x = gV[k / nv], &y = gV[k % nv]; Vuint z, w; if (x.size() < 9 || y.size() < 9) { if (x.size() + y.size() <= 17 && (x.size() < 9 || y.bitLen() < 500) && (y.size() < 9 || x.bitLen() < 500) && x.size() < 9 && y.size() < 9) { z = x + y; w = x; w += y; w = y; Vuint::add(w, x, w); } if (x >= y) { z = x - y; w = x; w -= y; w = y; Vuint::sub(w, x, w); } } if (x.size() + y.size() <= 9) { z = x * y; putV(o, z); w = x; w *= y; w = y; Vuint::mul(w, x, w); if (2 * x.size() <= 9) { w = x; w *= w; } } Vuint q, r; bool ok = Vuint::div(&q, r, x, y); if (ok) { putV(o, q); putV(o, r); w = x; w /= y; w = x; w %= y; w = y; Vuint::div(&w, r, x, w); w = y; Vuint::div(&q, w, x, w); w = x; Vuint::div(0, w, w, y); } put(o, x < y); put(o, x == y); put(o, Vuint::compare(x, y)); });
	sweep("Vuint by a word", nv, [](int k, sch::Out& o) { const Vuint& x = gV[k]; const mie::Unit u[] = { 1, 2, 10, 1000000000, 0x8000000000000000ull, ~0ull }; for (int i = 0; i < 6; i++) { Vuint z; if (x.size() < 9) { z = x; z += u[i]; putV(o, z); Vuint::mul1(z, x, u[i]); putV(o, z); } putObj(o, Vuint::div1(&z, x, u[i])); putObj(o, Vuint::div1(0, x, u[i])); Vuint w(x); Vuint::div1(&w, w, u[i]); } putS(o, x.toString(10)); putS(o, x.toString(16)); std::ostringstream os; os << x << std::hex << ' ' << x << ' '; std::istringstream is(os.str()); Vuint a; is >> a >> a; a.set(x.toString(10)); a.set(x.toString(16)); a.set(x.toString(16).substr(2), 16); put(o, (int)x.bitLen()); put(o, x.isZero()); for (int i = 0; i < 600; i += 31) put(o, x.testBit(i)); });
	sweep("Vuint shifts", nv * 20, [](int k, sch::Out& o) { static const int sh[] = { 0, 1, 2, 7, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 200, 256, 320, 511, 575 }; const Vuint& x = gV[k / 20]; int s = sh[k % 20]; Vuint z; if (x.bitLen() + s <= 512 && !(x.isZero() && s > 500)) { z = x << s; putV(o, z); z = x; z <<= s; } z = x >> s; putV(o, z); z = x; z >>= s; });
	sweep("Vsint arithmetic", 14 * 14 * 4, [](int k, sch::Out& o) { Vsint x(gV[(k / 4) / 14]), y(gV[(k / 4) % 14]), z, w; if (k & 1) x = -x; if (k & 2) y = -y; if (x.size() > 8 || y.size() > 8) return; putV(o, x + y); putV(o, x - y); z = x; z += y; z = x; z -= y; w = y; Vsint::sub(w, x, w); if (x.size() + y.size() <= 9) { putV(o, x * y); z = x; z *= y; } if (!y.isZero()) { putV(o, x / y); putV(o, x % y); z = x; z /= y; z = x; z %= y; } putV(o, -x); put(o, x < y); put(o, x == y); put(o, Vsint::compare(x, y)); z.set(x.get()); z.set((int64_t)-5); putV(o, x << 3); if (!x.isNegative()) putV(o, x >> 3); putV(o, x.abs()); std::ostringstream os; os << x << ' '; std::istringstream is(os.str()); is >> z; z.set(x.toString()); });
	sweep("Vuint powers", 60, [](int k, sch::Out& o) { putV(o, mie::power(Vuint(k % 6), k / 6)); });
	sweep("ZmZ", 20 * 20, [](int k, sch::Out& o) { typedef ZT Z; Z x, y; x.set(gV[k / 20]); y.set(gV[k % 20]); putV(o, (x + y).get()); putV(o, (x - y).get()); putV(o, (x * y).get()); putV(o, (-x).get()); Z z = x; z += y; z = x; z -= y; z = x; z *= y; z = y; Z::sub(z, x, z); z = x; Z::sub(z, z, z); put(o, x == y); put(o, x.isZero()); if (!y.isZero()) { Z::inv(z, y); putV(o, z.get()); z = x / y; z = x; z /= y; z = y; z.inverse(); } std::ostringstream os; os << x; putS(o, os.str()); Z i(k - 200); putV(o, i.get()); z.clear(); z.set(x.toString()); }, prepZ);
	sweep("signed digits", 600, [](int k, sch::Out& o) { std::vector<signed char> t; put(o, bn::util::getGoodRepl(t, k < 500 ? Vuint(k + 1) : gV[1 + k % (gV.size() - 1)])); if (!t.empty() && t.size() < 600) o.put(&t[0], t.size()); });
	// texts, most of them refused
	sweep("texts", (int)gT.size(), [](int k, sch::Out& o) { const std::string& s = gT[k]; parse<Vuint>(s, o); parse<Vsint>(s, o); parse<LFp>(s, o); parse<LFp2>(s, o); parse<LFp6>(s, o); parse<LFp12>(s, o); parse<LEc1>(s, o); parse<LEc2>(s, o);
		for (int b = 0; b < 3; b++) try { static const int base[] = { 0, 10, 16 }; Vuint x; x.set(s, base[b]); putV(o, x); Vsint y; y.set(s, base[b]); } catch (std::exception& e) { putS(o, std::string(e.what()).substr(0, 60)); }
		try { LFp x(s); putObj(o, x); } catch (std::exception&) { put(o, 1); } try { LFp2 x; x.set(s); putObj(o, x); } catch (std::exception&) { put(o, 2); } try { ZT x(s); putV(o, x.get()); } catch (std::exception&) { put(o, 3); }
		try { ::Mpz m; m.set(s); putS(o, m.toString()); } catch (std::exception&) { put(o, 4); } try { ::Fp m(s); putS(o, m.toString()); } catch (std::exception&) { put(o, 5); } try { ::Fp2 m(s, s); putS(o, m.toString()); } catch (std::exception&) { put(o, 6); } try { ::Fp2 m; m.set(s); putS(o, m.toString()); } catch (std::exception&) { put(o, 7); }
		try { ::Fp12 m; m.set(s); } catch (std::exception&) { put(o, 8); } try { ::Ec1 m; m.set(s); } catch (std::exception&) { put(o, 9); } try { ::Ec2 m; m.set(s); } catch (std::exception&) { put(o, 10); } }, prepZ);
	// wrapper objects
	sweep("wrapper Mpz", (int)gK.size() * (int)gK.size(), [](int k, sch::Out& o) { int n = (int)gK.size(); ::Mpz x(gK[k / n].get_str()), y(gK[k % n].get_str()), z(x); z.add(y); putS(o, z.toString()); z = x; z.sub(y); z = x; z.mul(y); putS(o, z.toString()); if (gK[k % n] != 0) { z = x; z.mod(y); putS(o, z.toString()); } z.set(5); put(o, x.equals(y)); put(o, x.compareTo(y) > 0); ::Mpz e; e.set(z.toString()); ::Mpz c(3); });
	sweep("wrapper fields", (int)gK.size() * 3, [](int k, sch::Out& o) { const mpz_class& m = gK[k / 3]; ::Mpz e(m.get_str()); if (k % 3 == 0) { ::Fp x(7), y(x), z("12345"); x.power(e); y.add(x); y.sub(z); y.mul(x); put(o, x.equals(y)); putS(o, y.toString()); z.set(3); z.set("0x11"); ::Fp w; w = z; } else if (k % 3 == 1) { ::Fp2 x(3, 5), y(x), z("1", "2"), u(::Fp(1), ::Fp(2)), w(4); x.power(e); y.add(x); y.sub(z); y.mul(u); put(o, x.equals(w)); putS(o, y.toString()); putS(o, x.getA().toString() + x.getB().toString()); w.set("[1,2]"); } else { ::Fp12 x(3), y(x), z; memcpy((void*)&z, &sF12[0], sizeof(sF12[0])); z.power(e); y.add(z); y.sub(x); y.mul(z); put(o, y.equals(z)); putS(o, y.toString()); z.set(y.toString()); } });
	sweep("wrapper groups", a, [a](int k, sch::Out& o) { const ::Ec1 &P = *(const ::Ec1*)(const void*)&gE1[k], &Q = *(const ::Ec1*)(const void*)&gE1[(k * 3 + 1) % a]; ::Ec1 x(P); x.add(Q); x.sub(P); x.dbl(); x.neg(); x.mul(::Mpz(-5)); x.add(x); x.sub(x); put(o, P.isValid()); put(o, P.isZero()); put(o, P.equals(Q)); putS(o, P.toString()); if (!P.isZero()) { ::Ec1 y(P); ::Ec1 z(y.getX(), y.getY(), y.getZ()); ::Ec1 w; w.set(y.toString()); w.set(y.getX(), y.getY(), y.getZ()); putS(o, w.toString()); try { ::Ec1 t(y.getY(), y.getX()); } catch (std::exception&) { put(o, 1); } } x.clear(); x.mul(::Mpz(3));
		size_t kk = k % gE2.size(); const ::Ec2 &R = *(const ::Ec2*)(const void*)&gE2[kk], &S = *(const ::Ec2*)(const void*)&gE2[(kk * 3 + 1) % gE2.size()]; ::Ec2 u(R); u.add(S); u.sub(R); u.dbl(); u.neg(); u.mul(::Mpz(-5)); u.add(u); u.sub(u); put(o, R.isValid()); put(o, R.isZero()); put(o, R.equals(S)); putS(o, R.toString()); if (!R.isZero()) { ::Ec2 y(R); ::Ec2 z(y.getX(), y.getY(), y.getZ()); ::Ec2 w; w.set(y.toString()); putS(o, w.toString()); } u.clear(); ::Fp12 f; f.pairing(R, P); putS(o, GetParamR().toString()); });
}
static bool storesTo(const sch::Foot& f, std::vector<sch::Acc>& own, std::vector<sch::Acc>& rtw) { own.clear(); rtw.clear(); for (size_t k = 0; k < f.w.size(); k++) (inRuntime(f.w[k].addr) ? rtw : own).push_back(f.w[k]); return !own.empty(); }
static void sweepRuns()
{
	deadline = mc::now() + (TH() ? 3600 : 150);
	for (size_t i = 0; i < sweeps.size(); i++) {
		const Sweep& w = sweeps[i];
		if (!mc::state(mc::hashStr(w.name))) continue;
		mc::what(w.name + " over boundary operands");
		sch::Run all = [&w](int, sch::Out& o) { static __thread sch::Out tmp; for (int k = 0; k < w.n; k++) { tmp.n = 0; w.item(k, tmp); } o.put(tmp.b, tmp.n); };
		std::set<uint64_t> reported;
		for (int warm = 0; warm < 2; warm++) {
			sch::Foot f; sch::footprint(f, w.prep, all, 0, warm != 0, 0);
			mc::step(w.n); mc::trace();
			if (!f.err.empty()) mc::fail(w.name + " over boundary operands on a thread of its own: " + f.err);
			std::vector<sch::Acc> own, rtw; storesTo(f, own, rtw);
			mc::outcome(own.empty() ? rtw.empty() ? "no store outside the thread" : "stores to data of the run-time libraries" : "stores to shared memory");
			if (mc::ctx().verbose) { fprintf(stderr, "%s %s: %zu own, %zu run-time\n", w.name.c_str(), warm ? "warm" : "cold", own.size(), rtw.size()); for (size_t k = 0; k < own.size(); k++) fprintf(stderr, "   %s by %s\n", where(own[k].addr).c_str(), where(own[k].rip).c_str()); }
			if (mc::wantSample() && i % 17 == 3) mc::sample(w.name + ": " + std::to_string(w.n) + " operands, " + std::to_string(f.w.size()) + " shared locations written");
			if (own.empty() || !sigSeen.insert(sigOf(own, warm)).second) continue;
			// which operands store: the first few
			std::vector<int> sel; std::vector<uintptr_t> hot = granules(own); std::string via = where(own[0].addr) + " by " + where(own[0].rip);
			int step = w.n / 200 + 1;
			for (int pass = 0; pass < 2 && sel.empty(); pass++) for (int k = 0; k < w.n && sel.size() < 4; k += pass ? 1 : step) {
				if (mc::now() > deadline && !sel.empty()) break;
				sch::Run one = [&w, k](int, sch::Out& o) { w.item(k, o); };
				sch::Foot g; sch::footprint(g, w.prep, one, 0, warm != 0, 0); mc::step();
				std::vector<sch::Acc> o2, r2; if (g.err.empty() && storesTo(g, o2, r2)) sel.push_back(k);
			}
			if (sel.empty()) { mc::outcome("stores only after other operands"); sel.push_back(0); }
			for (size_t x = 0; x < sel.size() && x < 2; x++) {
				int k0 = sel[x], k1 = sel[(x + 1) % sel.size()];
				TOp t; t.name = w.name + " of boundary operands"; t.kind = w.kind; t.prep = w.prep; t.run = [&w, k0, k1](int v, sch::Out& o) { w.item(v ? k1 : k0, o); };
				explore(t, 0, t, 1, warm != 0, hot, via, false);
				if (x == 0) explore(t, 0, t, 0, warm != 0, hot, via, false);
			}
		}
	}
}
static void denseRuns()
{
	const TOp *gen = 0; for (size_t i = 0; i < tops.size(); i++) if (tops[i].name == "Fp12::mul") gen = &tops[i];
	for (size_t i = 0; i < tops.size(); i++) {
		const TOp& t = tops[i];
		if (!mc::state(mc::hashStr(t.name))) continue;
		mc::what(t.name);
		long lim = TH() ? 300000 : 12000; std::string e;
		long n = sch::countInstr(e, t.prep, t.run, 0, lim);
		if (!e.empty()) mc::fail(t.name + " single-stepped: " + e);
		if (n > lim) { mc::outcome("longer than the instruction bound"); continue; }
		for (int k = 0; k < (TH() ? 2 : 1); k++) {
			const TOp& b = k ? *gen : t;
			sch::SOut ref; std::vector<uintptr_t> none; sch::schedule(ref, t.prep, t.run, 0, b.run, 1, true, 0, -1, -1, true, none, false);
			sch::Out o; e = sch::dense(n, o, both(t, b), t.run, 0, b.run, 1);
			mc::step(n); mc::trace(); mc::outcome("operation interrupted at every instruction");
			if (e.empty() && !same(t, o, ref.out[0])) e = "another result than alone";
			if (!e.empty()) mc::fail(t.name + " with " + b.name + " of another thread at every instruction: " + e);
		}
		if (mc::wantSample() && i % 13 == 5) mc::sample(t.name + ": " + std::to_string(n) + " instructions, the other thread's operation between every two");
	}
}
int main(int argc, char **argv)
{
	if (!getenv("LD_BIND_NOW")) { setenv("LD_BIND_NOW", "1", 1); execv("/proc/self/exe", argv); }
	lib::init(argc, argv);
	sch::setup();
	buildPools();
	buildOps();
	mc::domain("shared stores and schedules", footprints);
	buildSweeps();
	mc::domain("shared stores over boundary operands", sweepRuns);
	mc::domain("every instruction", denseRuns);
	return mc::runAll();
}
