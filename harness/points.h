#pragma once
/*
	Point material for the curve harnesses, built with the reference model only:
	generators, further points of the prime-order groups, points of the twist
	outside the prime-order subgroup and of complete small subgroups.
*/
#include "lib.h"
#include "special.h"

namespace pts {
using namespace lib;
using lib::Fp; using lib::FpDbl; using lib::Fp2; using lib::Fp2Dbl; using lib::Fp6; using lib::Fp6Dbl; using lib::Fp12; using lib::Fp12Dbl; using lib::Ec1; using lib::Ec2; using lib::Param; using lib::Compress; using lib::Vuint; using lib::Vsint; using lib::Unit;
typedef ref::Pt<ref::F> P1;
typedef ref::Pt<ref::F2> P2;

inline P1 gen1()
{
	const ref::Curve& c = ref::curve();
	if (c.b == 2) return ref::mkPt(ref::Fi(-1), ref::Fi(1));
	if (c.b == 3) return ref::mkPt(ref::Fi(1), ref::Fi(2));
	return ref::mkPt(ref::Fi(-1), ref::Fi(9));
}
inline ref::F fs(const char *s) { return ref::Fz(mpz_class(s)); }
inline P2 gen2()
{
	const ref::Curve& c = ref::curve();
	if (c.b == 2) return ref::mkPt(ref::mk2(fs("12723517038133731887338407189719511622662176727675373276651903807414909099441"), fs("4168783608814932154536427934509895782246573715297911553964171371032945126671")),
		ref::mk2(fs("13891744915211034074451795021214165905772212241412891944830863846330766296736"), fs("7937318970632701341203597196594272556916396164729705624521405069090520231616")));
	if (c.b == 3) return ref::mkPt(ref::mk2(fs("15267802884793550383558706039165621050290089775961208824303765753922461897946"), fs("9034493566019742339402378670461897774509967669562610788113215988055021632533")),
		ref::mk2(fs("644888581738283025171396578091639672120333224302184904896215738366765861164"), fs("20532875081203448695448744255224543661959516361327385779878476709582931298750")));
	return ref::mkPt(ref::mk2(fs("7281644703356799059368313064438243279269372005747477888712173236228325795991"), fs("15160700668152503952980485502602536850541312794041965342451842375663084147486")),
		ref::mk2(fs("13523979532236795535820810482891703536907572704519492618036353386190612673074"), fs("15929067770616689398844794432758732907995965312283969374632681891490787470887")));
}
// i-th point of E(Fp) in the order of x = 0, 1, 2, ...
inline P1 hash1(int n)
{
	const mpz_class& p = ref::curve().p;
	for (int x = 0;; x++) {
		ref::F X = ref::Fi(x), v = X * X * X + ref::Fi(ref::curve().b), y = ref::pow(v, (p + 1) / 4);
		if (y * y == v && n-- == 0) return ref::mkPt(X, y);
	}
}
// n-th point of the twist (any order)
inline P2 twistPt(int n)
{
	for (int x = 0;; x++) {
		ref::F2 X = ref::F2i(x % 7, x / 7), v = X * X * X + ref::twistB(), y;
		if (sqrtF2(y, v) && n-- == 0) return ref::mkPt(X, y);
	}
}
// cube roots in Fp and Fp2; the cofactor 3^s of the group order is searched
template<class R> inline bool cubeRoot(R& y, const R& x, const mpz_class& q, const R& one, const std::vector<R>& cand)
{
	if (x.isZero()) { y = x; return true; }
	mpz_class m = q - 1, e, three = 3; int n = 1; while (m % 3 == 0) { m /= 3; n *= 3; }
	R z = one; for (size_t i = 0; i < cand.size(); i++) { z = ref::pow(cand[i], m); if (n > 1 && ref::pow(z, n / 3) != one) break; }
	mpz_invert(e.get_mpz_t(), three.get_mpz_t(), m.get_mpz_t());
	y = ref::pow(x, e);
	for (int i = 0; i < n; i++) { if (y * y * y == x) return true; y = y * z; }
	return false;
}
inline bool cubeRoot(ref::F& y, const ref::F& x) { std::vector<ref::F> c; for (int i = 2; i < 40; i++) c.push_back(ref::Fi(i)); return cubeRoot<ref::F>(y, x, ref::curve().p, ref::Fi(1), c); }
inline bool cubeRoot(ref::F2& y, const ref::F2& x) { std::vector<ref::F2> c; for (int i = 1; i < 40; i++) c.push_back(ref::F2i(i % 6, 1 + i / 6)); return cubeRoot<ref::F2>(y, x, ref::curve().p * ref::curve().p, ref::F2i(1), c); }
inline ref::F rawF(const mpz_class& x) { mp_limb_t w[4]; ref::fromMpz(w, 4, x); ref::F f; memcpy(f.v, w, 32); return ref::fromRaw(f); }
inline bool sqrtF(ref::F& y, const ref::F& x) { y = ref::pow(x, (ref::curve().p + 1) / 4); return y * y == x; }
/*
	Points whose coordinates have special shapes: small, with a vanishing part, limbs
	of the stored form vanishing; consecutive ones share parts of a coordinate, so
	that the differences inside the group law have special shapes too.
*/
inline std::vector<P1> structured(const ref::F&, int n)
{
	std::vector<P1> v; ref::F x, y; ref::F b = ref::Fi(ref::curve().b);
	auto add = [&](const ref::F& X, const ref::F& Y) { P1 q = ref::mkPt(X, Y); if (!ref::onG1(q)) mc::fail("model error: structured point"); v.push_back(q); };
	int k = 0; for (int i = 0; i < 200 && k < n; i++) if (sqrtF(y, ref::Fi(i) * ref::Fi(i) * ref::Fi(i) + b)) { add(ref::Fi(i), y); k++; }
	k = 0; for (int i = 1; i < 200 && k < n; i++) if (cubeRoot(x, ref::Fi(i) * ref::Fi(i) - b)) { add(x, ref::Fi(i)); k++; }
	for (int sh = 0; sh < 256; sh += 64) { k = 0; for (int i = 1; i < 200 && k < (n + 1) / 2; i++) { mpz_class r = mpz_class(i) << sh; if (r >= ref::curve().p) break; ref::F X = rawF(r); if (sqrtF(y, X * X * X + b)) { add(X, y); k++; } if (cubeRoot(x, X * X - b)) add(x, X); } }
	return v;
}
inline std::vector<P2> structured(const ref::F2&, int n)
{
	std::vector<P2> v; ref::F2 x, y; ref::F2 b = ref::twistB();
	auto add = [&](const ref::F2& X, const ref::F2& Y) { P2 q = ref::mkPt(X, Y); if (!ref::onG2(q)) mc::fail("model error: structured point"); v.push_back(q); };
	for (int sh = 0; sh < 4; sh++) { // (i, 0), (0, i), (1, i), (i, 1)
		int k = 0, l = 0;
		for (int i = 0; i < 400 && (k < n || l < n); i++) {
			ref::F2 X = sh == 0 ? ref::F2i(i, 0) : sh == 1 ? ref::F2i(0, i) : sh == 2 ? ref::F2i(1, i) : ref::F2i(i, 1);
			if (k < n && sqrtF2(y, X * X * X + b)) { add(X, y); k++; }
			if (l < n && !X.isZero() && cubeRoot(x, X * X - b)) { add(x, X); l++; }
		}
	}
	for (int sh = 0; sh < 256; sh += 64) { int k = 0; for (int i = 1; i < 30 && k < (n + 1) / 2; i++) { mpz_class r = mpz_class(i) << sh; if (r >= ref::curve().p) break; ref::F2 X = ref::mk2(rawF(r), rawF(0)); if (sqrtF2(y, X * X * X + b)) { add(X, y); k++; } X = ref::mk2(rawF(0), rawF(r)); if (cubeRoot(x, X * X - b)) add(x, X); } }
	return v;
}
inline mpz_class cofactor() { return 2 * ref::curve().p - ref::curve().r; }
inline P2 hash2(int n) { return ref::mul(twistPt(n), cofactor()); }
// small prime dividing the twist order
inline int smallOrder() { return ref::curve().b == 2 ? 13 : 10069; }
inline P2 smallPt()
{
	mpz_class k = cofactor() * ref::curve().r; int q = smallOrder();
	if (k % q != 0) mc::fail("model error: twist order");
	k /= q;
	if (ref::curve().b == 82) return ref::infPt<ref::F2>(); // (another twist order; see smallOk)
	for (int n = 0; ; n++) { P2 R = ref::mul(twistPt(n), k); if (!R.inf) return R; }
}
template<class T> struct Grp;
template<> struct Grp<Fp> { typedef ref::F R; typedef Ec1 E; static P1 gen() { return gen1(); } static P1 other(int n) { return hash1(n + 2); }
	static const char *name() { return "G1"; } static bool on(const P1& p) { return ref::onG1(p); } };
template<> struct Grp<Fp2> { typedef ref::F2 R; typedef Ec2 E; static P2 gen() { return gen2(); } static P2 other(int n) { return hash2(n); }
	static const char *name() { return "G2"; } static bool on(const P2& p) { return ref::onG2(p); } };

// Z coordinates of the representations
template<class R> struct Zs;
inline ref::F raw1(const mpz_class& x) { mp_limb_t w[4]; ref::fromMpz(w, 4, x); ref::F f; memcpy(f.v, w, 32); return ref::fromRaw(f); }
template<> struct Zs<ref::F> { static std::vector<ref::F> all(int n) { std::vector<ref::F> v; v.push_back(ref::Fi(1)); v.push_back(ref::Fi(2)); v.push_back(ref::Fi(-1)); v.push_back(raw1(1)); v.push_back(ref::Fz(mpz_class("31415926535897932384626433832795028841971693993751058209749445923078164062862"))); v.push_back(raw1(ref::curve().p - 1)); v.push_back(ref::Fi(3)); if ((int)v.size() > n) v.resize(n); return v; } };
template<> struct Zs<ref::F2> { static std::vector<ref::F2> all(int n) { std::vector<ref::F2> v; v.push_back(ref::F2i(1)); v.push_back(ref::F2i(0, 1)); v.push_back(ref::F2i(-1)); v.push_back(ref::mk2(raw1(1), raw1(ref::curve().p - 1))); v.push_back(ref::mk2(ref::Fz(mpz_class("27182818284590452353602874713526624977572470936999595749669676277240766303535")), ref::Fi(5))); v.push_back(ref::F2i(2)); v.push_back(ref::F2i(1, 1)); if ((int)v.size() > n) v.resize(n); return v; } };

// a concrete representation of a point
template<class T> struct Rep { T c[3]; ref::Pt<typename Grp<T>::R> a; };
template<class T> inline std::vector<Rep<T> > reps(const ref::Pt<typename Grp<T>::R>& a, int n)
{
	typedef typename Grp<T>::R R;
	std::vector<Rep<T> > v;
	std::vector<R> zs = Zs<R>::all(n);
	if (!a.inf) {
		for (size_t i = 0; i < zs.size(); i++) { Rep<T> r; r.a = a; Cpt(r.c, a, zs[i]); v.push_back(r); }
	} else { // infinity with any leftover X and Y
		Rep<T> r; r.a = a; memset((void*)r.c, 0, sizeof(r.c)); v.push_back(r);
		ref::Pt<R> g = Grp<T>::gen();
		if (n >= 2) { C(r.c[0], g.x); C(r.c[1], g.y); v.push_back(r); }
		if (n >= 3) { C(r.c[0], zs[0]); C(r.c[1], zs[0]); v.push_back(r); }
		if (n >= 4) { C(r.c[0], g.x - g.x); C(r.c[1], zs[1]); v.push_back(r); }
		if (n >= 5) { C(r.c[0], zs[2]); C(r.c[1], g.x - g.x); v.push_back(r); }
	}
	return v;
}
template<class T> inline typename Grp<T>::E ec(const Rep<T>& r) { typename Grp<T>::E e; memcpy((void*)e.p, r.c, sizeof(r.c)); return e; }
template<class T> inline std::string show(const T *p) { return "(" + ref::str(A(p[0])) + " : " + ref::str(A(p[1])) + " : " + ref::str(A(p[2])) + ")"; }
template<class T> inline bool canon3(const T *p) { return canon(p[0]) && canon(p[1]) && canon(p[2]); }
template<class R> inline R zeroOf(const R& x) { return x - x; }

} // pts
