/*
	C12 big integers, C13 integers modulo m, and the aliasing part of C16 for both.
	Oracle: GMP.
*/
#include <fenv.h>
#include "mc.h"
#include "zm.h"
#include <gmpxx.h>
#include <algorithm>
#include <set>

typedef mie::Vuint Vuint;
typedef mie::VuintT<mie::local::VariableBuffer<mie::Unit> > Vvar;
typedef mie::VsintT<Vuint> Vsint;
typedef uint64_t u64;
typedef mie::local::PrimitiveFunction PF;
static const size_t CAP = MIE_ZM_VUINT_BIT_LEN / 64;
static bool TH() { return true; } // the bounds below are affordable on every change
static bool XH() { return mc::ctx().thorough(); }

// ------------------------------------------------------------ model values
typedef std::vector<u64> W; // little endian limbs, normalised, at least one
static W norm(W w) { while (w.size() > 1 && w.back() == 0) w.pop_back(); if (w.empty()) w.push_back(0); return w; }
static mpz_class Z(const W& w) { mpz_class r; mpz_import(r.get_mpz_t(), w.size(), -1, 8, 0, 0, &w[0]); return r; }
static W limbs(const mpz_class& x) { W w((mpz_sizeinbase(x.get_mpz_t(), 2) + 63) / 64 + 1, 0); size_t n = 0; mpz_export(&w[0], &n, -1, 8, 0, 0, x.get_mpz_t()); w.resize(n); return norm(w); }
static size_t nl(const mpz_class& x) { size_t n = mpz_size(x.get_mpz_t()); return n ? n : 1; }
static std::string hx(const mpz_class& x) { return (x < 0 ? "-0x" : "0x") + mpz_class(abs(x)).get_str(16); }
static mpz_class P2(int n) { return mpz_class(1) << n; }

struct Val { W w; mpz_class z; };
static Val mkv(const mpz_class& z) { Val v; v.z = z; v.w = limbs(z); return v; }
static Val mkw(const W& w) { Val v; v.w = norm(w); v.z = Z(v.w); return v; }

static u64 junk[12];
template<class V> struct Junk;
template<> struct Junk<Vuint> { static void fill(Vuint& v, size_t n) { v.set(junk, CAP); v.set(junk, n ? n : 1); } };
template<> struct Junk<Vvar> { static void fill(Vvar& v, size_t n) { v.set(junk, 12); v.set(junk, n ? n : 1); } };
// an object holding x on top of the leftovers of a larger value
template<class V> static void put(V& v, const Val& x) { Junk<V>::fill(v, 9); v.set(&x.w[0], x.w.size()); }
template<class V> static mpz_class get(const V& v) { mpz_class r; mpz_import(r.get_mpz_t(), v.size(), -1, 8, 0, 0, &v[0]); return r; }
template<class V> static bool eqw(const V& v, const W& w)
{
	if (v.size() != w.size()) return false;
	for (size_t i = 0; i < w.size(); i++) if (v[i] != w[i]) return false;
	return true;
}
// compare with a GMP value without allocating
template<class V> static bool eqz(const V& v, const mpz_class& z)
{
	size_t n = mpz_size(z.get_mpz_t());
	if (n == 0) return v.size() == 1 && v[0] == 0;
	if (v.size() != n || z < 0) return false;
	for (size_t i = 0; i < n; i++) if (v[i] != mpz_getlimbn(z.get_mpz_t(), i)) return false;
	return true;
}
template<class V> static std::string sh(const V& v) { std::ostringstream os; os << hx(get(v)) << " (" << v.size() << " limbs)"; return os.str(); }

struct Case { const char *op; const Val *x, *y; };
static Case g;
static std::string desc(const char *op) { std::string s = op; if (g.x) s += " x=" + hx(g.x->z); if (g.y) s += " y=" + hx(g.y->z); return s; }
static void at(const Val *x, const Val *y = 0) { g.x = x; g.y = y; if (mc::ctx().onlySet) mc::what(desc("at")); }
template<class V> static void ck(const V& v, const mpz_class& z, const char *op) { mc::step(); if (!eqz(v, z)) mc::fail(desc(op) + ": got " + sh(v) + " instead of " + hx(z)); }
template<class V> static void un(const V& v, const Val& x, const char *op) { if (!eqw(v, x.w)) mc::fail(desc(op) + ": an operand was changed to " + sh(v)); }
static void ok(bool b, const char *op) { mc::step(); if (!b) mc::fail(desc(op)); }

// ------------------------------------------------------------ operations on a pair
template<class V> static bool fits(size_t n) { return n <= CAP; }
template<> bool fits<Vvar>(size_t) { return true; }

template<class V> static void addSub(const Val& x, const Val& y)
{
	V a, b, o; put(a, x); put(b, y);
	const mpz_class s = x.z + y.z;
	size_t m = std::max(x.w.size(), y.w.size());
	if (fits<V>(nl(s))) {
		Junk<V>::fill(o, 5); V::add(o, a, b); ck(o, s, "add"); un(a, x, "add"); un(b, y, "add");
		o = a; V::add(o, o, b); ck(o, s, "add out=x"); un(b, y, "add out=x");
		o = b; V::add(o, a, o); ck(o, s, "add out=y"); un(a, x, "add out=y");
		o = a + b; ck(o, s, "operator+");
		o = a; o += b; ck(o, s, "+=");
		if (y.w.size() == 1) {
			Junk<V>::fill(o, 3); V::add(o, a, y.w[0]); ck(o, s, "add(limb)"); un(a, x, "add(limb)");
			o = a; V::add(o, o, y.w[0]); ck(o, s, "add(limb) out=x");
			o = a; o += y.w[0]; ck(o, s, "+= limb");
			if (y.w[0] <= 0x7fffffff) { o = a; o += (int)y.w[0]; ck(o, s, "+= int"); }
		}
		if (&x == &y) { o = a; V::add(o, o, o); ck(o, s, "add out=x=y"); o = a; o += o; ck(o, s, "+= itself"); V::add(o, a, a); ck(o, s, "add x=y"); }
	}
	(void)m;
	if (x.z >= y.z) {
		const mpz_class d = x.z - y.z;
		Junk<V>::fill(o, 5); V::sub(o, a, b); ck(o, d, "sub"); un(a, x, "sub"); un(b, y, "sub");
		o = a; V::sub(o, o, b); ck(o, d, "sub out=x"); un(b, y, "sub out=x");
		o = b; V::sub(o, a, o); ck(o, d, "sub out=y"); un(a, x, "sub out=y");
		o = a - b; ck(o, d, "operator-");
		o = a; o -= b; ck(o, d, "-=");
		if (&x == &y) { o = a; V::sub(o, o, o); ck(o, d, "sub out=x=y"); o = a; o -= o; ck(o, d, "-= itself"); }
	}
	int c = cmp(x.z, y.z), r = V::compare(a, b);
	ok((r > 0 ? 1 : r < 0 ? -1 : 0) == c, "compare");
	ok((a < b) == (c < 0) && (a > b) == (c > 0) && (a <= b) == (c <= 0) && (a >= b) == (c >= 0) && (a == b) == (c == 0) && (a != b) == (c != 0), "comparison operators");
}
template<class V> static void mulOps(const Val& x, const Val& y)
{
	size_t xn = x.w.size(), yn = y.w.size();
	V a, b, o; put(a, x); put(b, y);
	const mpz_class p = x.z * y.z;
	if (yn == 1 && fits<V>(xn + 1)) {
		Junk<V>::fill(o, 5); V::mul1(o, a, y.w[0]); ck(o, p, "mul1"); un(a, x, "mul1");
		o = a; V::mul1(o, o, y.w[0]); ck(o, p, "mul1 out=x");
	}
	if (!fits<V>(xn + yn)) return;
	Junk<V>::fill(o, 5); V::mul(o, a, b); ck(o, p, "mul"); un(a, x, "mul"); un(b, y, "mul");
	o = a; V::mul(o, o, b); ck(o, p, "mul out=x"); un(b, y, "mul out=x");
	o = b; V::mul(o, a, o); ck(o, p, "mul out=y"); un(a, x, "mul out=y");
	o = a * b; ck(o, p, "operator*");
	o = a; o *= b; ck(o, p, "*=");
	if (&x == &y) { o = a; V::mul(o, o, o); ck(o, p, "mul out=x=y"); V::mul(o, a, a); ck(o, p, "mul x=y"); o = a; o *= o; ck(o, p, "*= itself"); }
}
template<class V> static void divOps(const Val& x, const Val& y)
{
	V a, b, q, r; put(a, x); put(b, y);
	if (y.z == 0) {
		Junk<V>::fill(q, 5); Junk<V>::fill(r, 4); V q0 = q, r0 = r;
		ok(!V::div(&q, r, a, b), "division by zero not reported"); ok(!V::div(0, r, a, b), "remainder by zero not reported");
		ok(q == q0 && r == r0, "division by zero computed something"); un(a, x, "div"); un(b, y, "div");
		return;
	}
	mpz_class Q, R; mpz_fdiv_qr(Q.get_mpz_t(), R.get_mpz_t(), x.z.get_mpz_t(), y.z.get_mpz_t());
	Junk<V>::fill(q, 9); Junk<V>::fill(r, 7);
	ok(V::div(&q, r, a, b), "div reports failure"); ck(q, Q, "div quotient"); ck(r, R, "div remainder"); un(a, x, "div"); un(b, y, "div");
	Junk<V>::fill(r, 2); ok(V::div(0, r, a, b), "div without quotient reports failure"); ck(r, R, "remainder only"); un(a, x, "div"); un(b, y, "div");
	q = a; Junk<V>::fill(r, 1); V::div(&q, r, q, b); ck(q, Q, "div q=x quotient"); ck(r, R, "div q=x remainder"); un(b, y, "div q=x");
	q = b; V::div(&q, r, a, q); ck(q, Q, "div q=y quotient"); ck(r, R, "div q=y remainder"); un(a, x, "div q=y");
	r = a; V::div(&q, r, r, b); ck(q, Q, "div r=x quotient"); ck(r, R, "div r=x remainder"); un(b, y, "div r=x");
	r = b; V::div(&q, r, a, r); ck(q, Q, "div r=y quotient"); ck(r, R, "div r=y remainder"); un(a, x, "div r=y");
	q = a; r = b; V::div(&q, r, q, r); ck(q, Q, "div q=x r=y quotient"); ck(r, R, "div q=x r=y remainder");
	q = b; r = a; V::div(&q, r, r, q); ck(q, Q, "div q=y r=x quotient"); ck(r, R, "div q=y r=x remainder");
	r = a; V::div(0, r, r, b); ck(r, R, "remainder r=x"); r = b; V::div(0, r, a, r); ck(r, R, "remainder r=y");
	q = a / b; ck(q, Q, "operator/"); q = a % b; ck(q, R, "operator%");
	q = a; q /= b; ck(q, Q, "/="); q = a; q %= b; ck(q, R, "%=");
	if (&x == &y) {
		V::div(&q, r, a, a); ck(q, 1, "div x=y quotient"); ck(r, 0, "div x=y remainder"); un(a, x, "div x=y");
		q = a; V::div(&q, r, q, q); ck(q, 1, "div q=x=y quotient"); ck(r, 0, "div q=x=y remainder");
		r = a; V::div(&q, r, r, r); ck(q, 1, "div r=x=y quotient"); ck(r, 0, "div r=x=y remainder");
		q = a; q /= q; ck(q, 1, "/= itself"); q = a; q %= q; ck(q, 0, "%= itself");
	}
	if (y.w.size() == 1) {
		Junk<V>::fill(q, 5); u64 m = V::div1(&q, a, y.w[0]); ck(q, Q, "div1"); ok(R == mpz_class((unsigned long)m), "div1 remainder"); un(a, x, "div1");
		q = a; m = V::div1(&q, q, y.w[0]); ck(q, Q, "div1 q=x"); ok(R == mpz_class((unsigned long)m), "div1 q=x remainder");
		m = V::div1(0, a, y.w[0]); ok(R == mpz_class((unsigned long)m), "mod1"); un(a, x, "mod1");
	}
	mc::outcome(Q == 0 ? "quotient 0" : Q == 1 ? "quotient 1" : R == 0 ? "exact division" : "general division");
}
template<class V> static void shiftOps(const Val& x, size_t n)
{
	V a, o; put(a, x);
	const mpz_class l = x.z << n, r = x.z >> n;
	if (fits<V>(x.w.size() + n / 64) && fits<V>(nl(l))) {
		Junk<V>::fill(o, 4); V::shl(o, a, n); ck(o, l, "shl"); un(a, x, "shl");
		o = a; V::shl(o, o, n); ck(o, l, "shl in place");
		o = a << n; ck(o, l, "operator<<"); o = a; o <<= n; ck(o, l, "<<="); un(a, x, "<<");
	}
	Junk<V>::fill(o, 6); V::shr(o, a, n); ck(o, r, "shr"); un(a, x, "shr");
	o = a; V::shr(o, o, n); ck(o, r, "shr in place");
	o = a >> n; ck(o, r, "operator>>"); o = a; o >>= n; ck(o, r, ">>="); un(a, x, ">>");
	{ V t; Junk<V>::fill(t, 6); t = a; ok(t.testBit(n) == (mpz_tstbit(x.z.get_mpz_t(), n) != 0), "testBit"); }
}
template<class V> static void unOps(const Val& x)
{
	V a; put(a, x);
	ok(a.bitLen() == (x.z == 0 ? 0 : mpz_sizeinbase(x.z.get_mpz_t(), 2)), "bitLen");
	ok(a.isZero() == (x.z == 0), "isZero"); ok(a.size() == x.w.size(), "size");
	for (size_t i = 0; i < 14; i++) ok(a.getAtWithCheck(i) == (i < x.w.size() ? x.w[i] : 0), "getAtWithCheck");
	V b(a); ck(b, x.z, "copy"); V c(&x.w[0], x.w.size()); ck(c, x.z, "from limbs");
	b = b; ck(b, x.z, "self assignment");
	{ V t; Junk<V>::fill(t, 6); t = a;
	for (size_t w = 0; w < 24; w++) { static const int bt[] = { 0, 1, 31, 32, 62, 63 }; for (int i = 0; i < 6; i++) { const size_t n = w * 64 + bt[i]; ok(t.testBit(n) == (mpz_tstbit(x.z.get_mpz_t(), n) != 0), "testBit above and below the highest limb"); } }
	ok(!t.testBit((size_t)1 << 20) && !t.testBit(~(size_t)0), "testBit far above"); }
	std::vector<uint32_t> h; for (size_t i = 0; i < x.w.size(); i++) { h.push_back((uint32_t)x.w[i]); h.push_back((uint32_t)(x.w[i] >> 32)); }
	V d(&h[0], h.size()); ck(d, x.z, "from 32-bit words"); d.set(&h[0], h.size()); ck(d, x.z, "set 32-bit words");
	for (size_t n = 0; n <= h.size(); n++) { mpz_class t = n ? mpz_class() : mpz_class(0); mpz_import(t.get_mpz_t(), n, -1, 4, 0, 0, &h[0]); Junk<V>::fill(d, 6); d.set(&h[0], n); ck(d, t, "set leading 32-bit words"); }
	for (size_t n = 0; n <= x.w.size(); n++) { mpz_class t; mpz_import(t.get_mpz_t(), n, -1, 8, 0, 0, &x.w[0]); Junk<V>::fill(d, 6); d.set(&x.w[0], n); ck(d, t, "set leading limbs"); }
	if (x.w.size() == 1) { V e(x.w[0]); ck(e, x.z, "from limb"); e = a; e.set(x.w[0]); ck(e, x.z, "set limb"); }
	d = a; d.clear(); ck(d, 0, "clear"); un(a, x, "unary");
	if (x.w.size() < CAP) { W p = x.w; d.set(&x.w[0], x.w.size()); d.trim(); ck(d, x.z, "trim"); }
}

// ------------------------------------------------------------ alphabets
static std::vector<u64> limbAlpha(int k)
{
	static const u64 a[] = { 0, 1, ~0ULL, 1ULL << 63, 2, ~0ULL - 1, (1ULL << 63) - 1, (1ULL << 63) + 1, 1ULL << 32, (1ULL << 32) - 1, 0x9e3779b97f4a7c15ULL, (1ULL << 32) + 1, 1ULL << 53, (1ULL << 53) - 1, (1ULL << 53) + 1, 3, 1ULL << 52, ~((1ULL << 11) - 1), ~0ULL << 32, (1ULL << 62) + 1, 10, 1000000000, 0x5555555555555555ULL, ~0ULL >> 11 };
	return std::vector<u64>(a, a + std::min<size_t>(k, sizeof(a) / sizeof(a[0])));
}
static void uniq(std::vector<Val>& v)
{
	std::sort(v.begin(), v.end(), [](const Val& a, const Val& b) { return a.z < b.z; });
	v.erase(std::unique(v.begin(), v.end(), [](const Val& a, const Val& b) { return a.z == b.z; }), v.end());
}
static void product(std::vector<Val>& v, int len, int k)
{
	std::vector<u64> a = limbAlpha(k); W w(len); std::vector<int> i(len, 0);
	for (;;) {
		for (int j = 0; j < len; j++) w[j] = a[i[j]];
		if (len == 1 || w[len - 1]) v.push_back(mkw(w));
		int j = 0; while (j < len && ++i[j] == (int)a.size()) i[j++] = 0;
		if (j == len) break;
	}
}
// every length up to the capacity: uniform limbs with one odd limb, and powers of two with neighbours
static void patterns(std::vector<Val>& v, int maxLen, int k)
{
	std::vector<u64> a = limbAlpha(k);
	for (int n = 1; n <= maxLen; n++) for (size_t b = 0; b < a.size(); b++) for (size_t o = 0; o < a.size(); o++) for (int p = 0; p < n; p++) {
		W w(n, a[b]); w[p] = a[o]; if (n > 1 && !w[n - 1]) continue; v.push_back(mkw(w));
	}
}
static void powers(std::vector<Val>& v, int maxBits, int stepBits)
{
	for (int i = 0; i <= maxBits; i += stepBits) for (int d = -1; d <= 1; d++) { if (i == maxBits && d >= 0) continue; mpz_class z = P2(i) + d; if (z >= 0) v.push_back(mkv(z)); }
}
static uint64_t hv(const Val& x, uint64_t h) { return mc::hashBytes(&x.w[0], x.w.size() * 8, mc::mix(h, x.w.size())); }
static uint64_t hp(const Val& x, const Val& y) { return hv(y, hv(x, 11)); }

template<class V> static void all(const Val& x, const Val& y) { at(&x, &y); addSub<V>(x, y); mulOps<V>(x, y); divOps<V>(x, y); }
template<class V> static void pairs(const std::vector<Val>& v, const std::vector<Val>& u)
{
	for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < u.size(); j++) {
		if (!mc::state(hp(v[i], u[j]))) continue;
		all<V>(v[i], u[j]);
		if (&v == &u && i == j) all<V>(v[i], v[i]);
		if (mc::wantSample() && (i * 7 + j) % 1009 == 5) mc::sample("x=" + hx(v[i].z) + " y=" + hx(u[j].z));
	}
}

// ------------------------------------------------------------ limb primitives
struct Prims { bool (*addN)(u64*, const u64*, const u64*, size_t); bool (*add1)(u64*, const u64*, size_t, u64); bool (*subN)(u64*, const u64*, const u64*, size_t); bool (*sub1)(u64*, const u64*, size_t, u64); void (*mul1)(u64*, const u64*, size_t, u64); u64 (*div1)(u64*, const u64*, size_t, u64); u64 (*mod1)(const u64*, size_t, u64); };
static Prims grab() { Prims p = { PF::addN, PF::add1, PF::subN, PF::sub1, PF::mul1, PF::div1, PF::mod1 }; return p; }
static void install(const Prims& p) { PF::addN = p.addN; PF::add1 = p.add1; PF::subN = p.subN; PF::sub1 = p.sub1; PF::mul1 = p.mul1; PF::div1 = p.div1; PF::mod1 = p.mod1; }
static Prims portable, generated;

static std::string arr(const u64 *x, size_t n) { std::string s = "{"; for (size_t i = 0; i < n; i++) s += (i ? "," : "") + mc::hex64(x[i]); return s + "}"; }
static const u64 GUARD = 0xc0ffee11decaf123ULL;
static void primAddSub(const u64 *x, const u64 *y, int n)
{
	u64 e[14], o[16]; u64 c = 0;
	for (int form = 0; form < 6; form++) {
		bool sub = form >= 3; int al = form % 3;
		c = sub ? mpn_sub_n((mp_limb_t*)e, (const mp_limb_t*)x, (const mp_limb_t*)y, n) : mpn_add_n((mp_limb_t*)e, (const mp_limb_t*)x, (const mp_limb_t*)y, n);
		for (int i = 0; i < 16; i++) o[i] = GUARD;
		u64 xx[14], yy[14]; memcpy(xx, x, n * 8); memcpy(yy, y, n * 8);
		u64 *out = o + 1; const u64 *px = xx, *py = yy;
		if (al == 1) { memcpy(out, x, n * 8); px = out; } if (al == 2) { memcpy(out, y, n * 8); py = out; }
		bool r = sub ? PF::subN(out, px, py, n) : PF::addN(out, px, py, n);
		mc::step();
		if (r != (c != 0) || memcmp(out, e, n * 8) || o[0] != GUARD || o[n + 1] != GUARD || (al != 1 && memcmp(xx, x, n * 8)) || (al != 2 && memcmp(yy, y, n * 8)))
			mc::fail(std::string(sub ? "subN" : "addN") + (al == 1 ? " out=x" : al == 2 ? " out=y" : "") + " " + arr(x, n) + " " + arr(y, n) + ": got " + arr(out, n) + (r ? " carry" : ""));
	}
}
static void prim1(const u64 *x, int n, u64 y)
{
	for (int al = 0; al < 2; al++) for (int f = 0; f < 5; f++) {
		u64 e[14], o[16], xx[12]; memcpy(xx, x, n * 8); for (int i = 0; i < 16; i++) o[i] = GUARD;
		u64 *out = o + 1; const u64 *px = xx; int on = n; u64 c, r = 0;
		if (al) { memcpy(out, x, n * 8); px = out; }
		const char *nm;
		switch (f) {
		case 0: nm = "add1"; c = mpn_add_1((mp_limb_t*)e, (const mp_limb_t*)x, n, y); r = PF::add1(out, px, n, y); break;
		case 1: nm = "sub1"; c = mpn_sub_1((mp_limb_t*)e, (const mp_limb_t*)x, n, y); r = PF::sub1(out, px, n, y); break;
		case 2: nm = "mul1"; e[n] = mpn_mul_1((mp_limb_t*)e, (const mp_limb_t*)x, n, y); c = 0; on = n + 1; PF::mul1(out, px, n, y); break;
		case 3: nm = "div1"; if (!y) continue; c = mpn_divrem_1((mp_limb_t*)e, 0, (const mp_limb_t*)x, n, y); r = PF::div1(out, px, n, y); break;
		default: nm = "mod1"; if (!y || al) continue; c = mpn_mod_1((const mp_limb_t*)x, n, y); on = 0; r = PF::mod1(px, n, y); break;
		}
		mc::step();
		if (r != c || memcmp(out, e, on * 8) || o[0] != GUARD || o[on + 1] != GUARD || (!al && memcmp(xx, x, n * 8)))
			mc::fail(std::string(nm) + (al ? " out=x " : " ") + arr(x, n) + " " + mc::hex64(y) + ": got " + arr(out, on) + " " + mc::hex64(r));
	}
}
static void primitives()
{
	// every limb generates, propagates, kills or absorbs a carry, in every combination
	static const u64 px[4] = { ~0ULL, ~0ULL, 0, 1ULL << 63 }, py[4] = { ~0ULL, 0, 0, 1ULL << 63 }; // add: generate, propagate, kill, generate with zero sum
	static const u64 sx[4] = { 0, 5, ~0ULL, 0 }, sy[4] = { ~0ULL, 5, 0, 1 };                     // sub: borrow, propagate, none, borrow with full limb
	int maxn = XH() ? 12 : 10;
	for (int n = 1; n <= maxn; n++) {
		uint64_t tot = 1; int k = n <= (XH() ? 11 : 9) ? 4 : 3; for (int i = 0; i < n; i++) tot *= k;
		for (uint64_t c = 0; c < tot; c++) {
			if (!mc::state(mc::mix(mc::mix(1, n), c))) continue;
			u64 x[12], y[12], t[12], s[12]; uint64_t v = c;
			for (int i = 0; i < n; i++, v /= k) { x[i] = px[v % k]; y[i] = py[v % k]; t[i] = sx[v % k]; s[i] = sy[v % k]; }
			primAddSub(x, y, n); primAddSub(t, s, n);
			prim1(x, n, 1); prim1(t, n, 1); prim1(x, n, ~0ULL); prim1(t, n, 1ULL << 63);
		}
	}
	std::vector<u64> a = limbAlpha(TH() ? 24 : 16);
	for (int n = 1; n <= 3; n++) {
		std::vector<u64> b = limbAlpha(n == 1 ? 24 : n == 2 ? (TH() ? 16 : 10) : (TH() ? 8 : 5)); uint64_t tot = 1; for (int i = 0; i < 2 * n; i++) tot *= b.size();
		for (uint64_t c = 0; c < tot; c++) { if (!mc::state(mc::mix(mc::mix(2, n), c))) continue; u64 x[12], y[12]; uint64_t v = c; for (int i = 0; i < n; i++, v /= b.size()) x[i] = b[v % b.size()]; for (int i = 0; i < n; i++, v /= b.size()) y[i] = b[v % b.size()]; primAddSub(x, y, n); }
	}
	for (int n = 1; n <= 4; n++) {
		std::vector<u64> b = limbAlpha(n == 1 ? 24 : n == 2 ? 20 : n == 3 ? (TH() ? 14 : 9) : (TH() ? 9 : 6)); uint64_t tot = 1; for (int i = 0; i < n; i++) tot *= b.size();
		for (uint64_t c = 0; c < tot; c++) for (size_t j = 0; j < a.size(); j++) { if (!mc::state(mc::mix(mc::mix(3 + n, j), c))) continue; u64 x[12]; uint64_t v = c; for (int i = 0; i < n; i++, v /= b.size()) x[i] = b[v % b.size()]; prim1(x, n, a[j]); }
	}
}

// ------------------------------------------------------------ division
template<class V> static void divGrid()
{
	// every bit length of both top limbs x fillings of the limbs below, the estimate's rounding boundaries
	static const int shape[][2] = { { 2, 2 }, { 3, 2 }, { 4, 2 }, { 3, 3 }, { 4, 3 }, { 5, 4 }, { 9, 2 }, { 9, 5 }, { 9, 8 }, { 9, 9 }, { 6, 3 }, { 8, 4 } };
	int ns = TH() ? 12 : 6, step = 1;
	struct F { static W mk(int n, int bits, int form) {
		W w(n, 0); u64 top = 1ULL << (bits - 1);
		switch (form) {
		case 0: break;                                                        // 2^k
		case 1: top = bits == 64 ? ~0ULL : (1ULL << bits) - 1; for (int i = 0; i + 1 < n; i++) w[i] = ~0ULL; break; // all ones
		case 2: for (int i = 0; i + 1 < n; i++) w[i] = ~0ULL; break;           // 1 000.. 111..
		case 3: top = bits == 64 ? ~0ULL : (1ULL << bits) - 1; break;          // 111.. 000
		case 4: w[0] = 1; break;
		case 5: top |= bits > 1 ? 1 : 0; w[n - 2] = 1ULL << 63; break;
		case 6: top |= top >> 1; w[n - 2] = ~0ULL << (bits % 64); break;
		case 7: top = (0xb504f333f9de6484ULL >> (64 - bits)) | top; for (int i = 0; i + 1 < n; i++) w[i] = 0x9e3779b97f4a7c15ULL * (i + 1); break; }
		w[n - 1] = top; return w; } };
	int nf = TH() ? 8 : 6;
	for (int s = 0; s < ns; s++) for (int bx = 1; bx <= 64; bx += step) for (int by = 1; by <= 64; by += step) for (int fx = 0; fx < nf; fx++) for (int fy = 0; fy < nf; fy++) {
		if (!TH() && s >= 3 && (bx + by * 3 + fx + fy) % 4) continue;
		uint64_t h = mc::mix(mc::mix(mc::mix(s, bx), by), fx * 16 + fy); if (!mc::state(h)) continue;
		Val x = mkw(F::mk(shape[s][0], bx, fx)), y = mkw(F::mk(shape[s][1], by, fy)); at(&x, &y);
		V a, b, q, r; put(a, x); put(b, y); mpz_class Q, R; mpz_fdiv_qr(Q.get_mpz_t(), R.get_mpz_t(), x.z.get_mpz_t(), y.z.get_mpz_t());
		Junk<V>::fill(q, 9); Junk<V>::fill(r, 9); ok(V::div(&q, r, a, b), "div reports failure"); ck(q, Q, "div quotient"); ck(r, R, "div remainder"); un(a, x, "div"); un(b, y, "div");
		V::div(0, r, a, b); ck(r, R, "remainder only");
	}
}
template<class V> static void divSolved()
{
	// x = q y + r for every quotient and divisor pattern and the extreme remainders
	std::vector<Val> ys, qs; 
	{ std::vector<u64> a = limbAlpha(XH() ? 20 : 12); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a.size(); j++) for (int n = 2; n <= (TH() ? 6 : 5); n++) { W w(n, a[i]); w[n - 1] = a[j]; if (!a[j]) continue; ys.push_back(mkw(w)); } }
	uniq(ys); product(qs, 1, 16); product(qs, 2, XH() ? 20 : 12); patterns(qs, TH() ? 4 : 3, 4); uniq(qs);
	for (size_t i = 0; i < ys.size(); i++) for (size_t j = 0; j < qs.size(); j++) for (int k = 0; k < 6; k++) {
		if (ys[i].w.size() + qs[j].w.size() > CAP) continue;
		if (!mc::state(mc::mix(hp(ys[i], qs[j]), k))) continue;
		mpz_class r = k == 0 ? mpz_class(0) : k == 1 ? mpz_class(1) : k == 2 ? mpz_class(ys[i].z - 1) : k == 3 ? mpz_class(ys[i].z / 2) : k == 4 ? mpz_class(ys[i].z - (ys[i].z >> 53)) : mpz_class(ys[i].z >> 64); if (r >= ys[i].z || r < 0) r = 0;
		Val x = mkv(qs[j].z * ys[i].z + r); if (x.w.size() > CAP) continue; at(&x, &ys[i]);
		V a, b, q, m; put(a, x); put(b, ys[i]);
		Junk<V>::fill(q, 9); ok(V::div(&q, m, a, b), "div reports failure"); ck(q, qs[j].z, "div quotient"); ck(m, r, "div remainder"); un(a, x, "div"); un(b, ys[i], "div");
		q = a; V::div(&q, m, q, b); ck(q, qs[j].z, "div q=x quotient"); ck(m, r, "div q=x remainder");
		a %= b; ck(a, r, "%=");
	}
}

// ------------------------------------------------------------ signed
static mpz_class gets(const Vsint& v) { mpz_class r = get(v.get()); return v.isNegative() ? mpz_class(-r) : r; }
static void cks(const Vsint& v, const mpz_class& z, const char *op)
{
	mc::step();
	mpz_class m = abs(z);
	if (!eqz(v.get(), m) || v.isNegative() != (z < 0) || v.isZero() != (z == 0)) mc::fail(desc(op) + ": got " + hx(gets(v)) + " instead of " + hx(z));
}
struct S { Val m; bool neg; mpz_class z; }; // neg with m = 0 is the negative zero
static void puts_(Vsint& v, const S& s) { v.set(junk, 9); Vuint t; put(t, s.m); v.set(t); if (s.neg) { Vsint u = v; Vsint::neg(v, u); } }
static std::string ds(const S& s) { return (s.neg ? "-" : "") + mpz_class(s.m.z).get_str(16); }
static void signedPair(const S& x, const S& y)
{
	g.x = &x.m; g.y = &y.m;
	std::string pre = std::string(x.neg ? "x negative " : "") + (y.neg ? "y negative " : "");
	struct D { std::string p; std::string s; const char *operator()(const char *o) { s = p + o; return s.c_str(); } } d; d.p = pre;
	Vsint a, b, o, q, r; puts_(a, x); puts_(b, y);
	mpz_class s = x.z + y.z, t = x.z - y.z, p = x.z * y.z; size_t xn = x.m.w.size(), yn = y.m.w.size();
	cks(a, x.z, "set"); cks(b, y.z, "set");
	if (nl(s) <= CAP) { Vsint::add(o, a, b); cks(o, s, d("add")); o = a; Vsint::add(o, o, b); cks(o, s, d("add out=x")); o = b; Vsint::add(o, a, o); cks(o, s, d("add out=y")); o = a + b; cks(o, s, d("operator+")); o = a; o += b; cks(o, s, d("+=")); if (&x == &y) { o = a; o += o; cks(o, s, d("+= itself")); } }
	if (nl(t) <= CAP) { Vsint::sub(o, a, b); cks(o, t, d("sub")); o = a; Vsint::sub(o, o, b); cks(o, t, d("sub out=x")); o = b; Vsint::sub(o, a, o); cks(o, t, d("sub out=y")); o = a - b; cks(o, t, d("operator-")); o = a; o -= b; cks(o, t, d("-=")); if (&x == &y) { o = a; o -= o; cks(o, t, d("-= itself")); } }
	if (xn + yn <= CAP) { Vsint::mul(o, a, b); cks(o, p, d("mul")); o = a; Vsint::mul(o, o, b); cks(o, p, d("mul out=x")); o = b; Vsint::mul(o, a, o); cks(o, p, d("mul out=y")); o = a * b; cks(o, p, d("operator*")); o = a; o *= b; cks(o, p, d("*=")); if (&x == &y) { o = a; o *= o; cks(o, p, d("*= itself")); } }
	if (y.z != 0) {
		mpz_class Q, R; mpz_fdiv_qr(Q.get_mpz_t(), R.get_mpz_t(), x.z.get_mpz_t(), y.z.get_mpz_t());
		if (nl(Q) <= CAP) {
			ok(Vsint::div(&q, r, a, b), d("div reports failure")); cks(q, Q, d("div quotient")); cks(r, R, d("div remainder"));
			cks(a, x.z, d("div changed x")); cks(b, y.z, d("div changed y"));
			q = a; Vsint::div(&q, r, q, b); cks(q, Q, d("div q=x quotient")); cks(r, R, d("div q=x remainder"));
			q = b; Vsint::div(&q, r, a, q); cks(q, Q, d("div q=y quotient")); cks(r, R, d("div q=y remainder"));
			r = a; Vsint::div(&q, r, r, b); cks(q, Q, d("div r=x quotient")); cks(r, R, d("div r=x remainder"));
			r = b; Vsint::div(&q, r, a, r); cks(q, Q, d("div r=y quotient")); cks(r, R, d("div r=y remainder"));
			q = a; r = b; Vsint::div(&q, r, q, r); cks(q, Q, d("div q=x r=y quotient")); cks(r, R, d("div q=x r=y remainder"));
			q = b; r = a; Vsint::div(&q, r, r, q); cks(q, Q, d("div q=y r=x quotient")); cks(r, R, d("div q=y r=x remainder"));
			o = a / b; cks(o, Q, d("operator/")); o = a; o /= b; cks(o, Q, d("/="));
			if (&x == &y) { o = a; o /= o; cks(o, 1, d("/= itself")); o = a; o %= o; cks(o, 0, d("%= itself")); }
		}
		ok(Vsint::div(0, r, a, b), d("div without quotient reports failure")); cks(r, R, d("remainder only")); o = a % b; cks(o, R, d("operator%")); o = a; o %= b; cks(o, R, d("%="));
		mc::outcome(R == 0 ? "signed exact" : Q < 0 ? "signed rounded down" : "signed positive quotient");
	} else {
		q = a; r = a; ok(!Vsint::div(&q, r, a, b), d("division by zero not reported")); cks(q, x.z, d("division by zero wrote q")); cks(r, x.z, d("division by zero wrote r"));
	}
	int c = cmp(x.z, y.z), k = Vsint::compare(a, b);
	ok((k > 0 ? 1 : k < 0 ? -1 : 0) == c && (a < b) == (c < 0) && (a > b) == (c > 0) && (a <= b) == (c <= 0) && (a >= b) == (c >= 0) && (a == b) == (c == 0) && (a != b) == (c != 0), d("comparison"));
	cks(a, x.z, d("x changed")); cks(b, y.z, d("y changed"));
}
static void signedUn(const S& x)
{
	g.x = &x.m; g.y = 0; Vsint a, o; puts_(a, x);
	Vsint::neg(o, a); cks(o, -x.z, "neg"); o = a; Vsint::neg(o, o); cks(o, -x.z, "neg in place"); o = -a; cks(o, -x.z, "operator-"); o = -o; cks(o, x.z, "neg twice");
	Vuint m = a.abs(); ck(m, x.m.z, "abs"); Vsint::absolute(m, a); ck(m, x.m.z, "absolute");
	Vsint c(a); cks(c, x.z, "copy"); c.set(m); cks(c, x.m.z, "set(unsigned)"); c = Vsint(m); cks(c, x.m.z, "from unsigned");
	c = a; c.clear(); cks(c, 0, "clear"); ok(a.size() == x.m.w.size(), "size");
	c = a; c.set(&x.m.w[0], x.m.w.size()); cks(c, x.m.z, "set(limbs)");
	if (x.m.w.size() == 1) {
		c = a; c.set((u64)x.m.w[0]); cks(c, x.m.z, "set(limb)");
		u64 v = x.m.w[0]; int64_t w = x.neg ? (int64_t)(0 - v) : (int64_t)v; c = a; c.set(w); cks(c, mpz_class((long)w), "set(int64)");
		if (w != INT64_MIN) { c = a; c.set((int64_t)-w); cks(c, -mpz_class((long)w), "set(int64)"); }
		int i = (int)w; Vsint e(i); cks(e, i, "from int"); Vsint f(-(i + 1)); cks(f, -(mpz_class(i) + 1), "from int"); e = i; cks(e, i, "= int");
	}
	for (int n = 0; n <= 200; n += n < 3 ? 1 : n < 66 ? 7 : 31) {
		mpz_class l = x.z << n;
		if (x.m.w.size() + n / 64 <= CAP && nl(l) <= CAP) { Vsint::shl(o, a, n); cks(o, l, "shl"); o = a; Vsint::shl(o, o, n); cks(o, l, "shl in place"); o = a << n; cks(o, l, "operator<<"); o = a; o <<= n; cks(o, l, "<<="); }
		if (x.z >= 0) { mpz_class r = x.z >> n; Vsint::shr(o, a, n); cks(o, r, "shr"); o = a; Vsint::shr(o, o, n); cks(o, r, "shr in place"); o = a >> n; cks(o, r, "operator>>"); o = a; o >>= n; cks(o, r, ">>="); }
	}
	cks(a, x.z, "x changed");
}
static std::vector<S> signedVals(std::vector<Val>& v)
{
	std::vector<S> r;
	for (size_t i = 0; i < v.size(); i++) for (int n = 0; n < 2; n++) { S s; s.m = v[i]; s.neg = n != 0; s.z = n ? mpz_class(-v[i].z) : v[i].z; r.push_back(s); }
	return r;
}

// ------------------------------------------------------------ histories
/*
	Breadth-first search over sequences of mutating operations on two objects.
	The state is the complete content of both objects, leftovers included.
*/
struct H2 { Vuint a, b; mpz_class x, y; std::string how; };
static void histories(int depth, size_t cap)
{
	if (mc::ctx().shard != 0) return; // one search, not divided
	std::vector<H2> cur;
	const mpz_class seeds[][2] = { { 0, 0 }, { 1, P2(64) - 1 }, { P2(128) - 1, P2(64) }, { P2(192) + 1, P2(128) - 1 }, { P2(512) - 1, P2(63) }, { mpz_class("0x1234567890abcdef1234567890abcdef"), 10 } };
	for (size_t i = 0; i < sizeof(seeds) / sizeof(seeds[0]); i++) { H2 h; h.x = seeds[i][0]; h.y = seeds[i][1]; Val v = mkv(h.x), w = mkv(h.y); h.a.set(&v.w[0], v.w.size()); h.b.set(&w.w[0], w.w.size()); h.how = hx(h.x) + "," + hx(h.y); cur.push_back(h); }
	for (int d = 0; d < depth; d++) {
		std::vector<H2> nxt;
		for (size_t i = 0; i < cur.size(); i++) for (int op = 0; op < 22; op++) {
			const H2& s = cur[i]; H2 n = s; const char *nm = "";
			mpz_class x = s.x, y = s.y;
			switch (op) {
			case 0: nm = "a+=b"; x += y; if (nl(x) > CAP) continue; break;
			case 1: nm = "a-=b"; if (x < y) continue; x -= y; break;
			case 2: nm = "b=b-a"; if (y < x) continue; y -= x; break;
			case 3: nm = "a*=b"; if (nl(x) + nl(y) > CAP) continue; x *= y; break;
			case 4: nm = "a*=a"; if (2 * nl(x) > CAP) continue; x *= x; break;
			case 5: nm = "a/=b"; if (y == 0) continue; x /= y; break;
			case 6: nm = "a%=b"; if (y == 0) continue; x %= y; break;
			case 7: nm = "div(&a,b,a,b)"; if (y == 0) continue; { mpz_class q = x / y, r = x % y; x = q; y = r; } break;
			case 8: nm = "div(&b,a,b,a)"; if (x == 0) continue; { mpz_class q = y / x, r = y % x; y = q; x = r; } break;
			case 9: nm = "swap"; std::swap(x, y); break;
			case 10: nm = "a<<=1"; x <<= 1; if (nl(x) > CAP) continue; break;
			case 11: nm = "a<<=64"; if (nl(x) + 1 > CAP) continue; x <<= 64; break;
			case 12: nm = "a<<=63"; if (nl(x) >= CAP) continue; x <<= 63; break;
			case 13: nm = "a>>=1"; x >>= 1; break;
			case 14: nm = "a>>=64"; x >>= 64; break;
			case 15: nm = "a>>=65"; x >>= 65; break;
			case 16: nm = "a+=1"; x += 1; if (nl(x) > CAP) continue; break;
			case 17: nm = "a=b"; x = y; break;
			case 18: nm = "a=0"; x = 0; break;
			case 19: nm = "a=text(a)"; break;
			case 20: nm = "a+=~0"; x += P2(64) - 1; if (nl(x) > CAP) continue; break;
			case 21: nm = "a*=limb"; if (nl(x) + 1 > CAP) continue; x *= P2(64) - 1; break;
			}
			if (mc::ctx().onlySet) mc::what(s.how + ";" + nm);
			switch (op) {
			case 0: n.a += n.b; break; case 1: n.a -= n.b; break; case 2: Vuint::sub(n.b, n.b, n.a); break; case 3: n.a *= n.b; break; case 4: n.a *= n.a; break;
			case 5: n.a /= n.b; break; case 6: n.a %= n.b; break; case 7: Vuint::div(&n.a, n.b, n.a, n.b); break; case 8: Vuint::div(&n.b, n.a, n.b, n.a); break;
			case 9: std::swap(n.a, n.b); break; case 10: n.a <<= 1; break; case 11: n.a <<= 64; break; case 12: n.a <<= 63; break; case 13: n.a >>= 1; break; case 14: n.a >>= 64; break; case 15: n.a >>= 65; break;
			case 16: n.a += 1; break; case 17: n.a = n.b; break; case 18: n.a.clear(); break; case 19: n.a.set(n.a.toString(i % 2 ? 16 : 10)); break; case 20: n.a += ~0ULL; break; case 21: Vuint::mul1(n.a, n.a, ~0ULL); break;
			}
			n.x = x; n.y = y; mc::step();
			bool last = d + 1 == depth;
			// identity: both objects, every byte
			uint64_t h = mc::hashBytes(&n, 2 * sizeof(Vuint), mc::mix(d, 5));
			if (!mc::state(h, false)) continue;
			if (!eqz(n.a, x) || !eqz(n.b, y)) mc::fail(s.how + ";" + nm + ": got " + sh(n.a) + ", " + sh(n.b) + " instead of " + hx(x) + ", " + hx(y));
			mc::trace();
			if (!last && nxt.size() < cap) { n.how = s.how + ";" + nm; nxt.push_back(n); }
		}
		cur.swap(nxt);
	}
	if (cur.size()) mc::sample(cur.back().how);
}

// ------------------------------------------------------------ refused results
static int inChild(void (*f)(int), int k)
{
	fflush(stdout); pid_t p = fork();
	if (p == 0) { freopen("/dev/null", "w", stdout); freopen("/dev/null", "w", stderr); alarm(20); f(k); _exit(77); }
	int st; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
// results that do not fit, and the difference of a smaller and a larger number, are refused (the library exits), never computed
static void refusedCase(int k)
{
	Val m = mkv(P2(576) - 1), h = mkv(P2(512)), s = mkv(P2(320)); Vuint M(&m.w[0], m.w.size()), Hh(&h.w[0], h.w.size()), s5(&s.w[0], s.w.size()), one(1), o;
	switch (k) {
	case 0: o = M + one; break; case 1: o = M; o += 1; break; case 2: o = M + M; break; case 3: o = Hh * s5; break; case 4: o = s5 * s5; break; case 5: Vuint::mul1(o, M, 3); break;
	case 6: o = M << 1; break; case 7: o = Hh << 64; break; case 8: o = one << 576; break; case 9: o = one - M; break; case 10: o = one - Vuint(2); break; case 11: o = s5 - Hh; break; case 12: { Vsint a(M), b(1); a = a + b; break; } case 13: { Vsint a(M); a = -a; a = a - Vsint(1); break; } case 14: { Vsint a(-5); a = a >> 1; break; } case 15: o = Vuint(0) - one; break; }
}
static void refused()
{
	for (int k = 0; k < 16; k++) {
		if (!mc::state(mc::mix(77, k))) continue;
		std::ostringstream os; os << "refused case " << k; mc::what(os.str()); int rc = inChild(refusedCase, k); mc::step();
		if (rc != 1) { os << ": a result that cannot be represented was not refused (status " << rc << ")"; mc::fail(os.str()); }
		mc::outcome("refused");
	}
}

static void c12()
{
	mc::domain("primitives/generated", []() { install(generated); primitives(); });
	mc::domain("primitives/portable", []() { install(portable); primitives(); install(generated); });
	mc::domain("pairs/short", []() { std::vector<Val> v; product(v, 1, 24); product(v, 2, 24); powers(v, 192, 1); if (XH()) product(v, 3, 12); uniq(v); pairs<Vuint>(v, v); });
	mc::domain("pairs/all lengths", []() { std::vector<Val> v; product(v, 1, 5); product(v, 2, 4); product(v, 3, 4); patterns(v, 9, XH() ? 7 : 5); uniq(v); pairs<Vuint>(v, v); });
	mc::domain("pairs/powers of two", []() { std::vector<Val> v; powers(v, 576, XH() ? 1 : 2); powers(v, 576, 64); uniq(v); pairs<Vuint>(v, v); });
	mc::domain("pairs/three limbs", []() { std::vector<Val> v, u; product(v, 3, XH() ? 16 : 10); product(u, 2, XH() ? 16 : 10); product(u, 1, 6); uniq(v); uniq(u); pairs<Vuint>(v, u); pairs<Vuint>(u, v); });
	mc::domain("pairs/portable primitives", []() { install(portable); std::vector<Val> v; product(v, 1, 12); product(v, 2, 8); patterns(v, 9, 3); uniq(v); pairs<Vuint>(v, v); install(generated); });
	mc::domain("pairs/growing buffer", []() { std::vector<Val> v; product(v, 1, 8); product(v, 2, 6); patterns(v, 12, XH() ? 5 : 4); powers(v, 900, 64); uniq(v); pairs<Vvar>(v, v); });
	mc::domain("division/estimate grid", []() { divGrid<Vuint>(); });
	mc::domain("division/solved quotients", []() { divSolved<Vuint>(); });
	mc::domain("division/growing buffer", []() { divSolved<Vvar>(); });
	// the quotient estimates are floating-point numbers: the rounding direction of the process must not matter
	struct Rounding { int old; explicit Rounding(int m) : old(fegetround()) { fesetround(m); } ~Rounding() { fesetround(old); } };
	static const struct { int m; const char *n; } rm[] = { { FE_UPWARD, "up" }, { FE_DOWNWARD, "down" }, { FE_TOWARDZERO, "to zero" } };
	for (int i = 0; i < 3; i++) {
		const int m = rm[i].m; const std::string n = std::string("rounding ") + rm[i].n + "/";
		mc::domain(n + "estimate grid", [m]() { Rounding r(m); divGrid<Vuint>(); });
		mc::domain(n + "solved quotients", [m]() { Rounding r(m); divSolved<Vuint>(); });
		mc::domain(n + "pairs", [m]() { Rounding r(m); std::vector<Val> v; product(v, 1, 8); product(v, 2, 8); product(v, 3, 4); patterns(v, 9, 3); powers(v, 576, 64); uniq(v); pairs<Vuint>(v, v); });
	}
	mc::domain("shifts", []() {
		std::vector<Val> v; product(v, 1, 24); product(v, 2, 12); product(v, 3, 5); patterns(v, 9, 3); uniq(v);
		for (size_t i = 0; i < v.size(); i++) for (size_t n = 0; n <= 640; n += TH() || n < 130 || n % 64 > 61 || n % 64 < 2 ? 1 : 7) { if (!mc::state(hv(v[i], n))) continue; at(&v[i]); shiftOps<Vuint>(v[i], n); }
		for (size_t i = 0; i < v.size(); i += 5) for (size_t n = 0; n <= 200; n += 3) { if (!mc::state(hv(v[i], n + 10000))) continue; at(&v[i]); shiftOps<Vvar>(v[i], n); }
	});
	mc::domain("unary", []() {
		std::vector<Val> v; product(v, 1, 24); product(v, 2, 16); product(v, 3, 6); patterns(v, 9, TH() ? 6 : 4); powers(v, 576, 1); uniq(v);
		for (size_t i = 0; i < v.size(); i++) { if (!mc::state(hv(v[i], 1))) continue; at(&v[i]); unOps<Vuint>(v[i]); unOps<Vvar>(v[i]); }
	});
	mc::domain("signed/unary", []() {
		std::vector<Val> v; product(v, 1, 24); product(v, 2, 10); patterns(v, 9, 3); powers(v, 576, 16); powers(v, 70, 1); uniq(v); std::vector<S> s = signedVals(v);
		for (size_t i = 0; i < s.size(); i++) { if (!mc::state(hv(s[i].m, s[i].neg))) continue; at(&s[i].m); signedUn(s[i]); }
	});
	mc::domain("signed/pairs", []() {
		std::vector<Val> v; for (int i = 0; i < 18; i++) v.push_back(mkv(i)); product(v, 1, TH() ? 20 : 12); product(v, 2, XH() ? 18 : 10); patterns(v, 9, 3); powers(v, 576, XH() ? 4 : 16); uniq(v); std::vector<S> s = signedVals(v);
		for (size_t i = 0; i < s.size(); i++) for (size_t j = 0; j < s.size(); j++) { if (!mc::state(mc::mix(hp(s[i].m, s[j].m), s[i].neg * 2 + s[j].neg))) continue; at(&s[i].m, &s[j].m); signedPair(s[i], s[j]); }
	});
	mc::domain("histories", []() { histories(XH() ? 9 : 7, XH() ? 1500000 : 400000); });
	mc::domain("refused results", refused);
}

// =================================================================== C13
template<int I> struct Tag {};
struct ZV { mpz_class m; Val mv; };
template<int I> static void setMod(const mpz_class& m) { Val v = mkv(m); Vuint t; put(t, v); mie::ZmZ<Vuint, Tag<I> >::setModulo(t); }
static mpz_class fmod_(const mpz_class& a, const mpz_class& m) { mpz_class r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
template<class T> static void zk(const T& v, const mpz_class& want, const mpz_class& m, const char *op, const mpz_class& a, const mpz_class& b)
{
	mc::step();
	if (!eqz(v.get(), want)) mc::fail(std::string(op) + " modulo " + m.get_str() + " of " + hx(a) + ", " + hx(b) + ": got " + sh(v.get()) + " instead of " + hx(want));
}
static mpz_class powm(const mpz_class& a, const mpz_class& e, const mpz_class& m) { mpz_class r; mpz_powm(r.get_mpz_t(), a.get_mpz_t(), e.get_mpz_t(), m.get_mpz_t()); return r; }

template<class T> static void zmSet(const mpz_class& a, const mpz_class& m)
{
	// construction from every source, a >= 0
	mpz_class w = fmod_(a, m); Val v = mkv(a); Vuint t; put(t, v);
	T x(t); zk(x, w, m, "from Vuint", a, 0); T y; y.set(t); zk(y, w, m, "set(Vuint)", a, 0); y = x; zk(y, w, m, "copy", a, 0); y.clear(); zk(y, 0, m, "clear", a, 0); y.set(x); zk(y, w, m, "set(same type)", a, 0);
	T s(a.get_str()); zk(s, w, m, "from decimal text", a, 0); s.set("0x" + a.get_str(16)); zk(s, w, m, "from hexadecimal text", a, 0);
	s = 1; s.set(&v.w[0], v.w.size()); zk(s, w, m, "set(limbs)", a, 0);
	std::vector<uint32_t> h; for (size_t i = 0; i < v.w.size(); i++) { h.push_back((uint32_t)v.w[i]); h.push_back((uint32_t)(v.w[i] >> 32)); } s = 1; s.set(&h[0], h.size()); zk(s, w, m, "set(words)", a, 0);
	if (x.isZero() != (w == 0) || x.size() != nl(w) || !(T::getModulo() == T::getModulo())) mc::fail("isZero/size of " + hx(a) + " modulo " + m.get_str());
	if (x.toString() != w.get_str() || x.toString(16) != "0x" + w.get_str(16)) mc::fail("text of " + hx(a) + " modulo " + m.get_str());
	mc::step(3); if (!eqz(T::getModulo(), m)) mc::fail("getModulo differs from " + m.get_str());
	for (size_t i = 0; i < x.size(); i++) if (x[i] != limbs(w)[i]) mc::fail("limb access");
}
template<class T> static void zmInt(int a, const mpz_class& m)
{
	mpz_class w = fmod_(mpz_class(a), m); T x(a); zk(x, w, m, "from int", a, 0); T y; y.set(a); zk(y, w, m, "set(int)", a, 0); y = a; zk(y, w, m, "= int", a, 0);
}
template<class T> static void zmPair(const mpz_class& a, const mpz_class& b, const mpz_class& m)
{
	Val va = mkv(a), vb = mkv(b); Vuint ta, tb; put(ta, va); put(tb, vb); T x(ta), y(tb), o;
	mpz_class s = fmod_(a + b, m), d = fmod_(a - b, m), p = fmod_(a * b, m);
	T::add(o, x, y); zk(o, s, m, "add", a, b); o = x; T::add(o, o, y); zk(o, s, m, "add out=x", a, b); o = y; T::add(o, x, o); zk(o, s, m, "add out=y", a, b); o = x + y; zk(o, s, m, "+", a, b); o = x; o += y; zk(o, s, m, "+=", a, b);
	T::sub(o, x, y); zk(o, d, m, "sub", a, b); o = x; T::sub(o, o, y); zk(o, d, m, "sub out=x", a, b); o = y; T::sub(o, x, o); zk(o, d, m, "sub out=y", a, b); o = x - y; zk(o, d, m, "-", a, b); o = x; o -= y; zk(o, d, m, "-=", a, b);
	if (nl(a) + nl(b) <= CAP) { T::mul(o, x, y); zk(o, p, m, "mul", a, b); o = x; T::mul(o, o, y); zk(o, p, m, "mul out=x", a, b); o = y; T::mul(o, x, o); zk(o, p, m, "mul out=y", a, b); o = x * y; zk(o, p, m, "*", a, b); o = x; o *= y; zk(o, p, m, "*=", a, b); }
	if (a == b) { o = x; T::add(o, o, o); zk(o, s, m, "add all same", a, b); o = x; T::sub(o, o, o); zk(o, d, m, "sub all same", a, b); o = x; if (nl(a) * 2 <= CAP) { T::mul(o, o, o); zk(o, p, m, "mul all same", a, b); } o = x; o -= o; zk(o, 0, m, "-= itself", a, b); T::neg(o, x); zk(o, fmod_(-a, m), m, "neg", a, b); o = x; T::neg(o, o); zk(o, fmod_(-a, m), m, "neg in place", a, b); o = -x; zk(o, fmod_(-a, m), m, "unary -", a, b); }
	mpz_class g, iv; mpz_gcd(g.get_mpz_t(), b.get_mpz_t(), m.get_mpz_t());
	if (g == 1 && b != 0) {
		mpz_invert(iv.get_mpz_t(), b.get_mpz_t(), m.get_mpz_t()); mpz_class q = fmod_(a * iv, m);
		if (2 * nl(m) <= CAP) {
			T::inv(o, y); zk(o, iv, m, "inv", a, b); o = y; T::inv(o, o); zk(o, iv, m, "inv in place", a, b); o = y; o.inverse(); zk(o, iv, m, "inverse", a, b); o = x / y; zk(o, q, m, "/", a, b); o = x; o /= y; zk(o, q, m, "/=", a, b);
			if (a == b) { o = x; o /= o; zk(o, fmod_(1, m), m, "/= itself", a, b); }
			mc::outcome("unit");
		}
	} else mc::outcome("non-unit");
	int c = cmp(a, b); mc::step();
	if ((x < y) != (c < 0) || (x > y) != (c > 0) || (x == y) != (c == 0) || (x != y) != (c != 0) || (x <= y) != (c <= 0) || (x >= y) != (c >= 0)) mc::fail("comparison modulo " + m.get_str() + " of " + hx(a) + ", " + hx(b));
	zk(x, a, m, "x changed", a, b); zk(y, b, m, "y changed", a, b);
}
template<class T> static void zmPow(const mpz_class& a, const mpz_class& e, const mpz_class& m)
{
	Val va = mkv(a), ve = mkv(e); Vuint t; put(t, va); T x(t); Vuint k; put(k, ve); mpz_class w = powm(a, e, m); if (m == 1) w = 0;
	T o = mie::power(x, k); zk(o, w, m, "power(Vuint)", a, e); x = mie::power(x, k); zk(x, w, m, "power in place", a, e); x = T(t);
	if (e.fits_sint_p()) { o = mie::power(x, (int)e.get_si()); zk(o, w, m, "power(int)", a, e); } if (e.fits_ulong_p()) { o = mie::power(x, (size_t)e.get_ui()); zk(o, w, m, "power(size_t)", a, e); }
	Vsint vs(k); o = mie::power(x, vs.get()); zk(o, w, m, "power(Vsint)", a, e);
}

// histories over modulus changes: three objects, each valid for the modulus it was made under
struct ZH { int mi; int val[3]; int how; }; // model state: modulus index, values (-1: made under another modulus)
template<class T> static void zmHistories(int depth)
{
	if (mc::ctx().shard != 0) return;
	static const int mods[] = { 2, 3, 7, 12, 13 }; const int NM = 5;
	struct St { int mi; long v[3]; T o[3]; std::string how; };
	std::vector<St> cur; St s0; s0.mi = 2; setMod<7>(7); for (int i = 0; i < 3; i++) { s0.v[i] = i + 1; s0.o[i] = T(i + 1); } s0.how = "mod 7 (1,2,3)"; cur.push_back(s0);
	for (int d = 0; d < depth; d++) {
		std::vector<St> nxt;
		for (size_t c = 0; c < cur.size(); c++) for (int op = 0; op < NM + 16; op++) {
			St n = cur[c]; long m = mods[n.mi]; setMod<7>(m);
			std::string nm;
			if (op < NM) { if (op == n.mi) continue; n.mi = op; setMod<7>(mods[op]); for (int i = 0; i < 3; i++) n.v[i] = -1; nm = "modulus " + std::to_string(mods[op]); }
			else {
				int k = op - NM; long *v = n.v; T *o = n.o;
				#define VALID(i) if (v[i] < 0) continue
				switch (k) {
				case 0: nm = "a=-1"; o[0] = T(-1); v[0] = m - 1; break;
				case 1: nm = "b=text 5"; o[1].set("5"); v[1] = 5 % m; break;
				case 2: nm = "c=1000003"; o[2] = T(Vuint(1000003)); v[2] = 1000003 % m; break;
				case 3: nm = "a+=b"; VALID(0); VALID(1); o[0] += o[1]; v[0] = (v[0] + v[1]) % m; break;
				case 4: nm = "b-=c"; VALID(1); VALID(2); o[1] -= o[2]; v[1] = (v[1] + m - v[2]) % m; break;
				case 5: nm = "c*=a"; VALID(2); VALID(0); o[2] *= o[0]; v[2] = v[2] * v[0] % m; break;
				case 6: nm = "a=-a"; VALID(0); T::neg(o[0], o[0]); v[0] = (m - v[0]) % m; break;
				case 7: nm = "a=b"; VALID(1); o[0] = o[1]; v[0] = v[1]; break;
				case 8: nm = "b=c^5"; VALID(2); o[1] = mie::power(o[2], 5); { long r = 1 % m; for (int i = 0; i < 5; i++) r = r * v[2] % m; v[1] = r; } break;
				case 9: nm = "c=a/b"; VALID(0); VALID(1); { mpz_class b = v[1], mm = m, iv; if (!mpz_invert(iv.get_mpz_t(), b.get_mpz_t(), mm.get_mpz_t())) continue; o[2] = o[0] / o[1]; v[2] = v[0] * iv.get_si() % m; } break;
				case 10: nm = "c=c*c"; VALID(2); o[2] *= o[2]; v[2] = v[2] * v[2] % m; break;
				case 11: nm = "a=a-b"; VALID(0); VALID(1); T::sub(o[0], o[0], o[1]); v[0] = (v[0] + m - v[1]) % m; break;
				case 12: nm = "b=a-b"; VALID(0); VALID(1); T::sub(o[1], o[0], o[1]); v[1] = (v[0] + m - v[1]) % m; break;
				case 13: nm = "b+=1"; VALID(1); o[1] += T(1); v[1] = (v[1] + 1) % m; break;
				case 14: nm = "c=get(c)"; if (v[2] < 0) { o[2] = T(o[2].get()); } else { o[2].set(o[2].get()); } { mpz_class q = get(o[2].get()); if (n.v[2] < 0) { mpz_class raw = get(cur[c].o[2].get()); v[2] = mpz_class(raw % m).get_si(); } (void)q; } break;
				case 15: nm = "a=int 2147483647"; o[0].set(2147483647); v[0] = 2147483647 % m; break;
				}
				#undef VALID
			}
			mc::step();
			uint64_t h = mc::mix(d, n.mi); for (int i = 0; i < 3; i++) { h = mc::mix(h, n.v[i]); h = mc::mix(h, get(n.o[i].get()).get_ui()); }
			if (!mc::state(h, false)) continue;
			mc::what(n.how + ";" + nm);
			for (int i = 0; i < 3; i++) if (n.v[i] >= 0 && !eqz(n.o[i].get(), mpz_class(n.v[i]))) mc::fail(n.how + ";" + nm + ": object " + std::to_string(i) + " is " + sh(n.o[i].get()) + " instead of " + std::to_string(n.v[i]));
			mc::trace(); n.how += ";" + nm; nxt.push_back(n);
		}
		cur.swap(nxt);
	}
	if (cur.size()) mc::sample(cur.back().how);
}
static std::vector<mpz_class> bigMods()
{
	std::vector<mpz_class> v; v.push_back(P2(31) - 1); v.push_back(P2(32)); v.push_back(P2(32) + 15); v.push_back(P2(63) + 29); v.push_back(P2(64) - 59); v.push_back(P2(64)); v.push_back(P2(64) - 1); v.push_back(P2(64) + 13); v.push_back(P2(127) - 1); v.push_back(P2(128)); v.push_back(P2(128) - 159); v.push_back(P2(192) - 237);
	v.push_back(mpz_class("16798108731015832284940804142231733909889187121439069848933715426072753864723")); v.push_back(mpz_class("16798108731015832284940804142231733909759579603404752749028378864165570215949"));
	v.push_back(mpz_class("21888242871839275222246405745257275088696311157297823662689037894645226208583")); v.push_back(P2(255) - 19); v.push_back(P2(256) - 189); v.push_back(P2(256) - 1); v.push_back(P2(256)); v.push_back(mpz_class(1) + P2(192)); v.push_back(1000000007); v.push_back(65537);
	if (TH()) { v.push_back(P2(320) - 197); v.push_back(P2(521) - 1); v.push_back(P2(574) + 1); }
	return v;
}
static std::vector<mpz_class> residues(const mpz_class& m, int n)
{
	std::set<mpz_class> s; for (int i = 0; i < n; i++) { s.insert(i); s.insert(m - 1 - i); s.insert(m / 2 + i); s.insert(m / 3 + i); } 
	for (int b = 31; b < (int)mpz_sizeinbase(m.get_mpz_t(), 2) + 1; b += b < 65 ? 1 + 30 * (b > 33 && b < 62) : 63) { s.insert(P2(b)); s.insert(P2(b) - 1); s.insert(P2(b) + 1); s.insert(m - P2(b)); }
	mpz_class sq = sqrt(m); for (int i = -1; i < 2; i++) s.insert(sq + i); s.insert(mpz_class("0x9e3779b97f4a7c15f39cc0605cedc8341082276bf3a27251f86c6a11d0c18e95") % m);
	std::vector<mpz_class> r; for (std::set<mpz_class>::iterator i = s.begin(); i != s.end(); ++i) if (*i >= 0 && *i < m) r.push_back(*i); return r;
}
static void c13()
{
	typedef mie::ZmZ<Vuint, Tag<1> > T1; typedef mie::ZmZ<> T0;
	mc::domain("small moduli, complete", []() {
		int top = XH() ? 257 : 129;
		for (int m = 1; m <= top; m++) { setMod<1>(m);
			for (int a = 0; a < m; a++) for (int b = 0; b < m; b++) { if (!mc::state(mc::mix(mc::mix(m, a), b))) continue; mc::what("modulo " + std::to_string(m)); zmPair<T1>(a, b, m); }
			for (int a = -3 * m; a <= 3 * m; a++) { if (!mc::state(mc::mix(mc::mix(m, a), 0x1000))) continue; zmInt<T1>(a, m); if (a >= 0) zmSet<T1>(a, m); }
			for (int a = 0; a < m; a++) for (int e = 0; e <= m + 2; e++) { if (!mc::state(mc::mix(mc::mix(m, a), 0x2000 + e))) continue; zmPow<T1>(a, e, m); }
		}
	});
	mc::domain("large moduli", []() {
		std::vector<mpz_class> ms = bigMods();
		for (size_t k = 0; k < ms.size(); k++) { const mpz_class& m = ms[k]; setMod<1>(m); std::vector<mpz_class> r = residues(m, XH() ? 40 : 24);
			for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < r.size(); j++) { if (!mc::state(mc::mix(mc::mix(k, i), j))) continue; mc::what("modulo " + m.get_str() + " of " + hx(r[i]) + " and " + hx(r[j])); zmPair<T1>(r[i], r[j], m); }
			static const int is[] = { 0, 1, -1, 2, -2, 65536, -65537, 2147483647, -2147483647, (int)0x80000000 };
			for (int i = 0; i < 10; i++) { if (!mc::state(mc::mix(mc::mix(k, i), 0x10000))) continue; zmInt<T1>(is[i], m); }
			std::vector<mpz_class> src = r; for (int i = -2; i <= 2; i++) { src.push_back(m + i); src.push_back(2 * m + i); src.push_back(m * m + i); src.push_back(P2(575) + i); src.push_back(P2(64) + i); src.push_back(P2(512) - 3 + i); }
			for (size_t i = 0; i < src.size(); i++) { if (src[i] < 0 || nl(src[i]) > CAP) continue; if (!mc::state(mc::mix(mc::mix(k, i), 0x20000))) continue; mc::what("modulo " + m.get_str() + " set " + hx(src[i])); zmSet<T1>(src[i], m); }
			if (2 * nl(m) > CAP) continue;
			std::vector<mpz_class> es; for (int i = 0; i < 18; i++) es.push_back(i); for (int b = 31; b <= 65; b++) if (b < 34 || b > 61) for (int d = -1; d < 2; d++) es.push_back(P2(b) + d); es.push_back(m - 1); es.push_back(m - 2); es.push_back(m); es.push_back(P2(128)); es.push_back(P2(200) - 1);
			for (size_t i = 0; i < r.size(); i += TH() ? 1 : 3) for (size_t j = 0; j < es.size(); j++) { if (es[j] < 0 || !mc::state(mc::mix(mc::mix(k, i), 0x30000 + j))) continue; mc::what("modulo " + m.get_str() + " power"); zmPow<T1>(r[i], es[j], m); }
		}
	});
	mc::domain("modulus changes", []() { zmHistories<mie::ZmZ<Vuint, Tag<7> > >(XH() ? 9 : 8); });
	mc::domain("independent moduli", []() {
		// two tagged classes and the default one at different moduli at the same time
		typedef mie::ZmZ<Vuint, Tag<2> > T2; typedef mie::ZmZ<Vuint, Tag<3> > T3;
		for (int m = 2; m < 20; m++) for (int n = 2; n < 20; n++) for (int first = 0; first < 2; first++) {
			if (!mc::state(mc::mix(mc::mix(m, n), first))) continue; mc::what("independent moduli");
			if (first) { setMod<3>(n); setMod<2>(m); } else { setMod<2>(m); setMod<3>(n); } T0::setModulo(Vuint(1009));
			for (int a = 0; a < 20; a++) { zk(T2(a) * T2(a + 3) - T2(7), fmod_(a * (a + 3) - 7, m), m, "x(x+3)-7", a, 0); zk(T3(a) * T3(a + 3) - T3(7), fmod_(a * (a + 3) - 7, n), n, "x(x+3)-7", a, 0); zk(T0(a) * T0(a + 3) - T0(7), fmod_(a * (a + 3) - 7, 1009), 1009, "x(x+3)-7", a, 0); }
		}
	});
}
static void c16()
{
	mc::domain("integers/set from limbs of the object itself", []() {
		std::vector<Val> v; product(v, 1, 10); product(v, 2, 5); product(v, 3, 3); patterns(v, 9, 3); uniq(v);
		typedef mie::ZmZ<Vuint, Tag<1> > T1; std::vector<mpz_class> ms; ms.push_back(13); ms.push_back(P2(64) + 13); ms.push_back(P2(192) - 237);
		for (size_t k = 0; k < v.size(); k++) for (size_t i = 0; i < v[k].w.size(); i++) for (size_t n = 0; i + n <= v[k].w.size(); n++) {
			if (!mc::state(mc::mix(hv(v[k], n), i))) continue; at(&v[k]);
			const mpz_class e = n ? Z(W(v[k].w.begin() + i, v[k].w.begin() + i + n)) : mpz_class(0);
			Vuint a; put(a, v[k]); a.set(&a[i], n); ck(a, e, "set(&own limb, n)");
			if (n == 1) { put(a, v[k]); a.set(a[i]); ck(a, e, "set(own limb)"); }
			for (int neg = 0; neg < 2; neg++) { Vsint b; put(b.get(), v[k]); if (neg) b = -b; b.set(&b.get()[i], n); ck(b.get(), e, "Vsint::set(&own limb, n)"); ok(!b.isNegative(), "Vsint::set(&own limb, n): negative"); put(b.get(), v[k]); if (neg) b = -b; b.set(b.get()); ck(b.get(), v[k].z, "Vsint::set(own magnitude)"); ok(!b.isNegative(), "Vsint::set(own magnitude): negative"); }
			for (size_t q = 0; q < ms.size(); q++) { const mpz_class& m = ms[q]; mpz_class r = v[k].z % m; if (i + n > nl(r)) continue; setMod<1>(m); Vuint t; put(t, v[k]); T1 c(t); W w = limbs(r); mpz_class x = n ? Z(W(w.begin() + i, w.begin() + i + n)) : mpz_class(0); c.set(&c.get()[i], n); ck(c.get(), x % m, "ZmZ::set(&own limb, n)"); c = T1(t); c.set(c.get()); ck(c.get(), r, "ZmZ::set(own value)"); T1::setModulo(T1::getModulo()); ck(T1::getModulo(), m, "setModulo(own modulus)"); c = T1(t); ck(c.get(), r, "after setModulo(own modulus)"); }
		}
	});
	mc::domain("integers/aliasing", []() { std::vector<Val> v; product(v, 1, 16); product(v, 2, 10); product(v, 3, 4); patterns(v, 9, 4); uniq(v); pairs<Vuint>(v, v); });
	mc::domain("integers/aliasing in shifts", []() { std::vector<Val> v; product(v, 1, 10); product(v, 2, 6); patterns(v, 9, 3); uniq(v); for (size_t i = 0; i < v.size(); i++) for (size_t n = 0; n <= 200; n += 1) { if (!mc::state(hv(v[i], n))) continue; at(&v[i]); shiftOps<Vuint>(v[i], n); } });
	mc::domain("integers/aliasing, signed", []() { std::vector<Val> v; product(v, 1, 6); product(v, 2, 4); patterns(v, 6, 2); uniq(v); std::vector<S> s = signedVals(v); for (size_t i = 0; i < s.size(); i++) for (size_t j = 0; j < s.size(); j++) { if (!mc::state(mc::mix(hp(s[i].m, s[j].m), s[i].neg * 2 + s[j].neg))) continue; at(&s[i].m, &s[j].m); signedPair(s[i], s[j]); } });
	mc::domain("modular/aliasing", []() { typedef mie::ZmZ<Vuint, Tag<1> > T1; std::vector<mpz_class> ms = bigMods(); ms.push_back(13); ms.push_back(2); for (size_t k = 0; k < ms.size(); k++) { const mpz_class& m = ms[k]; setMod<1>(m); std::vector<mpz_class> r = residues(m, 2); for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < r.size(); j++) { if (!mc::state(mc::mix(mc::mix(k, i), j))) continue; mc::what("modulo " + m.get_str()); zmPair<T1>(r[i], r[j], m); } } });
}

int main(int argc, char **argv)
{
	mc::parse(argc, argv);
	for (int i = 0; i < 12; i++) junk[i] = 0xa5c3a5c3a5c3a500ULL + 17 * i;
	portable = grab(); mie::zmInit(); generated = grab();
	std::string prop = mc::arg(argc, argv, "--prop", "C12");
	if (prop == "C12") c12(); else if (prop == "C13") c13(); else if (prop == "C16") c16(); else return 3;
	return mc::runAll();
}
