#pragma once
/*
	Reference model: plain schoolbook arithmetic on GMP's mpn layer.
	No Montgomery form, no lazy reduction, no Karatsuba, no aliasing tricks.
*/
#include <gmpxx.h>
#include <stdint.h>
#include <string.h>
#include <vector>
#include <string>

namespace ref {

struct Curve { // documented parameters of a curve
	mpz_class z, p, r, t;
	int b, xa, xb;
};
inline Curve makeCurve(const mpz_class& z, int b, int xa, int xb)
{
	Curve c;
	c.z = z; c.b = b; c.xa = xa; c.xb = xb;
	c.p = 36*z*z*z*z + 36*z*z*z + 24*z*z + 6*z + 1;
	c.r = 36*z*z*z*z + 36*z*z*z + 18*z*z + 6*z + 1;
	c.t = 6*z*z + 1;
	return c;
}
inline Curve& curve() { static Curve c; return c; }

// ---- base field, value in [0,p)
struct F {
	mp_limb_t v[4];
	bool operator==(const F& o) const { return memcmp(v, o.v, 32) == 0; }
	bool operator!=(const F& o) const { return !(*this == o); }
	bool isZero() const { return (v[0] | v[1] | v[2] | v[3]) == 0; }
};
struct Mod { mp_limb_t p[4]; F rinv, rmod; };
inline Mod& mod() { static Mod m; return m; }

inline mpz_class toMpz(const mp_limb_t *v, size_t n) { mpz_class r; mpz_import(r.get_mpz_t(), n, -1, 8, 0, 0, v); return r; }
inline void fromMpz(mp_limb_t *v, size_t n, const mpz_class& x)
{
	memset(v, 0, n * 8);
	if (x < 0 || mpz_sizeinbase(x.get_mpz_t(), 2) > n * 64) abort();
	if (x != 0) mpz_export(v, 0, -1, 8, 0, 0, x.get_mpz_t());
}
inline mpz_class Z(const F& x) { return toMpz(x.v, 4); }
inline F Fz(mpz_class x) { x %= curve().p; if (x < 0) x += curve().p; F f; fromMpz(f.v, 4, x); return f; }
inline F Fi(long x) { return Fz(mpz_class(x)); }
inline void setCurve(const Curve& c)
{
	curve() = c;
	fromMpz(mod().p, 4, c.p);
	mpz_class R = mpz_class(1) << 256, ri;
	mpz_invert(ri.get_mpz_t(), R.get_mpz_t(), c.p.get_mpz_t());
	mod().rinv = Fz(ri); mod().rmod = Fz(R);
}
inline F operator+(const F& a, const F& b)
{
	mp_limb_t t[5]; t[4] = mpn_add_n(t, a.v, b.v, 4);
	F r;
	if (t[4] || mpn_cmp(t, mod().p, 4) >= 0) mpn_sub_n(r.v, t, mod().p, 4); else memcpy(r.v, t, 32);
	return r;
}
inline F operator-(const F& a, const F& b)
{
	F r;
	if (mpn_sub_n(r.v, a.v, b.v, 4)) mpn_add_n(r.v, r.v, mod().p, 4);
	return r;
}
inline F operator-(const F& a) { F z; memset(&z, 0, sizeof(z)); return z - a; }
inline F reduce(const mp_limb_t *x, size_t n) // x mod p, n >= 4
{
	mp_limb_t q[16]; F r;
	mpn_tdiv_qr(q, r.v, 0, x, n, mod().p, 4);
	return r;
}
inline F operator*(const F& a, const F& b)
{
	mp_limb_t t[8]; mpn_mul_n(t, a.v, b.v, 4);
	return reduce(t, 8);
}
inline F pow(const F& a, const mpz_class& e) { mpz_class r; mpz_class A = Z(a); mpz_powm(r.get_mpz_t(), A.get_mpz_t(), e.get_mpz_t(), curve().p.get_mpz_t()); return Fz(r); }
inline F inv(const F& a) { mpz_class r, A = Z(a); if (!mpz_invert(r.get_mpz_t(), A.get_mpz_t(), curve().p.get_mpz_t())) r = 0; return Fz(r); }
// Montgomery representation used by the library objects: raw = v * 2^256 mod p
inline F toRaw(const F& v) { return v * mod().rmod; }
inline F fromRaw(const F& r) { return r * mod().rinv; }

// ---- Fp2 = Fp[u]/(u^2+1)
struct F2 { F a, b; bool operator==(const F2& o) const { return a == o.a && b == o.b; } bool operator!=(const F2& o) const { return !(*this == o); } bool isZero() const { return a.isZero() && b.isZero(); } };
inline F2 mk2(const F& a, const F& b) { F2 r; r.a = a; r.b = b; return r; }
inline F2 F2i(long a, long b = 0) { return mk2(Fi(a), Fi(b)); }
inline F2 operator+(const F2& x, const F2& y) { return mk2(x.a + y.a, x.b + y.b); }
inline F2 operator-(const F2& x, const F2& y) { return mk2(x.a - y.a, x.b - y.b); }
inline F2 operator-(const F2& x) { return mk2(-x.a, -x.b); }
inline F2 operator*(const F2& x, const F2& y) { return mk2(x.a * y.a - x.b * y.b, x.a * y.b + x.b * y.a); }
inline F2 operator*(const F2& x, const F& y) { return mk2(x.a * y, x.b * y); }
inline F2 inv(const F2& x) { F n = inv(x.a * x.a + x.b * x.b); return mk2(x.a * n, -(x.b * n)); }
inline F2 xi() { return F2i(curve().xa, curve().xb); }

// ---- Fp6 = Fp2[v]/(v^3-xi)
struct F6 { F2 c[3]; bool operator==(const F6& o) const { return c[0] == o.c[0] && c[1] == o.c[1] && c[2] == o.c[2]; } bool operator!=(const F6& o) const { return !(*this == o); } bool isZero() const { return c[0].isZero() && c[1].isZero() && c[2].isZero(); } };
inline F6 mk6(const F2& a, const F2& b, const F2& c) { F6 r; r.c[0] = a; r.c[1] = b; r.c[2] = c; return r; }
inline F6 F6i(long a) { return mk6(F2i(a), F2i(0), F2i(0)); }
inline F6 operator+(const F6& x, const F6& y) { return mk6(x.c[0] + y.c[0], x.c[1] + y.c[1], x.c[2] + y.c[2]); }
inline F6 operator-(const F6& x, const F6& y) { return mk6(x.c[0] - y.c[0], x.c[1] - y.c[1], x.c[2] - y.c[2]); }
inline F6 operator-(const F6& x) { return mk6(-x.c[0], -x.c[1], -x.c[2]); }
inline F6 operator*(const F6& x, const F6& y)
{
	F2 d[5]; for (int i = 0; i < 5; i++) d[i] = F2i(0);
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) d[i + j] = d[i + j] + x.c[i] * y.c[j];
	F2 X = xi();
	return mk6(d[0] + d[3] * X, d[1] + d[4] * X, d[2]);
}
inline F6 mulv(const F6& x) { return mk6(x.c[2] * xi(), x.c[0], x.c[1]); }

// ---- Fp12 = Fp6[w]/(w^2-v)
struct F12 { F6 a, b; bool operator==(const F12& o) const { return a == o.a && b == o.b; } bool operator!=(const F12& o) const { return !(*this == o); } bool isZero() const { return a.isZero() && b.isZero(); } };
inline F12 mk12(const F6& a, const F6& b) { F12 r; r.a = a; r.b = b; return r; }
inline F12 F12i(long a) { return mk12(F6i(a), F6i(0)); }
inline F12 operator+(const F12& x, const F12& y) { return mk12(x.a + y.a, x.b + y.b); }
inline F12 operator-(const F12& x, const F12& y) { return mk12(x.a - y.a, x.b - y.b); }
inline F12 operator-(const F12& x) { return mk12(-x.a, -x.b); }
inline F12 operator*(const F12& x, const F12& y) { return mk12(x.a * y.a + mulv(x.b * y.b), x.a * y.b + x.b * y.a); }
template<class T> inline T powT(const T& x, const mpz_class& e, const T& one)
{
	T r = one;
	for (long i = (long)mpz_sizeinbase(e.get_mpz_t(), 2) - 1; i >= 0; i--) { r = r * r; if (mpz_tstbit(e.get_mpz_t(), i)) r = r * x; }
	return e == 0 ? one : r;
}
inline F2 pow(const F2& x, const mpz_class& e) { return powT(x, e, F2i(1)); }
inline F6 pow(const F6& x, const mpz_class& e) { return powT(x, e, F6i(1)); }
inline F12 pow(const F12& x, const mpz_class& e) { return powT(x, e, F12i(1)); }
/*
	x^p computed from the definition of the tower: conjugate every Fp2
	coefficient and substitute v -> v^p, w -> w^p, where w^p = w*(w^6)^((p-1)/6)
	= w*xi^((p-1)/6).
*/
inline F12 frob1(const F12& x)
{
	static mpz_class lastP; static F2 g[6];
	if (lastP != curve().p) { lastP = curve().p; F2 G = pow(xi(), (curve().p - 1) / 6); g[0] = F2i(1); for (int i = 1; i < 6; i++) g[i] = g[i - 1] * G; }
	F12 r;
	for (int i = 0; i < 3; i++) { // v^i = w^(2i), w*v^i = w^(2i+1)
		r.a.c[i] = mk2(x.a.c[i].a, -x.a.c[i].b) * g[2 * i];
		r.b.c[i] = mk2(x.b.c[i].a, -x.b.c[i].b) * g[2 * i + 1];
	}
	return r;
}
inline F12 frob(F12 x, int n) { for (int i = 0; i < n; i++) x = frob1(x); return x; }
inline F6 inv(const F6& x)
{
	// norm to Fp2 through the two conjugates v -> w3*v is awkward; use the adjugate of the multiplication matrix
	const F2 &a = x.c[0], &b = x.c[1], &c = x.c[2]; F2 X = xi();
	F2 A = a * a - X * (b * c), B = X * (c * c) - a * b, C = b * b - a * c;
	F2 n = inv(a * A + X * (c * B + b * C));
	return mk6(A * n, B * n, C * n);
}
inline F12 inv(const F12& x)
{
	F6 n = inv(x.a * x.a - mulv(x.b * x.b));
	return mk12(x.a * n, -(x.b * n));
}
inline F12 conj(const F12& x) { return mk12(x.a, -x.b); }
inline F12 cyclo(const F12& x) { F12 y = conj(x) * inv(x); return frob(y, 2) * y; } // x^((p^6-1)(p^2+1))

// signed power on a unitary element
inline F12 powU(const F12& x, const mpz_class& e) { return e < 0 ? conj(pow(x, -e)) : pow(x, e); }
/*
	hard part of the documented final exponentiation (Fuentes-Castaneda, Knapp,
	Rodriguez-Henriquez):  (p^4-p^2+1)/r * 2z(6z^2+3z+1), written out in base p
*/
inline F12 finalExp(const F12& x)
{
	F12 f = cyclo(x); mpz_class z = curve().z;
	mpz_class z2 = z * z, z3 = z2 * z;
	mpz_class c0 = 12*z3 + 12*z2 + 6*z + 1, c1 = 12*z3 + 6*z2 + 4*z, c2 = 12*z3 + 6*z2 + 6*z, c3 = 12*z3 + 6*z2 + 4*z - 1;
	return powU(f, c0) * frob(powU(f, c1), 1) * frob(powU(f, c2), 2) * frob(powU(f, c3), 3);
}

// ---- curves, affine with flag; generic over the field
template<class T> struct Pt { bool inf; T x, y; bool operator==(const Pt& o) const { return inf == o.inf && (inf || (x == o.x && y == o.y)); } };
inline F fint(const F&, long v) { return Fi(v); }
inline F2 fint(const F2&, long v) { return F2i(v); }
inline F12 fint(const F12&, long v) { return F12i(v); }
template<class T> inline Pt<T> infPt() { Pt<T> r; memset(&r, 0, sizeof(r)); r.inf = true; return r; }
template<class T> inline Pt<T> mkPt(const T& x, const T& y) { Pt<T> r; r.inf = false; r.x = x; r.y = y; return r; }
template<class T> inline Pt<T> neg(const Pt<T>& p) { Pt<T> r = p; if (!p.inf) r.y = -p.y; return r; }
template<class T> inline Pt<T> add(const Pt<T>& p, const Pt<T>& q)
{
	if (p.inf) return q;
	if (q.inf) return p;
	T l;
	if (p.x == q.x) {
		if (p.y != q.y || (p.y + p.y).isZero()) return infPt<T>();
		l = (p.x * p.x * fint(p.x, 3)) * inv(p.y + p.y);
	} else l = (q.y - p.y) * inv(q.x - p.x);
	T x = l * l - p.x - q.x;
	return mkPt(x, l * (p.x - x) - p.y);
}
template<class T> inline Pt<T> mul(const Pt<T>& p, const mpz_class& k)
{
	if (k < 0) return mul(neg(p), mpz_class(-k));
	Pt<T> r = infPt<T>();
	for (long i = (long)mpz_sizeinbase(k.get_mpz_t(), 2) - 1; i >= 0; i--) { r = add(r, r); if (mpz_tstbit(k.get_mpz_t(), i)) r = add(r, p); }
	return r;
}
inline F2 twistB() { return F2i(curve().b) * inv(xi()); }
inline bool onG1(const Pt<F>& p) { return p.inf || p.y * p.y == p.x * p.x * p.x + Fi(curve().b); }
inline bool onG2(const Pt<F2>& p) { return p.inf || p.y * p.y == p.x * p.x * p.x + twistB(); }

/*
	Textbook optimal ate pairing: Q is moved to E(Fp12) by the untwist
	(x,y) -> (x w^2, y w^3); lines are the affine chord/tangent lines.
	f_{6z+2,Q}(P) * l_{[6z+2]Q, pi(Q)}(P) * l_{[6z+2]Q+pi(Q), -pi^2(Q)}(P)
*/
inline F12 w2() { F6 v = mk6(F2i(0), F2i(1), F2i(0)); return mk12(v, F6i(0)); }
inline F12 w3() { F6 v = mk6(F2i(0), F2i(1), F2i(0)); return mk12(F6i(0), v); }
inline Pt<F12> untwist(const Pt<F2>& q) { F12 x = mk12(mk6(q.x, F2i(0), F2i(0)), F6i(0)), y = mk12(mk6(q.y, F2i(0), F2i(0)), F6i(0)); return mkPt(x * w2(), y * w3()); }
inline F12 line(const Pt<F12>& A, const Pt<F12>& B, const Pt<F12>& P, Pt<F12>& sum)
{
	sum = add(A, B);
	F12 l;
	if (A.x == B.x) {
		if (A.y == B.y) l = (A.x * A.x * F12i(3)) * inv(A.y + A.y);
		else return P.x - A.x;
	} else l = (B.y - A.y) * inv(B.x - A.x);
	return l * (P.x - A.x) - (P.y - A.y);
}
inline F12 millerOpt(const Pt<F2>& Q2, const Pt<F>& P1)
{
	Pt<F12> Q = untwist(Q2), P = mkPt(mk12(mk6(mk2(P1.x, Fi(0)), F2i(0), F2i(0)), F6i(0)), mk12(mk6(mk2(P1.y, Fi(0)), F2i(0), F2i(0)), F6i(0)));
	mpz_class s = 6 * curve().z + 2, a = abs(s);
	F12 f = F12i(1); Pt<F12> T = Q, U;
	for (long i = (long)mpz_sizeinbase(a.get_mpz_t(), 2) - 2; i >= 0; i--) {
		f = f * f * line(T, T, P, U); T = U;
		if (mpz_tstbit(a.get_mpz_t(), i)) { f = f * line(T, Q, P, U); T = U; }
	}
	if (s < 0) { T = neg(T); f = conj(f); } // up to factors killed by the final exponentiation
	Pt<F12> Q1 = mkPt(frob(Q.x, 1), frob(Q.y, 1)), Qm2 = mkPt(frob(Q.x, 2), -frob(Q.y, 2));
	f = f * line(T, Q1, P, U); T = U;
	f = f * line(T, Qm2, P, U);
	return f;
}
inline F12 pairing(const Pt<F2>& Q, const Pt<F>& P)
{
	if (Q.inf || P.inf) return F12i(1);
	return finalExp(millerOpt(Q, P));
}

// ---- misc
inline std::string str(const F& x) { return "0x" + Z(x).get_str(16); }
inline std::string str(const F2& x) { return "[" + str(x.a) + "," + str(x.b) + "]"; }
inline std::string str(const F6& x) { return "{" + str(x.c[0]) + "," + str(x.c[1]) + "," + str(x.c[2]) + "}"; }
inline std::string str(const F12& x) { return str(x.a) + "+w" + str(x.b); }
template<class T> inline std::string str(const Pt<T>& p) { return p.inf ? "inf" : "(" + str(p.x) + "," + str(p.y) + ")"; }

} // ref
