#pragma once
/*
	The library under test and the abstraction function from its objects to the
	reference model.
*/
#include "mc.h"
#include "bn.h"
#include "ref.h"

namespace lib {
using mie::Unit;
using mie::Vuint;
using mie::Vsint;
using bn::Fp; using bn::FpDbl; using bn::Fp2; using bn::Fp2Dbl; using bn::Fp6; using bn::Fp6Dbl; using bn::Fp12; using bn::Fp12Dbl;
using bn::Ec1; using bn::Ec2; using bn::Param; using bn::Compress;

struct Config { const char *curve; bn::CurveParam cp; int mode; bool mulx; };
inline Config& config() { static Config c; return c; }

inline bn::CurveParam curveByName(const std::string& s)
{
#ifdef BN_SUPPORT_SNARK
	if (s == "s2") return bn::CurveSNARK2;
	return bn::CurveSNARK1;
#else
	(void)s;
	return bn::CurveFp254BNb;
#endif
}
// the documented parameters, written down independently of the library's constants
inline ref::Curve refCurve(const std::string& s)
{
	if (s == "s1") return ref::makeCurve(mpz_class("4965661367192848881"), 3, 9, 1);
	if (s == "s2") return ref::makeCurve(mpz_class("4965661367192848881"), 82, 9, 1);
	return ref::makeCurve(-((mpz_class(1) << 62) + (mpz_class(1) << 55) + 1), 2, 1, 1);
}
inline void init(int argc, char **argv)
{
	mc::parse(argc, argv);
#ifdef BN_SUPPORT_SNARK
	const char *def = "s1";
#else
	const char *def = "n";
#endif
	std::string c = mc::arg(argc, argv, "--curve", def);
	int mode = atoi(mc::arg(argc, argv, "--mode", "-1"));
	bool mulx = atoi(mc::arg(argc, argv, "--mulx", "1")) != 0;
	ref::setCurve(refCurve(c));
	Param::init(curveByName(c), mode, mulx);
}

// ---- abstraction
inline ref::F rawOf(const Fp& x) { ref::F r; for (int i = 0; i < 4; i++) r.v[i] = x[i]; return r; }
inline bool canonical(const ref::F& r) { return mpn_cmp(r.v, ref::mod().p, 4) < 0; }
inline ref::F A(const Fp& x) { return ref::fromRaw(rawOf(x)); }
inline ref::F2 A(const Fp2& x) { return ref::mk2(A(x.a_), A(x.b_)); }
inline ref::F6 A(const Fp6& x) { return ref::mk6(A(x.a_), A(x.b_), A(x.c_)); }
inline ref::F12 A(const Fp12& x) { return ref::mk12(A(x.a_), A(x.b_)); }
inline bool canon(const Fp& x) { return canonical(rawOf(x)); }
inline bool canon(const Fp2& x) { return canon(x.a_) && canon(x.b_); }
inline bool canon(const Fp6& x) { return canon(x.a_) && canon(x.b_) && canon(x.c_); }
inline bool canon(const Fp12& x) { return canon(x.a_) && canon(x.b_); }
// ---- concretisation
inline void C(Fp& z, const ref::F& x) { ref::F r = ref::toRaw(x); for (int i = 0; i < 4; i++) z[i] = r.v[i]; }
inline void Craw(Fp& z, const ref::F& r) { for (int i = 0; i < 4; i++) z[i] = r.v[i]; }
inline void C(Fp2& z, const ref::F2& x) { C(z.a_, x.a); C(z.b_, x.b); }
inline void C(Fp6& z, const ref::F6& x) { C(z.a_, x.c[0]); C(z.b_, x.c[1]); C(z.c_, x.c[2]); }
inline void C(Fp12& z, const ref::F12& x) { C(z.a_, x.a); C(z.b_, x.b); }
template<class L, class R> inline L mk(const R& r) { L z; C(z, r); return z; }

template<class T> struct RefOf;
template<> struct RefOf<Fp> { typedef ref::F type; };
template<> struct RefOf<Fp2> { typedef ref::F2 type; };
template<> struct RefOf<Fp6> { typedef ref::F6 type; };
template<> struct RefOf<Fp12> { typedef ref::F12 type; };

// Jacobian point -> affine reference point (does not call the library)
template<class T> inline ref::Pt<typename RefOf<T>::type> Apt(const T *p)
{
	typedef typename RefOf<T>::type R;
	R z = A(p[2]);
	if (z.isZero()) return ref::infPt<R>();
	R i = ref::inv(z), i2 = i * i;
	return ref::mkPt(A(p[0]) * i2, A(p[1]) * (i2 * i));
}
inline ref::Pt<ref::F> A(const Ec1& P) { return Apt(P.p); }
inline ref::Pt<ref::F2> A(const Ec2& P) { return Apt(P.p); }
template<class T, class R> inline void Cpt(T *out, const ref::Pt<R>& p, const R& z)
{
	if (p.inf) { memset((void*)out, 0, sizeof(T) * 3); return; }
	R z2 = z * z;
	C(out[0], p.x * z2); C(out[1], p.y * (z2 * z)); C(out[2], z);
}
inline mpz_class M(const Vuint& v) { mpz_class r; mpz_import(r.get_mpz_t(), v.size(), -1, 8, 0, 0, &v[0]); return r; }
inline mpz_class M(const Vsint& v) { mpz_class r = M(v.get()); return v.isNegative() ? mpz_class(-r) : r; }
inline std::string hex(const mpz_class& x) { return (x < 0 ? "-0x" : "0x") + mpz_class(abs(x)).get_str(16); }

} // lib
