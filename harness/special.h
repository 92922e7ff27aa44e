#pragma once
#include "ref.h"
#include "cyclo_parts.h"
/*
	Members of the cyclotomic subgroup on the exceptional branch of the
	compressed squaring: the coefficient of w vanishes.  Writing f = sum h_i w^i
	with h1 = 0, the defining equations f^(p^4) f = f^(p^2) have the solutions
		h2 = 6s/(xi s^3 + 8), h4 = s h2, h5^2 = (2 h4 - 3 h2^2)/xi,
		h3 = 2 h2 h5 / h4,    h0 = 1 - 2 h2^2 / h4
	for the s in Fp2 for which h5 exists.
*/
inline bool sqrtF2(ref::F2& y, const ref::F2& x) // p = 3 mod 4
{
	using namespace ref;
	const mpz_class& p = curve().p;
	if (x.isZero()) { y = x; return true; }
	F2 a1 = pow(x, (p - 3) / 4), al = a1 * a1 * x, x0 = a1 * x;
	F2 m1 = F2i(-1);
	if (al == m1) { y = F2i(0, 1) * x0; } else { F2 b = pow(F2i(1) + al, (p - 1) / 2); y = b * x0; }
	return y * y == x;
}
inline std::vector<ref::F12> specialCyclo(int n)
{
	using namespace ref;
	std::vector<F12> r;
	for (int i = 1; (int)r.size() < n && i < 400; i++) {
		F2 s = F2i(i % 20 + 1, i / 20), s3 = s * s * s;
		F2 d = xi() * s3 + F2i(8);
		if (d.isZero()) continue;
		F2 h2 = s * F2i(6) * inv(d), h4 = s * h2, h5;
		if (h4.isZero()) continue;
		if (!sqrtF2(h5, (h4 * F2i(2) - h2 * h2 * F2i(3)) * inv(xi()))) continue;
		if (h5.isZero()) continue;
		F2 h3 = h2 * h5 * F2i(2) * inv(h4), h0 = F2i(1) - h2 * h2 * F2i(2) * inv(h4);
		r.push_back(mk12(mk6(h0, h2, h4), mk6(F2i(0), h3, h5)));
	}
	return r;
}
inline mpz_class phi12() { const mpz_class& p = ref::curve().p; return p * p * p * p - p * p + 1; }
// x with x^(2^k) = f
inline ref::F12 rootPow2(const ref::F12& f, int k)
{
	mpz_class m = phi12(), e, t = mpz_class(1) << k;
	mpz_invert(e.get_mpz_t(), t.get_mpz_t(), m.get_mpz_t());
	return ref::pow(f, e);
}
// x in the cyclotomic subgroup with x^((p^6-1)(p^2+1)) = f
inline bool rootEasy(ref::F12& x, const ref::F12& f)
{
	mpz_class m = phi12(), p = ref::curve().p, e, t = (p*p*p*p*p*p - 1) * (p * p + 1) % m;
	if (!mpz_invert(e.get_mpz_t(), t.get_mpz_t(), m.get_mpz_t())) return false;
	x = ref::pow(f, e); return true;
}
// members of the cyclotomic subgroup with one vanishing half of a coefficient, the other
// half not being zero: (c + w)/(c - w) with c = c0 + c1 v + c2 v^2, c1 = (3 xi c2^2 + 1)/(3 c0)
inline std::vector<ref::F12> partCyclo()
{
	using namespace ref;
#ifdef BN_SUPPORT_SNARK
	const CycloPart *t = cycloPartsS; const int n = sizeof(cycloPartsS) / sizeof(*cycloPartsS);
#else
	const CycloPart *t = cycloPartsB; const int n = sizeof(cycloPartsB) / sizeof(*cycloPartsB);
#endif
	std::vector<F12> r;
	for (int i = 0; i < n; i++) {
		F2 c0 = mk2(Fz(mpz_class(t[i].c0a)), Fz(mpz_class(t[i].c0b))), c2 = mk2(Fz(mpz_class(t[i].c2a)), Fz(mpz_class(t[i].c2b)));
		F2 c1 = (xi() * c2 * c2 * F2i(3) + F2i(1)) * inv(c0 * F2i(3));
		F12 u = mk12(mk6(c0, c1, c2), mk6(F2i(1), F2i(0), F2i(0)));
		F12 f = u * inv(conj(u));
		const F2& h = t[i].coord < 6 ? f.a.c[t[i].coord / 2] : f.b.c[t[i].coord / 2 - 3];
		bool half = t[i].coord & 1 ? h.b.isZero() && !h.a.isZero() : h.a.isZero() && !h.b.isZero();
		r.push_back(half ? f : F12i(0));
	}
	return r;
}
