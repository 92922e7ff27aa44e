/*
	C04 base field, C05 inversion and roots, C06 double width, C07 quadratic
	extension, C08 tower, C09 Frobenius / cyclotomic / final exponentiation,
	C16 aliasing and frame conditions.
*/
#include "ops.h"
#include "special.h"
using namespace ops;

static bool XH() { return mc::ctx().thorough(); } // thorough tier
static std::vector<Op> table(void (*f)(std::vector<Op>&)) { std::vector<Op> v; f(v); return v; }

static void runTable(const std::vector<Op>& t, std::function<std::vector<Obj>(int)> alpha, std::function<std::vector<Obj>(int)> alphaUn)
{
	for (size_t i = 0; i < t.size(); i++) {
		const Op op = t[i];
		mc::domain(op.name, [=]() {
			bool two = op.ty != TNONE || (op.flags & INOUT);
			std::vector<Obj> xs = two ? alpha(op.tx) : alphaUn(op.tx), ys = op.ty != TNONE ? alpha(op.ty) : xs, zs = (op.flags & INOUT) ? alpha(op.tz) : xs;
			exhaust(op, zs, xs, ys);
		});
	}
}

// ---------------------------------------------------------------- C04
static void near(const Op& op, const std::vector<Obj>& base)
{
	// operands whose sum / difference sits next to every decision point: x+y near p, 0, 2^256; x-y near 0, -p
	const mpz_class& p = ref::curve().p; mpz_class one = 1;
	for (size_t i = 0; i < base.size(); i++) {
		mpz_class x = ref::toMpz(&base[i][0], 4);
		std::vector<Obj> ys;
		for (int d = -2; d <= 2; d++) { addFp(ys, p - x + d); addFp(ys, x + d); addFp(ys, -x + d); for (int b = 64; b < 256; b += 64) { addFp(ys, p - x + (one << b) + d); addFp(ys, p - x - (one << b) + d); addFp(ys, x + (one << b) + d); addFp(ys, x - (one << b) + d); addFp(ys, (one << b) - x + d); } }
		uniq(ys);
		for (size_t j = 0; j < ys.size(); j++) {
			if (!mc::state(hashCase(op, &base[i][0], &base[i][0], &ys[j][0]))) continue;
			stepAll(op, &base[i][0], &base[i][0], &ys[j][0], base[i] == ys[j]); mc::trace();
		}
	}
}
/*
	operand pairs whose Montgomery quotient digits are chosen: x*y = -Q*p mod 2^256,
	solved for x with y odd from an alphabet
*/
static void solvedMul(const Op& op)
{
	const mpz_class& p = ref::curve().p; mpz_class one = 1, R = one << 256;
	std::vector<Obj> yb = fpSet(1);
	std::vector<mp_limb_t> q; q.push_back(0); q.push_back(1); q.push_back(~mp_limb_t(0)); q.push_back(mp_limb_t(1) << 63); if (XH()) { q.push_back(2); q.push_back(~mp_limb_t(0) - 1); }
	size_t n = q.size();
	for (size_t m = 0; m < n * n * n * n; m++) {
		mp_limb_t w[4] = { q[m % n], q[m / n % n], q[m / n / n % n], q[m / n / n / n] };
		mpz_class Q = ref::toMpz(w, 4), lo = (R * 1024 - Q * p) % R; if (lo < 0) lo += R;
		for (size_t j = 0; j < yb.size(); j++) {
			if ((yb[j][0] & 1) == 0) continue;
			mpz_class y = ref::toMpz(&yb[j][0], 4), yi; mpz_invert(yi.get_mpz_t(), y.get_mpz_t(), R.get_mpz_t());
			mpz_class x = lo * yi % R;
			if (x >= p) continue;
			Obj X(4); ref::fromMpz(&X[0], 4, x);
			if (!mc::state(hashCase(op, &X[0], &X[0], &yb[j][0]))) continue;
			stepAll(op, &X[0], &X[0], &yb[j][0], X == yb[j]);
			stepAll(op, &X[0], &yb[j][0], &X[0], X == yb[j]); mc::trace();
		}
	}
}
static void convInt()
{
	// all integers of a boundary alphabet through every int constructor
	std::vector<long> ks;
	for (long k = -300; k <= 300; k++) ks.push_back(k);
	for (int b = 9; b <= 31; b++) for (int d = -3; d <= 3; d++) { long k = (1L << b) + d; if (k <= 2147483647L) ks.push_back(k); if (-k >= -2147483648L) ks.push_back(-k); }
	for (size_t i = 0; i < ks.size(); i++) {
		int k = (int)ks[i];
		if (!mc::state(mc::mix(77, (uint64_t)ks[i]))) continue;
		ref::F w = ref::Fi(k);
		Fp a(k), b; b.set(k); Fp c; c = k; Fp d = Fp(7) * k; Fp2 e(k); Fp6 f(k); Fp12 g(k);
		mc::step(7); mc::trace();
		std::ostringstream os; os << "integer " << k;
		if (A(a) != w || !canon(a)) mc::fail(os.str() + ": construction gives " + ref::str(A(a)));
		if (A(b) != w || A(c) != w) mc::fail(os.str() + ": assignment");
		if (A(d) != w * ref::Fi(7)) mc::fail(os.str() + ": mixed product");
		if (A(e) != ref::mk2(w, ref::Fi(0)) || !canon(e)) mc::fail(os.str() + ": quadratic extension");
		if (A(f) != ref::mk6(ref::mk2(w, ref::Fi(0)), ref::F2i(0), ref::F2i(0))) mc::fail(os.str() + ": sextic extension");
		if (A(g) != ref::mk12(ref::mk6(ref::mk2(w, ref::Fi(0)), ref::F2i(0), ref::F2i(0)), ref::F6i(0))) mc::fail(os.str() + ": twelfth-degree extension");
		if ((a == k) != true || (k != 0 && a == 0)) mc::fail(os.str() + ": equality with int");
	}
}
static void convBig(const std::vector<Obj>& vals)
{
	for (size_t i = 0; i < vals.size(); i++) {
		// the alphabet is used as values here
		if (!mc::state(mc::hashBytes(&vals[i][0], 32, 91))) continue;
		mpz_class x = ref::toMpz(&vals[i][0], 4);
		mc::what("conversion of " + hex(x));
		Vuint v((const uint64_t*)&vals[i][0], 4);
		Fp a(v), b; b.set(v); Fp c(x.get_str()), d("0x" + x.get_str(16));
		ref::F w = ref::Fz(x);
		mc::step(9); mc::trace();
		std::string s = "integer " + hex(x);
		if (A(a) != w || !canon(a)) mc::fail(s + ": from big integer");
		if (A(b) != w) mc::fail(s + ": set(big integer)");
		if (A(c) != w || A(d) != w) mc::fail(s + ": from text");
		if (M(a.get()) != x) mc::fail(s + ": get() returns " + hex(M(a.get())));
		if (a.isOdd() != (mpz_odd_p(x.get_mpz_t()) != 0)) mc::fail(s + ": isOdd");
		if (a.getLow() != vals[i][0]) mc::fail(s + ": getLow");
		if (a.isZero() != (x == 0)) mc::fail(s + ": isZero");
		if (a.toString() != x.get_str() || a.toString(16) != "0x" + x.get_str(16)) mc::fail(s + ": toString " + a.toString());
		if (x == 0 && !(a == 0)) mc::fail(s + ": == 0");
		Fp e = a; e.clear(); if (!e.isZero() || !(e == 0)) mc::fail(s + ": clear");
	}
}
static void compareAll(const std::vector<Obj>& vals)
{
	for (size_t i = 0; i < vals.size(); i++) {
		if (!mc::state(mc::hashBytes(&vals[i][0], 32, 92))) continue;
		Fp a; for (int k = 0; k < 4; k++) a[k] = vals[i][k];
		for (size_t j = 0; j < vals.size(); j++) {
			Fp b; for (int k = 0; k < 4; k++) b[k] = vals[j][k];
			int c = mpn_cmp(&vals[i][0], &vals[j][0], 4);
			mc::step();
			if ((a == b) != (c == 0) || (a != b) != (c != 0) || (a < b) != (c < 0) || (a > b) != (c > 0) || (a <= b) != (c <= 0) || (a >= b) != (c >= 0))
				mc::fail("comparison of " + show(TF, &vals[i][0]) + " and " + show(TF, &vals[j][0]));
		}
		mc::trace();
	}
}
static void c04()
{
	std::vector<Op> t = table(fpOps);
	mc::domain("consecutive calls", [=]() { consecutive(t); consecutive(table(fpFastOps)); });
	int lv = 2;
	runTable(t, [=](int) { return fpSet(lv); }, [=](int) { return fpSet(XH() ? 4 : 3); });
	for (size_t i = 0; i < t.size(); i++) {
		const Op op = t[i];
		if (op.ty == TNONE) continue;
		if (op.name == "Fp::mul" || op.name == "Fp operator*") { mc::domain("solved " + op.name, [=]() { solvedMul(op); }); }
		else mc::domain("near " + op.name, [=]() { near(op, fpSet(XH() ? 4 : 3)); });
	}
	{ // portable versions
		std::vector<Op> pt = table(fpPortOps); mc::domain("portable, consecutive calls", [=]() { consecutive(pt); });
		for (size_t i = 0; i < pt.size(); i++) { const Op op = pt[i]; mc::domain(op.name, [=]() { bool two = op.ty != TNONE; std::vector<Obj> xs = fpSet(two ? 1 : 2); exhaust(op, xs, xs, xs); if (op.name == "portable Fp::add" || op.name == "portable Fp::sub") near(op, fpSet(2)); }); }
	}
	mc::domain("Fp fused add", []() {
		// 2z+3x next to every multiple of p and every bit boundary of the quotient estimate
		std::vector<Op> f = table(fpFastOps); std::vector<Obj> zs = fpSet(1); const mpz_class& p = ref::curve().p; mpz_class one = 1;
		for (size_t o = 0; o < f.size(); o++) {
			std::vector<Obj> w = fpSet(2); exhaust(f[o], zs, w, w);
			for (size_t i = 0; i < zs.size(); i++) {
				mpz_class z = ref::toMpz(&zs[i][0], 4); int a = 2, b = 3; std::vector<Obj> xs;
				for (int k = 0; k <= 5; k++) for (int d = -3; d <= 3; d++) { addFp(xs, (k * p + d - a * z) / b); for (int s = 240; s <= 256; s++) { addFp(xs, (k * p + (one << s) + d - a * z) / b); addFp(xs, (k * p - (one << s) + d - a * z) / b); addFp(xs, ((one << s) * k + d - a * z) / b); } }
				uniq(xs); std::vector<Obj> z1(1, zs[i]);
				exhaust(f[o], z1, xs, xs);
			}
		}
	});
	mc::domain("Fp conversions int", convInt);
	mc::domain("Fp conversions", []() { convBig(fpSet(XH() ? 4 : 3)); });
	mc::domain("Fp compare", []() { compareAll(fpSet(2)); });
	mc::domain("Fp sequences", [=]() { bfs(TF, t, fpSet(0), XH() ? 5 : 4); });
	mc::domain("Fp lazy add/sub", []() {
		// additions and subtractions without reduction, inside their range
		std::vector<Obj> s = fpSet(1);
		for (size_t i = 0; i < s.size(); i++) for (size_t j = 0; j < s.size(); j++) {
			if (!mc::state(mc::mix(mc::hashBytes(&s[i][0], 32), mc::hashBytes(&s[j][0], 32)))) continue;
			Fp a, b, z; for (int k = 0; k < 4; k++) { a[k] = s[i][k]; b[k] = s[j][k]; }
			mpz_class x = ref::toMpz(&s[i][0], 4), y = ref::toMpz(&s[j][0], 4);
			Fp::addNC(z, a, b); mc::step(); mc::trace();
			if (ref::Z(rawOf(z)) != x + y) mc::fail("addNC " + hex(x) + " " + hex(y));
			Fp w = a; Fp::addNC(w, w, b); if (ref::Z(rawOf(w)) != x + y) mc::fail("addNC in place " + hex(x) + " " + hex(y));
			w = b; Fp::addNC(w, a, w); if (ref::Z(rawOf(w)) != x + y) mc::fail("addNC in place 2 " + hex(x) + " " + hex(y));
			if (x >= y) { Fp::subNC(z, a, b); mc::step(); if (ref::Z(rawOf(z)) != x - y) mc::fail("subNC " + hex(x) + " " + hex(y)); w = b; Fp::subNC(w, a, w); if (ref::Z(rawOf(w)) != x - y) mc::fail("subNC in place " + hex(x) + " " + hex(y)); }
			portable_::addNC(z, a, b); w = a; portable_::addNC(w, w, b); mc::step(2); if (ref::Z(rawOf(z)) != x + y || ref::Z(rawOf(w)) != x + y) mc::fail("portable addNC " + hex(x) + " " + hex(y));
			if (x >= y) { portable_::subNC(z, a, b); w = b; portable_::subNC(w, a, w); mc::step(2); if (ref::Z(rawOf(z)) != x - y || ref::Z(rawOf(w)) != x - y) mc::fail("portable subNC " + hex(x) + " " + hex(y)); }
			Fp::shr1(z, a); if (ref::Z(rawOf(z)) != (x >> 1)) mc::fail("shr1 " + hex(x));
			Fp::shr2(z, a); if (ref::Z(rawOf(z)) != (x >> 2)) mc::fail("shr2 " + hex(x));
		}
	});
}
// ---------------------------------------------------------------- C05
static void invPowers()
{
	// x = +-2^i*3^j, Montgomery raw powers of two and their neighbours: extreme loop counts of the binary inversion
	const mpz_class& p = ref::curve().p; mpz_class one = 1;
	std::vector<Op> v = table(fpInvOps);
	std::vector<Obj> s;
	for (int i = 0; i <= 253; i++) for (int d = -1; d <= 1; d++) { addFp(s, (one << i) + d); addFp(s, p - (one << i) + d); addFp(s, (p >> i) + d); addFp(s, p - (p >> i) + d); }
	mpz_class pw = 1; for (int i = 0; i < 512; i++) { addFp(s, pw); mpz_class ip; mpz_invert(ip.get_mpz_t(), pw.get_mpz_t(), p.get_mpz_t()); addFp(s, ip); addFp(s, p - ip); pw = pw * 2 % p; }
	// Fibonacci-like pairs stretch the subtractive chain
	mpz_class fa = 1, fb = 1; while (fb < p) { addFp(s, fb); addFp(s, p - fb); mpz_class t = fa + fb; fa = fb; fb = t; }
	mpz_class g = p; for (int i = 1; i < (XH() ? 40000 : 4000); i++) { addFp(s, p * i / 40001); addFp(s, p / (i + 1)); addFp(s, p / (i + 1) + 1); addFp(s, p - p / (i + 1)); }
	uniq(s);
	for (size_t k = 0; k < 2; k++) exhaust(v[k], s, s, s);
}
static void sqrtAll(const std::vector<Obj>& vals)
{
	for (size_t i = 0; i < vals.size(); i++) {
		if (!mc::state(mc::hashBytes(&vals[i][0], 32, 93))) continue;
		Fp x; for (int k = 0; k < 4; k++) x[k] = vals[i][k];
		ref::F v = A(x), v2 = v * v;
		mc::what("squareRoot " + ref::str(v));
		Fp y; bool r = Fp::squareRoot(y, x); mc::step(); mc::trace();
		mpz_class zv = ref::Z(v); int leg = v.isZero() ? 0 : mpz_jacobi(zv.get_mpz_t(), ref::curve().p.get_mpz_t());
		mc::outcome(leg == 1 ? "square" : leg == 0 ? "zero" : "non-square");
		if (r != (leg >= 0)) mc::fail("squareRoot says " + std::string(r ? "square" : "non-square") + " for " + ref::str(v));
		if (r && (A(y) * A(y) != v || !canon(y))) mc::fail("squareRoot gives " + ref::str(A(y)) + " for " + ref::str(v));
		Fp q, sq; C(sq, v2);
		if (!Fp::squareRoot(q, sq)) mc::fail("squareRoot refuses the square of " + ref::str(v));
		if (A(q) != v && A(q) != -v) mc::fail("wrong root of the square of " + ref::str(v));
		Fp al; C(al, v2); if (!Fp::squareRoot(al, al) || (A(al) != v && A(al) != -v)) mc::fail("in-place squareRoot of the square of " + ref::str(v));
		mc::step(2);
	}
}
static std::vector<Obj> coefTuples(int n, int kind);
static std::vector<Obj> zeroPatterns(int n, int g);
static void c05()
{
	std::vector<Op> f1 = table(fpInvOps), f2 = table(fp2InvOps), f6 = table(fp6InvOps), f12 = table(fp12InvOps);
	mc::domain("consecutive calls", [=]() { consecutive(f1); consecutive(f2); consecutive(f6); consecutive(f12); });
	runTable(f1, [](int) { return fpSet(1); }, [](int) { return fpSet(XH() ? 4 : 3); });
	mc::domain("Fp::inv extremes", invPowers);
	mc::domain("Fp::squareRoot", []() { std::vector<Obj> s = fpSet(2); for (int i = 0; i < (XH() ? 4000 : 400); i++) { Obj o(4); ref::fromMpz(&o[0], 4, mpz_class(i)); s.push_back(o); } uniq(s);  sqrtAll(s); });
	mc::domain("Fp2 inverse()", [=]() { std::vector<Obj> s = tuples(fpSet(1), 2); exhaust(f2[0], s, s, s); });
	mc::domain("Fp6 inverse()", [=]() { std::vector<Obj> s = coefTuples(6, 3); exhaust(f6[0], s, s, s); s = zeroPatterns(6, 1); exhaust(f6[0], s, s, s); });
	mc::domain("Fp12 inverse()", [=]() { std::vector<Obj> s = coefTuples(12, 3); exhaust(f12[0], s, s, s); s = zeroPatterns(12, 1); exhaust(f12[0], s, s, s); });
}
/*
	coefficient tuples for the tower: all {0, p-1}^n  (extremes of every lazy
	range), all {0,1,dense}^(n/2) pairs, one-hot, near-equal coefficient patterns
	kind 0: smallest, 1: quick, 2: pairs thorough, 3: unary thorough
*/
static std::vector<Obj> coefTuples(int n, int kind)
{
	const mpz_class& p = ref::curve().p;
	std::vector<Obj> a, r; addFp(a, 0); addFp(a, p - 1);
	if (kind == 0) {
		// one-hot and two-hot with extreme values, all-equal
		std::vector<Obj> s; addFp(s, p - 1); addFp(s, (mpz_class(1) << 256) % p); addFp(s, dense(5)); addFp(s, p / 2);
		for (size_t k = 0; k < s.size(); k++) {
			for (int i = 0; i < n; i++) { Obj o; for (int j = 0; j < n; j++) o = cat(o, j == i ? s[k] : a[0]); r.push_back(o); o.clear(); for (int j = 0; j < n; j++) o = cat(o, j == i ? a[0] : s[k]); r.push_back(o); }
			Obj o; for (int j = 0; j < n; j++) o = cat(o, s[k]); r.push_back(o);
		}
		Obj o; for (int j = 0; j < n; j++) o = cat(o, a[0]); r.push_back(o);
		for (int c = 0; c < 2; c++) { o.clear(); for (int j = 0; j < n; j++) { Obj d(4); ref::fromMpz(&d[0], 4, dense(j + c * n)); o = cat(o, d); } r.push_back(o); }
		for (int c = 0; c < 2; c++) { o.clear(); for (int j = 0; j < n; j++) o = cat(o, a[(j + c) % 2]); r.push_back(o); o.clear(); for (int j = 0; j < n; j++) o = cat(o, a[(j / 2 + c) % 2]); r.push_back(o); }
	} else {
		int m = n <= 6 ? n : n / 2, rep = n / m;
		std::vector<Obj> al = a;
		if (n <= 6 || kind == 3) addFp(al, (mpz_class(1) << 256) % p);
		if (n <= 6 && kind == 3) { addFp(al, (p + 1) / 2); addFp(al, dense(9)); }
		std::vector<Obj> t = tuples(al, m);
		for (size_t i = 0; i < t.size(); i++) { Obj o; for (int k = 0; k < m; k++) for (int q = 0; q < rep; q++) o.insert(o.end(), t[i].begin() + k * 4, t[i].begin() + k * 4 + 4); r.push_back(o); }
		if (n == 12) { std::vector<Obj> h = tuples(a, 12); if (kind >= 2) r.insert(r.end(), h.begin(), h.end()); else for (size_t i = 0; i < h.size(); i += 5) r.push_back(h[i]); }
		std::vector<Obj> z = coefTuples(n, 0); r.insert(r.end(), z.begin(), z.end());
	}
	uniq(r);
	return r;
}
// every pattern of vanishing coefficients (groups of g coefficients), dense values elsewhere
static std::vector<Obj> zeroPatterns(int n, int g)
{
	std::vector<Obj> r; int m = n / g;
	for (int b = 0; b < (1 << m); b++) { Obj o; for (int j = 0; j < n; j++) { Obj d(4); if (b >> (j / g) & 1) ref::fromMpz(&d[0], 4, dense(j + 3)); o = cat(o, d); } r.push_back(o); }
	return r;
}
// ---------------------------------------------------------------- C06
static std::vector<Obj> dblPairs(int level) { return dblSet(level); }
static std::vector<Obj> dblTuples(int n, int kind)
{
	std::vector<Obj> a = dblSet(0), r;
	const mpz_class pN = ref::curve().p << 256;
	if (n == 2) { std::vector<Obj> b = dblSet(kind >= 2 ? 1 : 0); return tuples(b, 2); }
	std::vector<Obj> e; addDbl(e, 0); addDbl(e, pN - 1); if (kind >= 1) addDbl(e, pN / 2);
	if (n == 12) { for (size_t i = 0; i < a.size(); i++) { Obj o; for (int j = 0; j < n; j++) o = cat(o, a[(i + j) % a.size()]); r.push_back(o); } return r; }
	r = tuples(e, n);
	for (size_t i = 0; i < a.size(); i++) { Obj o; for (int j = 0; j < n; j++) o = cat(o, a[(i + j * 5) % a.size()]); r.push_back(o); }
	uniq(r);
	return r;
}
/*
	operands of the non-residue multiplication solved for the quotient boundary:
	9a-b, a+9b (a-b, a+b) next to k*pN for every k
*/
static void solvedXiDbl(const char *name)
{
	std::vector<Op> t = table(dbl2Ops); dbl2COps(t); const Op *op = 0; for (size_t i = 0; i < t.size(); i++) if (t[i].name == name) op = &t[i];
	mpz_class pN = ref::curve().p << 256, one = 1; int xa = ref::curve().xa;
	std::vector<mpz_class> bs; { std::vector<Obj> d = dblSet(XH() ? 1 : 0); for (size_t i = 0; i < d.size(); i++) bs.push_back(ref::toMpz(&d[i][0], 8)); }
	std::vector<mpz_class> dl; dl.push_back(0); for (int b = 0; b <= 506; b += (b % 64 == 0 ? 63 : 1)) { if (b % 64 == 63 || b % 64 == 0) { dl.push_back(one << b); dl.push_back(-(one << b)); } }
	for (int e = 250; e <= 256; e++) { dl.push_back((one << 256) * 9 / (e - 247)); }
	for (size_t i = 0; i < bs.size(); i++) for (int k = -2; k <= xa + 1; k++) for (size_t j = 0; j < dl.size(); j++) for (int which = 0; which < 2; which++) for (int e = -1; e <= 1; e++) {
		// xa*a - b = k*pN + d  or  a + xa*b' = ... solved for a (b role swapped)
		mpz_class a = (k * pN + dl[j] + e + (which ? -bs[i] : bs[i])) / xa, b = bs[i];
		if (a < 0 || a >= pN) continue;
		Obj A(8), B(8); ref::fromMpz(&A[0], 8, a); ref::fromMpz(&B[0], 8, b);
		Obj x = which ? cat(B, A) : cat(A, B);
		if (!mc::state(hashCase(*op, &x[0], &x[0], &x[0]))) continue;
		stepAll(*op, &x[0], &x[0], &x[0], false); mc::trace();
	}
}
static void nearDbl(const Op& op, const std::vector<Obj>& base)
{
	mpz_class pN = ref::curve().p << 256, one = 1;
	for (size_t i = 0; i < base.size(); i++) {
		mpz_class x = ref::toMpz(&base[i][0], 8);
		std::vector<Obj> ys;
		for (int d = -1; d <= 1; d++) { addDbl(ys, pN - x + d); addDbl(ys, x + d); for (int b = 64; b < 512; b += 64) { addDbl(ys, pN - x + (one << b) + d); addDbl(ys, pN - x - (one << b) + d); addDbl(ys, x + (one << b) + d); addDbl(ys, x - (one << b) + d); addDbl(ys, (one << b) - x + d); } }
		uniq(ys);
		for (size_t j = 0; j < ys.size(); j++) {
			if (!mc::state(hashCase(op, &base[i][0], &base[i][0], &ys[j][0]))) continue;
			stepAll(op, &base[i][0], &base[i][0], &ys[j][0], base[i] == ys[j]); mc::trace();
		}
	}
}
static void exactDbl()
{
	// integer-exact double-width operations
	std::vector<Obj> s = dblSet(1);
	for (size_t i = 0; i < s.size(); i++) for (size_t j = 0; j < s.size(); j++) {
		if (!mc::state(mc::mix(mc::hashBytes(&s[i][0], 64), mc::hashBytes(&s[j][0], 64)))) continue;
		FpDbl a, b, z; for (int k = 0; k < 8; k++) { a[k] = s[i][k]; b[k] = s[j][k]; }
		mpz_class x = ref::toMpz(&s[i][0], 8), y = ref::toMpz(&s[j][0], 8);
		mc::what("FpDbl exact " + hex(x) + " " + hex(y));
		FpDbl::addNC(z, a, b); mc::step(); mc::trace();
		if (ref::toMpz(z.ptr(), 8) != x + y) mc::fail("FpDbl::addNC " + hex(x) + " " + hex(y));
		FpDbl w = a; FpDbl::addNC(w, w, b); if (ref::toMpz(w.ptr(), 8) != x + y) mc::fail("FpDbl::addNC in place " + hex(x) + " " + hex(y));
		w = b; FpDbl::addNC(w, a, w); if (ref::toMpz(w.ptr(), 8) != x + y) mc::fail("FpDbl::addNC in place (2) " + hex(x) + " " + hex(y));
		if (x >= y) {
			FpDbl::subNC(z, a, b); mc::step(); if (ref::toMpz(z.ptr(), 8) != x - y) mc::fail("FpDbl::subNC " + hex(x) + " " + hex(y));
			w = b; FpDbl::subNC(w, a, w); if (ref::toMpz(w.ptr(), 8) != x - y) mc::fail("FpDbl::subNC in place " + hex(x) + " " + hex(y));
		}
		int c = x < y ? -1 : x > y;
		if ((a == b) != (c == 0) || (a < b) != (c < 0) || (a > b) != (c > 0)) mc::fail("FpDbl compare " + hex(x) + " " + hex(y));
		Fp2Dbl A2, B2, Z2; A2.a_ = a; A2.b_ = b; B2.a_ = b; B2.b_ = a;
		Fp2Dbl::addNC(Z2, A2, B2); mc::step();
		if (ref::toMpz(Z2.a_.ptr(), 8) != x + y || ref::toMpz(Z2.b_.ptr(), 8) != x + y) mc::fail("Fp2Dbl::addNC " + hex(x) + " " + hex(y));
		if ((A2 == B2) != (c == 0) || (A2 != B2) != (c != 0)) mc::fail("Fp2Dbl equality " + hex(x) + " " + hex(y));
		for (int f = 0; f < 2; f++) {
			Fp2Dbl::bin_op *an = f ? &Fp2Dbl::addNC_C : Fp2Dbl::addNC, *sn = f ? &Fp2Dbl::subNC_C : Fp2Dbl::subNC;
			Fp2Dbl u = A2, v = B2, q = A2; an(u, u, B2); an(v, A2, v); an(q, q, q); mc::step(3);
			if (ref::toMpz(u.a_.ptr(), 8) != x + y || ref::toMpz(u.b_.ptr(), 8) != x + y || !(u == v)) mc::fail("Fp2Dbl::addNC in place " + hex(x) + " " + hex(y));
			if (x * 2 < (mpz_class(1) << 512) && y * 2 < (mpz_class(1) << 512) && (ref::toMpz(q.a_.ptr(), 8) != 2 * x || ref::toMpz(q.b_.ptr(), 8) != 2 * y)) mc::fail("Fp2Dbl::addNC with itself " + hex(x) + " " + hex(y));
			if (x >= y) {
				Fp2Dbl e, g; e.a_ = a; e.b_ = b; g.a_ = b; g.b_.clear(); u = e; v = g; Fp2Dbl d; sn(d, e, g); sn(u, u, g); sn(v, e, v); mc::step(3);
				if (ref::toMpz(d.a_.ptr(), 8) != x - y || ref::toMpz(d.b_.ptr(), 8) != y || !(u == d) || !(v == d)) mc::fail("Fp2Dbl::subNC in place " + hex(x) + " " + hex(y));
			}
		}
		B2.a_ = a; B2.b_ = b; Fp2Dbl::subNC(Z2, A2, B2); if (ref::toMpz(Z2.a_.ptr(), 8) != 0 || ref::toMpz(Z2.b_.ptr(), 8) != 0) mc::fail("Fp2Dbl::subNC " + hex(x) + " " + hex(y));
		if (x >= y) { B2.a_ = b; B2.b_.clear(); Fp2Dbl::subNC(Z2, A2, B2); mc::step(); if (ref::toMpz(Z2.a_.ptr(), 8) != x - y || ref::toMpz(Z2.b_.ptr(), 8) != y) mc::fail("Fp2Dbl::subNC " + hex(x) + " " + hex(y)); }
		// the non-negative difference used before a reduction: congruent to x - y and below pN
		if (x <= ref::curve().p * ref::curve().p * 2 && y <= ref::curve().p * ref::curve().p) {
			FpDbl::subOpt1(z, a, b); mc::step();
			mpz_class g = ref::toMpz(z.ptr(), 8); if ((g - x + y) % ref::curve().p != 0 || g >= (ref::curve().p << 256)) mc::fail("FpDbl::subOpt1 " + hex(x) + " " + hex(y));
		}
	}
}
static void mulExact(const std::vector<Obj>& xs, const std::vector<Obj>& ys)
{
	// full products, operands up to 2p (sums of two reduced elements are permitted)
	for (size_t i = 0; i < xs.size(); i++) for (size_t j = 0; j < ys.size(); j++) {
		if (!mc::state(mc::mix(mc::hashBytes(&xs[i][0], 32), mc::hashBytes(&ys[j][0], 32)))) continue;
		for (int e = 0; e < 4; e++) {
			mpz_class x = ref::toMpz(&xs[i][0], 4), y = ref::toMpz(&ys[j][0], 4);
			if (e & 1) x += ref::curve().p - 1;
			if (e & 2) y += ref::curve().p - 1;
			mp_limb_t w[4]; Fp a, b; ref::fromMpz(w, 4, x); for (int k = 0; k < 4; k++) a[k] = w[k]; ref::fromMpz(w, 4, y); for (int k = 0; k < 4; k++) b[k] = w[k];
			FpDbl z; FpDbl::mul(z, a, b); mc::step();
			if (ref::toMpz(z.ptr(), 8) != x * y) mc::fail("FpDbl::mul " + hex(x) + " " + hex(y) + " gives " + hex(ref::toMpz(z.ptr(), 8)));
		}
		mc::trace();
	}
}
// double-width values made from and read as integers and text, parts compared one by one
static void dblConversions()
{
	std::vector<Obj> s = dblSet(1);
	std::vector<mpz_class> v; for (size_t i = 0; i < s.size(); i++) v.push_back(ref::toMpz(&s[i][0], 8));
	for (int i = 0; i < 512; i += 7) v.push_back(mpz_class(1) << i);
	for (size_t i = 0; i < v.size(); i++) {
		if (!mc::state(mc::hashStr(v[i].get_str(16)))) continue;
		const mpz_class &x = v[i], &y = v[(i * 7 + 3) % v.size()], &u = v[(i * 11 + 5) % v.size()]; const std::string w = "double-width " + hex(x); mc::what(w); mc::trace();
		mie::Vuint X(x.get_str(10)), Y(y.get_str(10)), U(u.get_str(10)); FpDbl a, b, c; memset((void*)&a, 0x77, sizeof(a)); b = a; c = a;
		FpDbl::setDirect(a, X); mc::step(); if (ref::toMpz(a.ptr(), 8) != x) mc::fail(w + ": setDirect");
		b.setDirect(Y); c.setDirect(u.get_str(10)); mc::step(2); if (ref::toMpz(b.ptr(), 8) != y || ref::toMpz(c.ptr(), 8) != u) mc::fail(w + ": setDirect (2)");
		mc::step(4); if (a.getDirect() != X || a.getDirect().toString(16) != X.toString(16)) mc::fail(w + ": getDirect"); 
		{ FpDbl t(x.get_str(10)), q("0x" + x.get_str(16)); if (!(t == a) || q != a) mc::fail(w + ": from text"); }
		if (a.size() != 8 || a.const_ptr() != a.ptr()) mc::fail(w + ": size"); for (int k = 0; k < 8; k++) if (a[k] != a.ptr()[k] || const_cast<const FpDbl&>(a)[k] != a.ptr()[k]) mc::fail(w + ": limbs");
		{ FpDbl t = a; t.clear(); if (ref::toMpz(t.ptr(), 8) != 0) mc::fail(w + ": clear"); if ((t == a) != (x == 0)) mc::fail(w + ": == zero"); }
		const mp_limb_t *p[3] = { a.ptr(), b.ptr(), c.ptr() };
		{ Fp2Dbl d(a, b), e, f(x.get_str(10), y.get_str(10)), g; e.setDirect(a, b); g.setDirect(X, Y); Fp2Dbl q[4] = { d, e, f, g }; mc::step(4);
		  for (int k = 0; k < 4; k++) if (memcmp(q[k].a_.ptr(), p[0], 64) || memcmp(q[k].b_.ptr(), p[1], 64) || q[k].get() != &q[k].a_ || !(q[k] == d) || q[k] != d) mc::fail(w + ": Fp2Dbl of parts"); e.clear(); FpDbl z; z.clear(); if (!(e.a_ == z) || !(e.b_ == z)) mc::fail(w + ": Fp2Dbl clear"); }
		Fp2Dbl A(a, b), B(c, a), C_(b, c);
		{ Fp6Dbl d(A, B, C_), e, f(x.get_str(10), y.get_str(10), u.get_str(10), x.get_str(10), y.get_str(10), u.get_str(10)), g; e.setDirect(A, B, C_); g.setDirect(X, Y, U, X, Y, U); Fp6Dbl q[4] = { d, e, f, g }; mc::step(4);
		  for (int k = 0; k < 4; k++) if (!(q[k].a_ == A) || !(q[k].b_ == B) || !(q[k].c_ == C_) || memcmp(q[k].c_.b_.ptr(), p[2], 64) || q[k].get() != &q[k].a_ || !(q[k] == d) || q[k] != d) mc::fail(w + ": Fp6Dbl of parts"); }
		Fp6Dbl D(A, B, C_), E(B, C_, A);
		Fp12Dbl F(D, E), G; G.setDirect(D, E); mc::step(2); if (!(F.a_ == D) || !(F.b_ == E) || !(G.a_ == D) || !(G.b_ == E) || !(F == G) || F != G || F.get() != &F.a_) mc::fail(w + ": Fp12Dbl of parts");
		// one limb changed, anywhere
		for (int k = 0; k < 12 * 8; k++) for (int bit = 0; bit < 64; bit += 21) {
			Fp12Dbl H = F; ((mp_limb_t*)(void*)&H)[k] ^= mp_limb_t(1) << bit; mc::step();
			if (H == F || !(H != F) || ((H.a_ == F.a_) != (k >= 48)) || ((H.b_ == F.b_) != (k < 48)) || ((H.a_.a_ == F.a_.a_) != (k >= 16)) || ((H.a_.c_ != F.a_.c_) != (k >= 32 && k < 48)) || ((H.a_.b_.a_ == F.a_.b_.a_) != !(k >= 16 && k < 24))) mc::fail(w + ": a changed limb is not seen by the comparison");
		}
	}
}
static void c06()
{
	std::vector<Op> d1 = table(dblOps), d2 = table(dbl2Ops), d6 = table(dbl6Ops), sp = table(sparseOps);
	dbl2COps(d2); dbl6COps(d6);
	mc::domain("consecutive calls", [=]() { consecutive(d1); consecutive(d2); consecutive(d6); consecutive(sp); });
	for (size_t i = 0; i < d1.size(); i++) {
		const Op op = d1[i];
		mc::domain(op.name, [=]() {
			bool two = op.ty != TNONE || (op.flags & INOUT);
			std::vector<Obj> xs = op.tx == TF ? fpSet(1) : dblPairs(two ? (XH() ? 2 : 1) : (op.name == "FpDbl::mod" ? 3 : 2)), ys = op.ty == TF ? fpSet(1) : dblPairs(XH() ? 1 : 1);
			exhaust(op, xs, xs, ys);
		});
		if (op.ty == TD) mc::domain("near " + op.name, [=]() { nearDbl(op, dblSet(XH() ? 3 : 2)); });
	}
	mc::domain("conversions and comparison", dblConversions);
	std::vector<Op> dp = table(dblPortOps); mc::domain("portable, consecutive calls", [=]() { consecutive(dp); });
	for (size_t i = 0; i < dp.size(); i++) { const Op op = dp[i]; mc::domain(op.name, [=]() { bool two = op.ty != TNONE; std::vector<Obj> xs = op.tx == TF ? fpSet(1) : dblPairs(two ? 1 : 2), ys = op.ty == TF ? fpSet(1) : dblPairs(1); exhaust(op, xs, xs, ys); }); }
	mc::domain("portable lazy add/sub", []() {
		std::vector<Obj> s = dblSet(1);
		for (size_t i = 0; i < s.size(); i++) for (size_t j = 0; j < s.size(); j++) {
			mpz_class x = ref::toMpz(&s[i][0], 8), y = ref::toMpz(&s[j][0], 8); if (!mc::state(mc::mix(mc::hashBytes(&s[i][0], 64), mc::hashBytes(&s[j][0], 64)))) continue;
			FpDbl a, b, z, w; memcpy(a.ptr(), &s[i][0], 64); memcpy(b.ptr(), &s[j][0], 64); mc::trace(); mc::what("portable lazy " + hex(x) + " " + hex(y));
			if (x + y < (mpz_class(1) << 512)) { portable_::daddNC(z, a, b); w = a; portable_::daddNC(w, w, b); mc::step(2); if (ref::toMpz(z.ptr(), 8) != x + y || ref::toMpz(w.ptr(), 8) != x + y) mc::fail("portable FpDbl::addNC " + hex(x) + " " + hex(y)); }
			if (x >= y) { portable_::dsubNC(z, a, b); w = b; portable_::dsubNC(w, a, w); mc::step(2); if (ref::toMpz(z.ptr(), 8) != x - y || ref::toMpz(w.ptr(), 8) != x - y) mc::fail("portable FpDbl::subNC " + hex(x) + " " + hex(y)); }
		}
	});
	mc::domain("FpDbl exact", exactDbl);
	mc::domain("FpDbl::mul exact", []() { std::vector<Obj> a = fpSet(1), b = fpSet(2); mulExact(a, b); if (XH()) mulExact(b, a); else { std::vector<Obj> c; for (size_t i = 0; i < b.size(); i += 3) c.push_back(b[i]); mulExact(c, fpSet(0)); mulExact(fpSet(0), c); } });
	for (size_t i = 0; i < d2.size(); i++) {
		const Op op = d2[i];
		mc::domain(op.name, [=]() {
			bool two = op.ty != TNONE || (op.flags & INOUT);
			std::vector<Obj> xs, ys;
			if (op.tx == TF2) { xs = two ? (XH() ? tuples(fpSet(0), 2) : tuples(fpSet(0), 2)) : tuples(fpSet(1), 2); ys = xs; }
			else { xs = dblTuples(2, two ? 0 : 2); ys = xs; }
			exhaust(op, xs, xs, ys);
		});
	}
	mc::domain("solved Fp2Dbl::mul_xi", []() { solvedXiDbl("Fp2Dbl::mul_xi"); });
	mc::domain("solved Fp2Dbl::mul_xiC", []() { solvedXiDbl("Fp2Dbl::mul_xiC"); });
	mc::domain("wide Fp2Dbl products", [=]() { // lazy sums a+b, c+d around every limb boundary
		std::vector<Obj> xs = tuples(fpSet(1), 2), ys = tuples(fpSet(0), 2); if (!XH()) { std::vector<Obj> y; for (size_t i = 0; i < ys.size(); i += 3) y.push_back(ys[i]); ys = y; }
		for (size_t i = 0; i < d2.size(); i++) if (d2[i].tx == TF2 && d2[i].ty == TF2) { exhaust(d2[i], xs, xs, ys); exhaust(d2[i], xs, ys, xs); }
	});
	for (size_t i = 0; i < d6.size(); i++) {
		const Op op = d6[i];
		mc::domain(op.name, [=]() {
			bool two = op.ty != TNONE; std::vector<Obj> xs, ys;
			if (op.tx == TF6) { xs = coefTuples(6, XH() ? 1 : 0); std::vector<Obj> al; addFp(al, 0); addFp(al, ref::curve().p - 1); xs.insert(xs.end(), xs.begin(), xs.begin()); std::vector<Obj> t = tuples(al, 6); xs.insert(xs.end(), t.begin(), t.end()); uniq(xs); ys = xs; }
			else { xs = dblTuples(6, two ? 0 : 1); ys = two ? dblTuples(6, 0) : xs; }
			exhaust(op, xs, xs, ys);
		});
	}
	for (size_t i = 0; i < sp.size(); i++) {
		const Op op = sp[i];
		mc::domain(op.name, [=]() { std::vector<Obj> x6 = coefTuples(6, XH() ? 1 : 0); if (op.flags & INOUT) exhaust(op, coefTuples(12, 0), x6, x6); else exhaust(op, x6, x6, x6); });
	}
}
// ---------------------------------------------------------------- C07
static void solvedXiFp2(const char *name)
{
	std::vector<Op> t = table(fp2Ops); fp2COps(t); fp2InvOps(t); const Op *op = 0; for (size_t i = 0; i < t.size(); i++) if (t[i].name == name) op = &t[i];
	const mpz_class& p = ref::curve().p; mpz_class one = 1; int xa = ref::curve().xa;
	std::vector<mpz_class> bs; { std::vector<Obj> d = fpSet(2); for (size_t i = 0; i < d.size(); i++) bs.push_back(ref::toMpz(&d[i][0], 4)); }
	std::vector<mpz_class> dl; dl.push_back(0); for (int b = 63; b < 254; b++) if (b % 64 == 63 || b % 64 == 0 || b >= 250) { dl.push_back(one << b); dl.push_back(-(one << b)); }
	for (size_t i = 0; i < bs.size(); i++) for (int k = -2; k <= xa + 1; k++) for (size_t j = 0; j < dl.size(); j++) for (int which = 0; which < 2; which++) for (int e = -1; e <= 1; e++) {
		mpz_class a = (k * p + dl[j] + e + (which ? -bs[i] : bs[i])) / xa, b = bs[i];
		if (a < 0 || a >= p) continue;
		Obj A(4), B(4); ref::fromMpz(&A[0], 4, a); ref::fromMpz(&B[0], 4, b);
		Obj x = which ? cat(B, A) : cat(A, B);
		if (!mc::state(hashCase(*op, &x[0], &x[0], &x[0]))) continue;
		stepAll(*op, &x[0], &x[0], &x[0], false); mc::trace();
	}
}
static void eq2()
{
	std::vector<Obj> s = tuples(fpSet(0), 2);
	for (size_t i = 0; i < s.size(); i++) {
		if (!mc::state(mc::hashBytes(&s[i][0], 64))) continue;
		Fp2 a; memcpy((void*)&a, &s[i][0], 64);
		mc::trace();
		bool z = ref::toMpz(&s[i][0], 8) == 0;
		if (a.isZero() != z) mc::fail("Fp2 isZero " + show(TF2, &s[i][0]));
		for (size_t j = 0; j < s.size(); j++) { Fp2 b; memcpy((void*)&b, &s[j][0], 64); mc::step(); if ((a == b) != (i == j) || (a != b) == (i == j)) mc::fail("Fp2 equality " + show(TF2, &s[i][0]) + " " + show(TF2, &s[j][0])); }
	}
}
static void lazy2()
{
	// sums and differences of coordinates without reduction
	std::vector<Obj> s = fpSet(1);
	for (size_t i = 0; i < s.size(); i++) for (size_t j = 0; j < s.size(); j++) {
		if (!mc::state(mc::mix(mc::hashBytes(&s[i][0], 32), mc::hashBytes(&s[j][0], 32)))) continue;
		Fp2 a, b; for (int k = 0; k < 4; k++) { a.a_[k] = b.b_[k] = s[i][k]; a.b_[k] = b.a_[k] = s[j][k]; }
		mpz_class x = ref::toMpz(&s[i][0], 4), y = ref::toMpz(&s[j][0], 4);
		auto is = [](const Fp2& v, const mpz_class& p, const mpz_class& q) { return ref::Z(rawOf(v.a_)) == p && ref::Z(rawOf(v.b_)) == q; };
		for (int f = 0; f < 2; f++) {
			void (*an)(Fp2&, const Fp2&, const Fp2&) = f ? &Fp2::addNC_C : Fp2::addNC; void (*sn)(Fp2&, const Fp2&, const Fp2&) = f ? &Fp2::subNC_C : Fp2::subNC;
			Fp2 z, u = a, v = b, q = a; an(z, a, b); an(u, u, b); an(v, a, v); an(q, q, q); mc::step(4);
			if (!is(z, x + y, x + y) || !is(u, x + y, x + y) || !is(v, x + y, x + y) || !is(q, 2 * x, 2 * y)) mc::fail("Fp2::addNC " + hex(x) + " " + hex(y));
			Fp2 e = a, g = a; if (x >= y) { g.a_ = a.b_; g.b_.clear(); } else { g.a_.clear(); g.b_ = a.a_; }
			mpz_class w0 = x >= y ? x - y : x, w1 = x >= y ? y : y - x;
			sn(z, e, g); u = e; sn(u, u, g); v = g; sn(v, e, v); q = e; sn(q, q, q); mc::step(4);
			if (!is(z, w0, w1) || !is(u, w0, w1) || !is(v, w0, w1) || !is(q, 0, 0)) mc::fail("Fp2::subNC " + hex(x) + " " + hex(y));
		}
		mc::trace();
	}
}
static void c07()
{
	std::vector<Op> t = table(fp2Ops); fp2COps(t); fp2InvOps(t);
	mc::domain("consecutive calls", [=]() { consecutive(t); });
	for (size_t i = 0; i < t.size(); i++) {
		const Op op = t[i];
		mc::domain(op.name, [=]() {
			bool two = op.ty != TNONE || (op.flags & INOUT);
			std::vector<Obj> xs, ys, zs;
			if (two) { xs = op.tx == TF ? fpSet(1) : tuples(fpSet(0), 2); ys = op.ty == TF ? fpSet(1) : xs; zs = tuples(fpSet(0), 2); }
			else xs = ys = zs = tuples(fpSet(1), 2);
			exhaust(op, zs, xs, ys);
			if (two && op.tx == TF2 && op.ty == TF2 && op.name.find("::") != std::string::npos) {
				std::vector<Obj> w = tuples(fpSet(1), 2), few; for (size_t k = 0; k < xs.size(); k += XH() ? 2 : 6) few.push_back(xs[k]);
				exhaust(op, zs, w, few); exhaust(op, zs, few, w);
			}
		});
	}
	mc::domain("solved Fp2::mul_xi", []() { solvedXiFp2("Fp2::mul_xi"); });
	mc::domain("solved Fp2::mul_xiC", []() { solvedXiFp2("Fp2::mul_xiC"); });
	mc::domain("Fp2 equality", eq2);
	mc::domain("Fp2 lazy add/sub", lazy2);
	{ std::vector<Op> c = table(compOps); for (size_t i = 0; i < c.size(); i++) if (c[i].tz == TF2) { const Op op = c[i]; mc::domain(op.name, [=]() { std::vector<Obj> s = tuples(fpSet(0), 2); exhaust(op, s, s, s); }); } }
	mc::domain("Fp2 sequences", [=]() { std::vector<Obj> s; std::vector<Obj> a = fpSet(0); for (size_t i = 0; i < 4; i++) s.push_back(cat(a[i], a[(i + 2) % 4])); bfs(TF2, t, s, XH() ? 5 : 4); });
}
// ---------------------------------------------------------------- C08
static void eqTower()
{
	std::vector<Obj> s = coefTuples(12, 0);
	for (size_t i = 0; i < s.size(); i++) {
		if (!mc::state(mc::hashBytes(&s[i][0], 384))) continue;
		Fp12 a; memcpy((void*)&a, &s[i][0], 384); Fp6 a6; memcpy((void*)&a6, &s[i][0], 192); mc::trace();
		bool z = true, z6 = true; for (int k = 0; k < 48; k++) if (s[i][k]) { z = false; if (k < 24) z6 = false; }
		if (a.isZero() != z || a6.isZero() != z6) mc::fail("tower isZero " + show(TF12, &s[i][0]));
		for (size_t j = 0; j < s.size(); j++) {
			Fp12 b; memcpy((void*)&b, &s[j][0], 384); Fp6 b6; memcpy((void*)&b6, &s[j][0], 192); mc::step(2);
			bool e6 = memcmp(&s[i][0], &s[j][0], 192) == 0;
			if ((a == b) != (i == j) || (a != b) == (i == j) || (a6 == b6) != e6 || (a6 != b6) == e6) mc::fail("tower equality " + show(TF12, &s[i][0]) + " " + show(TF12, &s[j][0]));
		}
	}
}
template<class T, class RT> static void powTower(const char *nm, int ty, int n)
{
	std::vector<Obj> s = coefTuples(n, 0), z = zeroPatterns(n, 2), k; for (size_t i = 0; i < s.size(); i += n == 12 ? 9 : 3) k.push_back(s[i]);
	for (size_t i = 0; i < z.size(); i += 7) k.push_back(z[i]);
	std::vector<mpz_class> es; for (int e = 0; e <= 17; e++) es.push_back(e);
	for (int b = 31; b <= 65; b++) if (b <= 33 || b >= 63) for (int d = -1; d <= 1; d++) es.push_back((mpz_class(1) << b) + d);
	if (XH()) es.push_back(ref::curve().r);
	for (size_t i = 0; i < k.size(); i++) {
		if (!mc::state(mc::mix(mc::hashBytes(&k[i][0], bytes(ty)), ty))) continue;
		T x; memcpy((void*)&x, &k[i][0], bytes(ty)); RT r; abstr(ty, &k[i][0], &r);
		RT w; bool have = false; mpz_class last = -1;
		for (size_t e = 0; e < es.size(); e++) {
			std::ostringstream os; os << nm << " to the power " << es[e] << " of " << show(ty, &k[i][0]); mc::what(os.str());
			if (have && es[e] == last + 1) w = w * r; else w = ref::pow(r, es[e]);
			have = true; last = es[e];
			T a = mie::power(x, es[e]), b = mie::power(x, Vuint(es[e].get_str())); mc::step(2);
			if (A(a) != w || !canon(a) || A(b) != w || !canon(b)) mc::fail(os.str());
			if (es[e] < 100) { T c = mie::power(x, (int)es[e].get_si()); mc::step(); if (A(c) != w) mc::fail(os.str() + " (int)"); }
		}
		if (memcmp((const void*)&x, &k[i][0], bytes(ty))) mc::fail(std::string(nm) + " powering changed its operand");
		mc::trace();
	}
}
static void c08()
{
	std::vector<Op> t6 = table(fp6Ops), t12 = table(fp12Ops), sp = table(sparseOps);
	fp6COps(t6); fp6InvOps(t6); fp12InvOps(t12); { std::vector<Op> c = table(fp12COps); t12.push_back(c[0]); t12.push_back(c[1]); sp.push_back(c[2]); }
	mc::domain("consecutive calls", [=]() { consecutive(t6); consecutive(t12); consecutive(sp); });
	for (size_t i = 0; i < t6.size(); i++) {
		const Op op = t6[i];
		mc::domain(op.name, [=]() {
			bool two = op.ty != TNONE || (op.flags & INOUT); std::vector<Obj> xs, zs;
			if (op.tx == TF) { xs = fpSet(0); zs = coefTuples(6, 1); exhaust(op, zs, xs, xs); return; }
			if (!two) { xs = coefTuples(6, 3); exhaust(op, xs, xs, xs); xs = zeroPatterns(6, 1); exhaust(op, xs, xs, xs); return; }
			xs = coefTuples(6, 0); exhaust(op, xs, xs, xs);
			xs = zeroPatterns(6, op.flags & INOUT ? 2 : 1); exhaust(op, xs, xs, xs);
			if (op.name == "Fp6::mul") { std::vector<Obj> al; addFp(al, 0); addFp(al, ref::curve().p - 1); xs = XH() ? coefTuples(6, 1) : tuples(al, 6); exhaust(op, xs, xs, xs); }
		});
	}
	for (size_t i = 0; i < t12.size(); i++) {
		const Op op = t12[i];
		mc::domain(op.name, [=]() {
			bool two = op.ty != TNONE || (op.flags & INOUT); std::vector<Obj> xs;
			if (!two) { xs = coefTuples(12, 3); exhaust(op, xs, xs, xs); xs = zeroPatterns(12, 1); exhaust(op, xs, xs, xs); return; }
			xs = coefTuples(12, 0); exhaust(op, xs, xs, xs);
			xs = zeroPatterns(12, 2); exhaust(op, xs, xs, xs);
			if (op.name == "Fp12::mul") { std::vector<Obj> q = coefTuples(12, 1), few; for (size_t k = 0; k < xs.size(); k += XH() ? 3 : 12) few.push_back(xs[k]); exhaust(op, q, q, few); exhaust(op, q, few, q); }
		});
	}
	for (size_t i = 0; i < sp.size(); i++) {
		const Op op = sp[i];
		mc::domain(op.name, [=]() {
			std::vector<Obj> x6 = coefTuples(6, 0), z = coefTuples(12, 0);
			exhaust(op, zeroPatterns(12, 2), zeroPatterns(6, 2), zeroPatterns(6, 2));
			if (op.flags & INOUT) { exhaust(op, z, x6, x6); std::vector<Obj> al, few; addFp(al, 0); addFp(al, ref::curve().p - 1); al = tuples(al, 6); for (size_t k = 0; k < z.size(); k += 25) few.push_back(z[k]); exhaust(op, few, al, al); } else exhaust(op, z, coefTuples(6, 1), x6);
		});
	}
	mc::domain("tower equality", eqTower);
	mc::domain("Fp6 power", []() { powTower<Fp6, ref::F6>("Fp6", TF6, 6); });
	mc::domain("Fp12 power", []() { powTower<Fp12, ref::F12>("Fp12", TF12, 12); });
	mc::domain("Fp6 sequences", [=]() { std::vector<Obj> s = coefTuples(6, 0), k; for (size_t i = 0; i < s.size(); i += 11) k.push_back(s[i]); bfs(TF6, t6, k, 2); });
	mc::domain("Fp12 sequences", [=]() { std::vector<Obj> s = coefTuples(12, 0), k; for (size_t i = 0; i < s.size(); i += 25) k.push_back(s[i]); bfs(TF12, t12, k, 2); });
}
// ---------------------------------------------------------------- C09
static Obj objOf(const ref::F12& x) { Fp12 t; C(t, x); Obj o(48); memcpy(&o[0], &t, 384); return o; }
static std::vector<ref::F12> cycloSet(bool big)
{
	std::vector<ref::F12> v; v.push_back(ref::F12i(1));
	std::vector<Obj> s = coefTuples(12, 0);
	for (size_t i = 0; i < s.size(); i += big ? 1 : 4) { ref::F12 x; abstr(TF12, &s[i][0], &x); if (x.isZero()) continue; ref::F12 c = ref::cyclo(x); v.push_back(c); }
	std::vector<ref::F12> sp = specialCyclo(big ? 12 : 3);
	for (size_t i = 0; i < sp.size(); i++) { if (!isUnit(sp[i])) mc::fail("model error: special element not unitary"); v.push_back(sp[i]); v.push_back(rootPow2(sp[i], 1 + int(i) % 6)); v.push_back(ref::conj(sp[i])); }
	std::vector<ref::F12> pa = partCyclo();
	for (size_t i = 0; i < pa.size(); i += big ? 1 : 2) { if (!isUnit(pa[i])) mc::fail("model error: constructed element not unitary or not as wanted"); v.push_back(pa[i]); if (big) v.push_back(rootPow2(pa[i], 1 + int(i) % 6)); }
	return v;
}
static void compressOne(const ref::F12& x, int n)
{
	ref::F12 e = x; for (int i = 0; i < n; i++) e = e * e;
	Fp12 in, out; C(in, x); memset((void*)&out, 0x11, sizeof(out));
	{ Compress c(out, in); Compress::square_n(c, n); c.decompress(); }
	mc::step();
	std::ostringstream os; os << "compressed squaring, " << n << " times, of " << ref::str(x) << " gives " << ref::str(A(out)) << " instead of " << ref::str(e);
	if (!canon(out)) mc::fail("not reduced: " + os.str());
	if (A(out) != e) mc::fail(os.str());
	if (A(in) != x) mc::fail("input changed: " + os.str());
	if (n <= 8) { // the portable version
		memset((void*)&out, 0x11, sizeof(out));
		{ Compress c(out, in); Compress::square_nC(c, n); c.decompress(); }
		mc::step();
		if (A(out) != e || !canon(out)) mc::fail("square_nC: " + os.str());
	}
}
static void c09()
{
	std::vector<Op> fr = table(frobOps), cy = table(cycloOps);
	mc::domain("consecutive calls", [=]() { consecutive(fr); });
	mc::domain("consecutive final exponentiations", []() {
		const Obj x = denseObj(TF12, 3);
		for (int e = 0; e < 2; e++) for (size_t i = 0; i < x.size(); i++) {
			if (!mc::state(mc::mix(e, i))) continue; std::ostringstream os; os << (e ? "final_exp" : "mapToCyclo") << " of a number, with word " << i << " changed, and again"; mc::what(os.str());
			for (int k = 0; k < 3; k++) { Obj t = x; if (k == 1) t[i] ^= 2; ref::F12 r; abstr(TF12, &t[0], &r); Fp12 a, z; memcpy((void*)&a, &t[0], 384); if (e) { a.final_exp(); z = a; } else a.mapToCyclo(z); mc::step(); if (A(z) != (e ? ref::finalExp(r) : ref::cyclo(r)) || !canon(z)) mc::fail(os.str()); }
			mc::trace();
		}
	});
	mc::domain("consecutive calls, cyclotomic", [=]() {
		// pairs of elements sharing a half (conjugates), or nothing
		std::vector<ref::F12> p = partCyclo(), s = specialCyclo(1), v; v.push_back(ref::F12i(1)); v.push_back(s[0]); v.push_back(ref::conj(s[0])); for (int i = 0; i < 3; i++) { v.push_back(p[i * 8]); v.push_back(ref::conj(p[i * 8])); }
		for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v.size(); j++) {
			if (!mc::state(mc::mix(i, j))) continue; mc::what("consecutive calls " + ref::str(v[i]) + " " + ref::str(v[j]));
			const ref::F12 q[3] = { v[i], v[j], v[i] };
			for (size_t o = 0; o < cy.size(); o++) for (int k = 0; k < 3; k++) { Obj x = objOf(q[k]); doStep(cy[o], 0, 0, &x[0], 0); }
			for (int n = 0; n <= 62; n += 31) for (int k = 0; k < 3; k++) compressOne(q[k], n);
#ifndef BN_SUPPORT_SNARK
			for (int k = 0; k < 3; k++) { Fp12 in, out; C(in, q[k]); Compress::fixed_power(out, in); mc::step(); if (A(out) != ref::pow(q[k], abs(ref::curve().z))) mc::fail("fixed_power of " + ref::str(q[k])); }
#endif
			mc::trace();
		}
	});
	for (size_t i = 0; i < fr.size(); i++) { const Op op = fr[i]; mc::domain(op.name, [=]() { std::vector<Obj> xs = coefTuples(12, 1); exhaust(op, xs, xs, xs); xs = zeroPatterns(12, 1); exhaust(op, xs, xs, xs); }); }
	for (size_t i = 0; i < cy.size(); i++) { const Op op = cy[i]; mc::domain(op.name, [=]() { std::vector<ref::F12> c = cycloSet(true); std::vector<Obj> xs; for (size_t k = 0; k < c.size(); k++) { if (!isUnit(c[k])) mc::fail("model error: not unitary"); xs.push_back(objOf(c[k])); } exhaust(op, xs, xs, xs); }); }
	mc::domain("Compress", []() {
		std::vector<ref::F12> c = cycloSet(true);
		for (size_t i = 0; i < c.size(); i++) for (int n = 0; n <= (XH() ? 300 : 70); n++) {
			if (!mc::state(mc::mix(mc::hashBytes(&c[i], sizeof(c[i])), n))) continue;
			mc::what("Compress " + ref::str(c[i])); compressOne(c[i], n); mc::trace();
			mc::outcome(c[i].b.c[0].isZero() ? "g2=0" : "g2!=0");
		}
	});
	mc::domain("Compress long", []() {
		std::vector<ref::F12> c = cycloSet(false); int ns[] = { 55, 62, 63, 64 };
		std::vector<ref::F12> sp = specialCyclo(2), pa = partCyclo(); sp.push_back(pa[12]); sp.push_back(pa[14]); for (size_t i = 0; i < sp.size(); i++) for (int k = 0; k < 3; k++) c.push_back(rootPow2(sp[i], ns[k]));
		for (size_t i = 0; i < c.size(); i++) for (int k = 0; k < 4; k++) { if (!mc::state(mc::mix(mc::hashBytes(&c[i], sizeof(c[i])), ns[k]))) continue; mc::what("Compress " + ref::str(c[i])); compressOne(c[i], ns[k]); mc::trace(); }
	});
	mc::domain("mapToCyclo", []() {
		std::vector<Obj> s = coefTuples(12, 0);
		for (size_t i = 0; i < s.size(); i++) {
			ref::F12 x; abstr(TF12, &s[i][0], &x); if (x.isZero()) continue;
			if (!mc::state(mc::hashBytes(&s[i][0], 384))) continue;
			mc::what("mapToCyclo " + show(TF12, &s[i][0]));
			Fp12 a, z; memcpy((void*)&a, &s[i][0], 384); a.mapToCyclo(z); mc::step(); mc::trace();
			if (A(z) != ref::cyclo(x) || !canon(z)) mc::fail("mapToCyclo of " + show(TF12, &s[i][0]));
		}
	});
	mc::domain("final_exp", []() {
		std::vector<Obj> s = coefTuples(12, 0), zp = zeroPatterns(12, 2); s.insert(s.end(), zp.begin() + 1, zp.end());
		// the powers taken inside pass through the exceptional branch of the compressed squaring
		std::vector<ref::F12> sp = specialCyclo(3), pa = partCyclo(); sp.push_back(pa[12]); sp.push_back(pa[14]);
		for (size_t i = 0; i < sp.size(); i++) { int ks[] = { 0, 55, 62 }; for (int k = 0; k < 3; k++) { ref::F12 x; if (!rootEasy(x, rootPow2(sp[i], ks[k]))) mc::fail("model error: exponent"); s.push_back(objOf(x)); } }
		std::vector<ref::F12> cs = cycloSet(false); for (size_t i = 0; i < cs.size(); i++) s.push_back(objOf(cs[i]));
		for (size_t i = 0; i < s.size(); i++) {
			ref::F12 x; abstr(TF12, &s[i][0], &x); if (x.isZero()) continue;
			if (!mc::state(mc::hashBytes(&s[i][0], 384))) continue;
			mc::what("final_exp " + show(TF12, &s[i][0]));
			Fp12 a; memcpy((void*)&a, &s[i][0], 384); a.final_exp(); mc::step(); mc::trace();
			ref::F12 w = ref::finalExp(x);
			mc::outcome(w == ref::F12i(1) ? "kernel" : "order r");
			if (A(a) != w || !canon(a)) mc::fail("final_exp of " + show(TF12, &s[i][0]));
			if (ref::pow(w, ref::curve().r) != ref::F12i(1)) mc::fail("model error: final_exp result not of order r");
		}
	});
	mc::domain("final_exp exponent", []() {
		// the fixed exponent is a multiple of (p^12-1)/r coprime to r (documented form)
		const ref::Curve& c = ref::curve(); mpz_class p = c.p, z = c.z, z2 = z * z, z3 = z2 * z;
		mpz_class h = (12*z3 + 12*z2 + 6*z + 1) + p * (12*z3 + 6*z2 + 4*z) + p*p * (12*z3 + 6*z2 + 6*z) + p*p*p * (12*z3 + 6*z2 + 4*z - 1);
		mpz_class full = (p*p*p*p - p*p + 1);
		if (!mc::state(1)) return;
		mc::step(); mc::trace();
		if (full % c.r != 0) mc::fail("model error: r does not divide the cyclotomic order");
		mpz_class q = full / c.r; if (h % q != 0) mc::fail("model error: exponent is no multiple of (p^4-p^2+1)/r");
		mpz_class m = h / q, g; mpz_gcd(g.get_mpz_t(), m.get_mpz_t(), c.r.get_mpz_t()); if (g != 1) mc::fail("model error: exponent not coprime to r");
	});
#ifndef BN_SUPPORT_SNARK
	mc::domain("fixed_power", []() {
		std::vector<ref::F12> c = cycloSet(true);
		std::vector<ref::F12> sp = specialCyclo(6), pa = partCyclo(); for (int i = 12; i < 16; i++) sp.push_back(pa[i]); for (size_t i = 0; i < sp.size(); i++) { c.push_back(rootPow2(sp[i], 55)); c.push_back(rootPow2(sp[i], 62)); }
		for (size_t i = 0; i < c.size(); i++) {
			if (!mc::state(mc::hashBytes(&c[i], sizeof(c[i])))) continue;
			mc::what("fixed_power " + ref::str(c[i]));
			Fp12 in, out; C(in, c[i]); Compress::fixed_power(out, in); mc::step(); mc::trace();
			if (A(out) != ref::pow(c[i], abs(ref::curve().z)) || !canon(out) || A(in) != c[i]) mc::fail("fixed_power of " + ref::str(c[i]));
		}
	});
#else
	mc::domain("pow_neg_t", []() {
		std::vector<ref::F12> c = cycloSet(true);
		for (size_t i = 0; i < c.size(); i++) {
			if (!mc::state(mc::hashBytes(&c[i], sizeof(c[i])))) continue;
			mc::what("pow_neg_t " + ref::str(c[i]));
			Fp12 in, out; C(in, c[i]); Fp12::pow_neg_t(out, in); mc::step(); mc::trace();
			if (A(out) != ref::powU(c[i], -ref::curve().z) || !canon(out) || A(in) != c[i]) mc::fail("pow_neg_t of " + ref::str(c[i]));
		}
	});
#endif
	mc::domain("unit sequences", [=]() { // squarings, products, Frobenius and compressed squarings in any order, depth 3
		std::vector<ref::F12> c = cycloSet(false); std::vector<std::pair<ref::F12, int> > fr;
		for (size_t i = 0; i < c.size(); i += 1) fr.push_back(std::make_pair(c[i], 0));
		while (!fr.empty()) {
			ref::F12 x = fr.back().first; int d = fr.back().second; fr.pop_back();
			if (!mc::state(mc::mix(mc::hashBytes(&x, sizeof(x)), d), d == 0)) { if (!mc::ctx().onlySet) continue; }
			mc::what("unit sequence " + ref::str(x));
			for (int o = 0; o < 6; o++) {
				Fp12 a; C(a, x); ref::F12 e;
				if (o == 0) { a.sqru(); e = x * x; } else if (o == 1) { a *= a; e = x * x; } else if (o == 2) { Fp12 t; a.Frobenius(t); a = t; e = ref::frob(x, 1); }
				else if (o == 3) { Fp12::square(a); e = x * x; } else if (o == 4) { a.inverse(); e = ref::conj(x); } else { Fp12 t; { Compress q(t, a); Compress::square_n(q, 1); q.decompress(); } a = t; e = x * x; }
				mc::step();
				if (A(a) != e || !canon(a)) { std::ostringstream os; os << "unit operation " << o << " on " << ref::str(x); mc::fail(os.str()); }
				if (d + 1 < (XH() ? 5 : 3)) fr.push_back(std::make_pair(e, d + 1));
			}
			mc::trace();
		}
	});
}
// ---------------------------------------------------------------- C16
static void ownParts()
{
	mc::domain("setters given parts of the object they set", []() {
		std::vector<Fp2> v(6); std::vector<ref::F2> r(6);
		for (int i = 0; i < 6; i++) { r[i] = ref::mk2(ref::Fz(ops::dense(2 * i)), ref::Fz(ops::dense(2 * i + 1))); if (i == 4) r[i] = ref::F2i(0, 0); C(v[i], r[i]); }
		for (int c = 0; c < 27 * 8; c++) { // every choice of parts; bit k of c / 27: argument k comes from outside
			if (!mc::state(c)) continue;
			int q[3] = { c % 3, c / 3 % 3, c / 9 % 3 }, ext = c / 27; std::ostringstream os; os << "Fp6::set, parts " << q[0] << q[1] << q[2] << ", from outside " << ext; mc::what(os.str());
			Fp6 x(v[0], v[1], v[2]); const Fp2 *a[3]; for (int k = 0; k < 3; k++) a[k] = ext >> k & 1 ? &v[3 + q[k]] : &x.getFp2()[q[k]];
			x.set(*a[0], *a[1], *a[2]); mc::step();
			for (int k = 0; k < 3; k++) if (A(x.getFp2()[k]) != r[(ext >> k & 1 ? 3 : 0) + q[k]]) mc::fail(os.str() + ": wrong coefficient");
			mc::trace();
		}
		for (int c = 0; c < 46656; c++) {
			if (!mc::state(1000 + c)) continue;
			int q[6], t = c; for (int k = 0; k < 6; k++) { q[k] = t % 6; t /= 6; }
			std::ostringstream os; os << "Fp12::set, parts "; for (int k = 0; k < 6; k++) os << q[k]; mc::what(os.str());
			Fp12 x; x.set(v[0], v[1], v[2], v[3], v[4], v[5]); Fp2 *a = x.getFp2();
			x.set(a[q[0]], a[q[1]], a[q[2]], a[q[3]], a[q[4]], a[q[5]]); mc::step();
			for (int k = 0; k < 6; k++) if (A(x.getFp2()[k]) != r[q[k]]) mc::fail(os.str() + ": wrong coefficient");
			mc::trace();
		}
	});
}
static void c16()
{
	ownParts();
	void (*fs[])(std::vector<Op>&) = { fpOps, fpInvOps, dblOps, fp2Ops, fp2InvOps, dbl2Ops, fp6Ops, fp6InvOps, dbl6Ops, fp12Ops, fp12InvOps, sparseOps, frobOps, cycloOps, fp2COps, dbl2COps, fp6COps, dbl6COps, fp12COps, compOps, fpFastOps, fpPortOps, dblPortOps };
	for (size_t f = 0; f < sizeof(fs) / sizeof(*fs); f++) {
		std::vector<Op> t = table(fs[f]);
		for (size_t i = 0; i < t.size(); i++) {
			const Op op = t[i];
			mc::domain("alias " + op.name, [=]() {
				auto alpha = [=](int ty, bool two) -> std::vector<Obj> {
					switch (ty) {
					case TF: return fpSet(two ? 0 : 1);
					case TF2: return two ? tuples(fpSet(0), 2) : tuples(fpSet(0), 2);
					case TF6: return coefTuples(6, 0);
					case TF12: { if (op.flags & PRE_UNIT) { std::vector<ref::F12> c = cycloSet(false); std::vector<Obj> xs; for (size_t k = 0; k < c.size(); k++) xs.push_back(objOf(c[k])); return xs; } std::vector<Obj> s = coefTuples(12, 0); if (!two) return s; std::vector<Obj> k; for (size_t i = 0; i < s.size(); i += 3) k.push_back(s[i]); return k; }
					case TD: return dblSet(0);
					case TD2: { std::vector<Obj> s = dblTuples(2, 0), k; for (size_t i = 0; i < s.size(); i += two ? 3 : 1) k.push_back(s[i]); return k; }
					case TD6: { std::vector<Obj> s = dblTuples(6, 0); return s; }
					}
					return std::vector<Obj>(1, Obj(1));
				};
				bool two = op.ty != TNONE || (op.flags & INOUT);
				std::vector<Obj> xs = alpha(op.tx, two), ys = op.ty == TNONE ? xs : alpha(op.ty, two), zs = alpha(op.tz, two);
				exhaust(op, zs, xs, ys);
			});
		}
	}
}

int main(int argc, char **argv)
{
	lib::init(argc, argv);
	std::string prop = mc::arg(argc, argv, "--prop", "C04");
	if (prop == "C04") c04();
	else if (prop == "C05") c05();
	else if (prop == "C06") c06();
	else if (prop == "C07") c07();
	else if (prop == "C08") c08();
	else if (prop == "C09") c09();
	else if (prop == "C16") c16();
	else return 3;
	return mc::runAll();
}
