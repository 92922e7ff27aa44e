/*
	C01 bilinearity, C02 pairing value, C03 split pairing, C10 group law,
	C11 scalar multiplication and powering.
*/
#include "ops.h"
#include "points.h"
#include <algorithm>
using namespace pts;
using ops::TF;

static bool TH() { return mc::ctx().thorough(); }
static uint64_t hp(const void *p, size_t n, uint64_t h = 7) { return mc::hashBytes(p, n, h); }
template<class T> static uint64_t hr(const Rep<T>& r, uint64_t h = 7) { return hp(r.c, sizeof(r.c), h); }

// =================================================================== C10
template<class T> static void chk(const T *out, const ref::Pt<typename Grp<T>::R>& want, const std::string& what)
{
	mc::step();
	if (!canon(out[2]) || (!A(out[2]).isZero() && !canon3(out))) mc::fail(what + ": coordinates not reduced " + show(out)); // X and Y of infinity are left over
	if (!(Apt(out) == want)) mc::fail(what + ": got " + ref::str(Apt(out)) + " instead of " + ref::str(want));
}
template<class T> static void same(const Rep<T>& r, const T *now, const std::string& what)
{
	if (memcmp((const void*)r.c, (const void*)now, sizeof(r.c))) mc::fail(what + ": an operand was changed to " + show(now));
}
template<class T> static void binOps(const Rep<T>& x, const Rep<T>& y, const std::string& nm)
{
	typedef typename Grp<T>::E E; typedef ref::Pt<typename Grp<T>::R> P;
	std::string w = nm + " " + show(x.c) + " and " + show(y.c);
	mc::what(w);
	P s = ref::add(x.a, y.a), d = ref::add(x.a, ref::neg(y.a));
	E a = ec<T>(x), b = ec<T>(y), o;
	memset((void*)&o, 0x5a, sizeof(o));
	E::add(o, a, b); chk(o.p, s, "add " + w); same(x, a.p, "add " + w); same(y, b.p, "add " + w);
	memset((void*)&o, 0x5a, sizeof(o));
	E::sub(o, a, b); chk(o.p, d, "sub " + w); same(x, a.p, "sub " + w); same(y, b.p, "sub " + w);
	o = a + b; chk(o.p, s, "operator+ " + w);
	o = a - b; chk(o.p, d, "operator- " + w); same(x, a.p, "operators " + w); same(y, b.p, "operators " + w);
	o = a; o += b; chk(o.p, s, "+= " + w); same(y, b.p, "+= " + w);
	o = a; o -= b; chk(o.p, d, "-= " + w); same(y, b.p, "-= " + w);
	o = a; E::add(o, o, b); chk(o.p, s, "add z=x " + w);
	o = b; E::add(o, a, o); chk(o.p, s, "add z=y " + w);
	o = a; E::sub(o, o, b); chk(o.p, d, "sub z=x " + w);
	o = b; E::sub(o, a, o); chk(o.p, d, "sub z=y " + w);
	T q[3]; bn::ecop::ECAdd(q, x.c, y.c); chk(q, s, "ECAdd " + w);
	bool eq = x.a == y.a;
	if ((a == b) != eq || (a != b) == eq || (b == a) != eq) mc::fail("equality " + w);
	mc::step(2);
	same(x, a.p, "== " + w); same(y, b.p, "== " + w);
	mc::outcome(x.a.inf || y.a.inf ? "infinite operand" : eq ? "equal" : x.a == ref::neg(y.a) ? "opposite" : "generic");
}
template<class T> static void unOps(const Rep<T>& x)
{
	typedef typename Grp<T>::E E; typedef ref::Pt<typename Grp<T>::R> P; typedef typename Grp<T>::R R;
	std::string w = std::string(Grp<T>::name()) + " " + show(x.c);
	mc::what(w);
	P two = ref::add(x.a, x.a);
	E a = ec<T>(x), o;
	memset((void*)&o, 0x5a, sizeof(o));
	E::dbl(o, a); chk(o.p, two, "dbl " + w); same(x, a.p, "dbl " + w);
	o = a; E::dbl(o, o); chk(o.p, two, "dbl in place " + w);
	E::add(o, a, a); chk(o.p, two, "add same object " + w); same(x, a.p, "add " + w);
	o = a; E::add(o, o, o); chk(o.p, two, "add all the same object " + w);
	o = a; o += o; chk(o.p, two, "+= itself " + w);
	o = a; o -= o; chk(o.p, ref::infPt<R>(), "-= itself " + w);
	E::sub(o, a, a); chk(o.p, ref::infPt<R>(), "sub same object " + w); same(x, a.p, "sub " + w);
	E::neg(o, a); chk(o.p, ref::neg(x.a), "neg " + w); same(x, a.p, "neg " + w);
	o = a; E::neg(o, o); chk(o.p, ref::neg(x.a), "neg in place " + w);
	T q[3]; bn::ecop::ECDouble(q, x.c); chk(q, two, "ECDouble " + w);
	o = a; o.normalize(); chk(o.p, x.a, "normalize " + w);
	R z = A(o.p[2]); if (!x.a.inf && !(z == Zs<R>::all(1)[0])) mc::fail("normalize " + w + ": Z is not 1");
	if (!x.a.inf && !(A(o.p[0]) == x.a.x && A(o.p[1]) == x.a.y)) mc::fail("normalize " + w + ": coordinates");
	o.normalize(); chk(o.p, x.a, "normalize twice " + w);
	bn::ecop::NormalizeJac(q, x.c); chk(q, x.a, "NormalizeJac " + w);
	if (!x.a.inf && !(A(q[2]) == Zs<R>::all(1)[0])) mc::fail("NormalizeJac " + w + ": Z is not 1");
	memcpy((void*)q, x.c, sizeof(q)); bn::ecop::NormalizeJac(q, q); chk(q, x.a, "NormalizeJac in place " + w);
	if (a.isZero() != x.a.inf) mc::fail("isZero " + w);
	if (!a.isValid()) mc::fail("isValid refuses " + w);
	if (!(a == a) || a != a) mc::fail("equality with itself " + w);
	E c; c.clear(); if (!c.isZero() || !(Apt(c.p) == ref::infPt<R>())) mc::fail("clear");
	if ((a == c) != x.a.inf || (c == a) != x.a.inf) mc::fail("equality with infinity " + w);
	mc::step(6);
	E n; n.set(x.c[0], x.c[1], x.c[2]); chk(n.p, x.a, "set " + w);
	E m(x.c[0], x.c[1], x.c[2]); chk(m.p, x.a, "constructor " + w);
	if (!x.a.inf) { T X, Y; C(X, x.a.x); C(Y, x.a.y); E s; s.set(X, Y); chk(s.p, x.a, "set(x, y) " + w); E t(X, Y); chk(t.p, x.a, "constructor(x, y) " + w); }
}
template<class T> static std::vector<ref::Pt<typename Grp<T>::R> > pool(int n)
{
	typedef ref::Pt<typename Grp<T>::R> P; typedef typename Grp<T>::R R;
	std::vector<P> v; P g = Grp<T>::gen(), h = Grp<T>::other(0);
	v.push_back(ref::infPt<R>()); v.push_back(g); v.push_back(ref::neg(g)); v.push_back(ref::add(g, g)); v.push_back(h);
	v.push_back(ref::neg(ref::add(g, g))); v.push_back(ref::add(ref::add(g, g), g)); v.push_back(ref::neg(h)); v.push_back(ref::add(g, h));
	// points with the same x (other roots of unity give the same y): zeta*x
	{ P e = g; R t = g.x; mpz_class ez = (ref::curve().p - 1) / 3; R cz = fint(t, 1); ref::F zeta; for (int k = 2;; k++) { zeta = ref::pow(ref::Fi(k), ez); if (zeta != ref::Fi(1)) break; } e.x = e.x * zeta; (void)cz; v.push_back(e); v.push_back(ref::neg(e)); e.x = e.x * zeta; v.push_back(e); }
	v.push_back(ref::mul(g, ref::curve().r / 2)); v.push_back(Grp<T>::other(1));
	if ((int)v.size() > n) v.resize(n);
	return v;
}
/*
	kin of a representation: triples on the curve which share two of the three coordinates
	with it (sixth roots of unity), and representations of the same point with the same
	real part of Z
*/
static ref::F cubeRoot1() { mpz_class e = (ref::curve().p - 1) / 3; for (int k = 2;; k++) { ref::F z = ref::pow(ref::Fi(k), e); if (z != ref::Fi(1)) return z; } }
static bool partner(ref::F&, const ref::F&) { return false; }
static bool partner(ref::F2& l, const ref::F2& z) { l = ref::mk2(ref::Fi(1) + z.b, z.a); return !l.isZero() && !z.isZero(); } // Re(l z) = Re(z)
template<class T> static std::vector<Rep<T> > kin(const Rep<T>& x)
{
	typedef typename Grp<T>::R R; std::vector<Rep<T> > v; if (x.a.inf) return v;
	const ref::F w = cubeRoot1(), w2 = w * w, one = ref::Fi(1), u[6] = { one, w, w2, -one, -w, -w2 };
	auto put = [&](const R& X, const R& Y, const R& Z) { Rep<T> r; C(r.c[0], X); C(r.c[1], Y); C(r.c[2], Z); R iz = ref::inv(Z), i2 = iz * iz; r.a = ref::mkPt(X * i2, Y * i2 * iz); if (!Grp<T>::on(r.a)) mc::fail("model error: kin not on the curve"); v.push_back(r); };
	const R X = A(x.c[0]), Y = A(x.c[1]), Z = A(x.c[2]);
	for (int i = 1; i < 3; i++) put(X * u[i], Y, Z);
	put(X, -Y, Z);
	for (int i = 1; i < 6; i++) put(X, Y, Z * u[i]);
	for (int i = 1; i < 6; i++) put(X * u[i] * u[i], Y * u[i] * u[i] * u[i], Z * u[i]); // other representations
	R l; if (partner(l, Z)) put(X * l * l, Y * l * l * l, Z * l);
	return v;
}
static bool onHom3(const Fp *p); static bool onHom3(const Fp2 *p); static bool onHom2(const Fp *p); static bool onHom2(const Fp2 *p);
template<class T> static void groupDomains()
{
	typedef typename Grp<T>::R R; typedef ref::Pt<R> P; typedef typename Grp<T>::E E;
	std::string nm = Grp<T>::name();
	mc::domain(nm + " pairs", [=]() {
		std::vector<P> ps = pool<T>(20); int nr = 7;
		for (size_t i = 0; i < ps.size(); i++) for (size_t j = 0; j < ps.size(); j++) {
			std::vector<Rep<T> > a = reps<T>(ps[i], nr), b = reps<T>(ps[j], nr);
			for (size_t k = 0; k < a.size(); k++) for (size_t l = 0; l < b.size(); l++) {
				if (!mc::state(hr(b[l], hr(a[k])))) continue;
				binOps<T>(a[k], b[l], nm); mc::trace();
				if (mc::wantSample() && k == 1 && l == 2) mc::sample("add/sub/== of " + show(a[k].c) + " and " + show(b[l].c));
			}
		}
	});
	mc::domain(nm + " structured pairs", [=]() {
		// coordinates, and differences of coordinates, of special shapes
		std::vector<P> ps = structured(typename Grp<T>::R(), TH() ? 10 : 5); std::vector<R> zs = Zs<R>::all(TH() ? 7 : 4);
		for (size_t i = 0; i < ps.size(); i++) {
			for (size_t j = 0; j < ps.size(); j++) for (size_t z = 0; z < zs.size(); z++) { // the same Z on both sides keeps the differences special
				Rep<T> a, b; a.a = ps[i]; b.a = ps[j]; Cpt(a.c, a.a, zs[z]); Cpt(b.c, b.a, zs[z]);
				if (!mc::state(hr(b, hr(a)))) continue;
				binOps<T>(a, b, nm + " structured"); mc::trace();
			}
			std::vector<Rep<T> > a = reps<T>(ps[i], 3); for (size_t k = 0; k < a.size(); k++) { if (!mc::state(hr(a[k], 3))) continue; unOps<T>(a[k]); mc::trace(); }
			std::vector<Rep<T> > m = reps<T>(ref::neg(ps[i]), 2); for (size_t k = 0; k < m.size(); k++) { if (!mc::state(hr(m[k], hr(a[1])))) continue; binOps<T>(a[1], m[k], nm + " structured"); binOps<T>(a[0], m[k], nm + " structured"); mc::trace(); }
		}
	});
	mc::domain(nm + " consecutive calls", [=]() {
		P ps[2] = { Grp<T>::gen(), Grp<T>::other(0) };
		for (int i = 0; i < 2; i++) { std::vector<Rep<T> > xs = reps<T>(ps[i], 5), ys = reps<T>(ps[1 - i], 2); const Rep<T>& y = ys[1];
			for (size_t q = 0; q < xs.size(); q += 2) { std::vector<Rep<T> > ks = kin<T>(xs[q]);
				for (size_t k = 0; k < ks.size(); k++) {
					if (!mc::state(hr(ks[k], hr(xs[q])))) continue;
					const Rep<T> *seq[3] = { &xs[q], &ks[k], &xs[q] };
					for (int n = 0; n < 3; n++) unOps<T>(*seq[n]);
					for (int n = 0; n < 3; n++) binOps<T>(*seq[n], y, nm + " consecutive");
					for (int n = 0; n < 3; n++) binOps<T>(y, *seq[n], nm + " consecutive");
					// the same call three times in a row, one function at a time
					typename Grp<T>::E e[3], b = ec<T>(y), o; for (int n = 0; n < 3; n++) e[n] = ec<T>(*seq[n]); const std::string w = nm + " consecutive " + show(xs[q].c) + " and " + show(ks[k].c); mc::what(w);
					for (int n = 0; n < 3; n++) { o = e[n] + b; chk(o.p, ref::add(seq[n]->a, y.a), w + " +"); } for (int n = 0; n < 3; n++) { o = b + e[n]; chk(o.p, ref::add(seq[n]->a, y.a), w + " + reversed"); } for (int n = 0; n < 3; n++) { o = b - e[n]; chk(o.p, ref::add(y.a, ref::neg(seq[n]->a)), w + " -"); }
					for (int n = 0; n < 3; n++) { E::dbl(o, e[n]); chk(o.p, ref::add(seq[n]->a, seq[n]->a), w + " dbl"); } for (int n = 0; n < 3; n++) { o = e[n]; o.normalize(); chk(o.p, seq[n]->a, w + " normalize"); } for (int n = 0; n < 3; n++) { T t[3]; bn::ecop::NormalizeJac(t, seq[n]->c); chk(t, seq[n]->a, w + " NormalizeJac"); }
					for (int n = 0; n < 3; n++) { mc::step(); if ((e[n] == e[0]) != (seq[n]->a == xs[q].a) || (b == e[n]) != (y.a == seq[n]->a)) mc::fail(w + ": equality"); }
					for (int n = 0; n < 3; n++) { E m; E::neg(m, e[n]); chk(m.p, ref::neg(seq[n]->a), w + " neg"); mc::step(); if (!e[n].isValid()) mc::fail(w + ": isValid"); E bad = e[n]; bad.p[1] += T(1); if (bad.isValid()) mc::fail(w + ": isValid accepts a neighbour"); }
					mc::trace();
				} } }
	});
	mc::domain(nm + " unary", [=]() {
		std::vector<P> ps = pool<T>(20);
		for (size_t i = 0; i < ps.size(); i++) { std::vector<Rep<T> > a = reps<T>(ps[i], 7); for (size_t k = 0; k < a.size(); k++) { if (!mc::state(hr(a[k]))) continue; unOps<T>(a[k]); mc::trace(); } }
	});
	mc::domain(nm + " sequences", [=]() {
		// registers r0, r1; every operation, any result register; states keep their concrete representation
		struct S { T c[2][3]; P a[2]; };
		P g = Grp<T>::gen(), h = Grp<T>::other(0);
		std::vector<S> fr;
		P st[4][2] = { { g, ref::infPt<R>() }, { g, h }, { g, ref::neg(g) }, { ref::add(g, g), g } };
		for (int i = 0; i < 4; i++) for (int zi = 0; zi < 2; zi++) { S s; for (int k = 0; k < 2; k++) { std::vector<Rep<T> > rs = reps<T>(st[i][k], 3); const Rep<T>& r = rs[(zi + k) % rs.size()]; memcpy((void*)s.c[k], r.c, sizeof(r.c)); s.a[k] = r.a; } fr.push_back(s); }
		int depth = TH() ? 6 : 4;
		for (int d = 0; d < depth; d++) {
			std::vector<S> nx;
			for (size_t i = 0; i < fr.size(); i++) {
				const S& s = fr[i];
				if (!mc::state(hp(s.c, sizeof(s.c), d), d == 0 && !mc::ctx().onlySet)) { if (!mc::ctx().onlySet) continue; }
				std::string w = nm + " sequence at " + show(s.c[0]) + " , " + show(s.c[1]);
				mc::what(w);
				for (int o = 0; o < 9; o++) for (int k = 0; k < 2; k++) {
					S t = s; E a, b; memcpy((void*)a.p, s.c[k], sizeof(s.c[k])); memcpy((void*)b.p, s.c[1 - k], sizeof(s.c[k]));
					const P &pa = s.a[k], &pb = s.a[1 - k]; P e = pa; const char *on = "";
					switch (o) {
					case 0: a += b; e = ref::add(pa, pb); on = "+="; break;
					case 1: a -= b; e = ref::add(pa, ref::neg(pb)); on = "-="; break;
					case 2: E::dbl(a, a); e = ref::add(pa, pa); on = "dbl"; break;
					case 3: E::neg(a, a); e = ref::neg(pa); on = "neg"; break;
					case 4: a.normalize(); on = "normalize"; break;
					case 5: a = b; e = pb; on = "copy"; break;
					case 6: a *= 3; e = ref::add(ref::add(pa, pa), pa); on = "*3"; break;
					case 7: E::add(a, b, a); e = ref::add(pb, pa); on = "b+a"; break;
					case 8: a = a * mie::Vuint(2) - b; e = ref::add(ref::add(pa, pa), ref::neg(pb)); on = "2a-b"; break;
					}
					chk(a.p, e, w + " operation " + on);
					if ((a == b) != (e == pb)) mc::fail(w + " equality after " + on);
					memcpy((void*)t.c[k], a.p, sizeof(t.c[k])); t.a[k] = e;
					if (d + 1 < depth) nx.push_back(t);
				}
				mc::trace();
			}
			fr.swap(nx);
		}
	});
	mc::domain(nm + " triples (associativity)", [=]() {
		std::vector<P> ps = pool<T>(14);
		for (size_t i = 0; i < ps.size(); i++) for (size_t j = 0; j < ps.size(); j++) for (size_t k = 0; k < ps.size(); k++) {
			if (!mc::state(mc::mix(mc::mix(i, j), k))) continue;
			std::vector<Rep<T> > a = reps<T>(ps[i], 3), b = reps<T>(ps[j], 3), c = reps<T>(ps[k], 3);
			E x = ec<T>(a[i % a.size()]), y = ec<T>(b[j % b.size()]), z = ec<T>(c[k % c.size()]);
			P e = ref::add(ref::add(ps[i], ps[j]), ps[k]);
			E l = (x + y) + z, r = x + (y + z), m = z + x + y;
			std::ostringstream os; os << nm << " triple " << i << " " << j << " " << k; mc::what(os.str());
			chk(l.p, e, os.str()); chk(r.p, e, os.str()); chk(m.p, e, os.str());
			if (!(l == r) || !(r == m)) mc::fail(os.str() + ": equality"); mc::trace();
		}
	});
	mc::domain(nm + " on-curve", [=]() {
		// every representation of points on and next to the curve
		std::vector<P> ps = pool<T>(9), all = ps; std::vector<R> zs = Zs<R>::all(7);
		for (size_t i = 0; i < ps.size(); i++) if (!ps[i].inf) {
			for (int dx = -1; dx <= 1; dx++) for (int dy = -1; dy <= 1; dy++) { P q = ps[i]; q.x = q.x + fint(q.x, dx); q.y = q.y + fint(q.y, dy); all.push_back(q); }
			P q = ps[i]; R t = q.x; q.x = q.y; q.y = t; all.push_back(q); q = ps[i]; q.x = zeroOf(q.x); all.push_back(q); q = ps[i]; q.y = zeroOf(q.y); all.push_back(q); q = ps[i]; q.x = -q.x; all.push_back(q);
			q.x = zeroOf(q.x); q.y = zeroOf(q.y); all.push_back(q);
		}
		for (size_t i = 0; i < all.size(); i++) {
			const P& q = all[i]; bool on = Grp<T>::on(q);
			std::vector<Rep<T> > rs = reps<T>(q, 7);
			for (size_t k = 0; k < rs.size(); k++) {
				if (!mc::state(hr(rs[k]))) continue;
				E e = ec<T>(rs[k]); std::string w = nm + " " + show(rs[k].c); mc::what(w);
				mc::step(2); mc::trace(); mc::outcome(on ? "on" : "off");
				if (e.isValid() != on) mc::fail("isValid of " + w); same(rs[k], e.p, "isValid " + w);
				bool thr = false; E s; try { s.set(rs[k].c[0], rs[k].c[1], rs[k].c[2]); } catch (std::exception&) { thr = true; } if (thr == on) mc::fail("set with verification of " + w);
				s.set(rs[k].c[0], rs[k].c[1], rs[k].c[2], false); if (memcmp((void*)s.p, rs[k].c, sizeof(rs[k].c))) mc::fail("set without verification of " + w);
			}
			if (q.inf) continue;
			for (size_t k = 0; k < zs.size(); k++) { // homogeneous coordinates (X/Z, Y/Z)
				T h[3], o[3]; C(h[0], q.x * zs[k]); C(h[1], q.y * zs[k]); C(h[2], zs[k]);
				if (!mc::state(hp(h, sizeof(h), 99))) continue;
				std::string w = nm + " homogeneous " + show(h); mc::what(w); mc::step(3);
				if (onHom3(h) != on) mc::fail("isOn*Hom3 " + w);
				if (k == 0 && onHom2(h) != on) mc::fail("isOn*Hom2 " + w);
				bn::ecop::NormalizeHom(o, h); if (!(A(o[0]) == q.x && A(o[1]) == q.y && A(o[2]) == fint(q.x, 1))) mc::fail("NormalizeHom " + w);
			}
		}
		T h[3]; memset((void*)h, 0, sizeof(h)); T o[3]; C(h[0], Grp<T>::gen().x); bn::ecop::NormalizeHom(o, h); if (!A(o[2]).isZero()) mc::fail(nm + " NormalizeHom of infinity"); if (!onHom3(h)) mc::fail(nm + " isOn*Hom3 of infinity");
	});
}
static bool onHom3(const Fp *p) { return bn::ecop::isOnECHom3(p); }
static bool onHom3(const Fp2 *p) { return bn::ecop::isOnTwistECHom3(p); }
static bool onHom2(const Fp *p) { return bn::ecop::isOnECHom2(p); }
static bool onHom2(const Fp2 *p) { return bn::ecop::isOnTwistECHom2(p); }

static P2 untw(const ref::Pt<ref::F12>& q) // inverse of the untwist
{
	ref::F12 x = q.x * ref::inv(ref::w2()), y = q.y * ref::inv(ref::w3());
	P2 r = ref::mkPt(x.a.c[0], y.a.c[0]);
	ref::Pt<ref::F12> b = ref::untwist(r); if (!(b.x == q.x && b.y == q.y)) mc::fail("model error: Frobenius leaves the twist");
	return r;
}
static void c10()
{
	groupDomains<Fp>(); groupDomains<Fp2>();
	if (ref::curve().b != 82) mc::domain("G2 complete small subgroup", []() {
		// a subgroup of the twist whose whole addition table fits: every pair for order 13, a band for order 10069
		P2 s = smallPt(); int q = smallOrder(); std::vector<P2> v; P2 t = ref::infPt<ref::F2>();
		int n = q < 100 ? q : 40;
		for (int i = 0; i < n; i++) { v.push_back(t); t = ref::add(t, s); }
		if (q < 100 && !t.inf) mc::fail("model error: order of the small point");
		if (q >= 100) { t = ref::neg(s); for (int i = 0; i < 10; i++) { v.push_back(t); t = ref::add(t, ref::neg(s)); } }
		for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v.size(); j++) {
			std::vector<Rep<Fp2> > a = reps<Fp2>(v[i], q < 100 ? 5 : 2), b = reps<Fp2>(v[j], q < 100 ? 5 : 2);
			for (size_t k = 0; k < a.size(); k++) for (size_t l = 0; l < b.size(); l++) { if (!mc::state(hr(b[l], hr(a[k])))) continue; binOps<Fp2>(a[k], b[l], "small subgroup"); mc::trace(); }
		}
		for (size_t i = 0; i < v.size(); i++) { std::vector<Rep<Fp2> > a = reps<Fp2>(v[i], 5); for (size_t k = 0; k < a.size(); k++) { if (!mc::state(hr(a[k], 5))) continue; unOps<Fp2>(a[k]); mc::trace(); } }
	});
	mc::domain("Frobenius on the twist", []() {
		std::vector<P2> ps = pool<Fp2>(20); for (int i = 0; i < (TH() ? 200 : 40); i++) ps.push_back(twistPt(i));
		for (size_t i = 0; i < ps.size(); i++) {
			if (ps[i].inf) continue;
			if (!mc::state(mc::mix(3, i))) continue;
			Fp2 in[2], out[2], cp[2]; C(in[0], ps[i].x); C(in[1], ps[i].y); memcpy((void*)cp, in, sizeof(in));
			ref::Pt<ref::F12> u = ref::untwist(ps[i]);
			for (int k = 0; k < 3; k++) {
				int e = k == 0 ? 1 : k == 1 ? 2 : 8;
				P2 w = untw(ref::mkPt(ref::frob(u.x, e), ref::frob(u.y, e)));
				if (k == 0) bn::ecop::FrobEndOnTwist_1(out, in); else if (k == 1) bn::ecop::FrobEndOnTwist_2(out, in); else bn::ecop::FrobEndOnTwist_8(out, in);
				mc::step(); std::ostringstream os; os << "Frobenius endomorphism, power " << e << ", of " << ref::str(ps[i]);
				if (!(A(out[0]) == w.x && A(out[1]) == w.y) || !canon(out[0]) || !canon(out[1])) mc::fail(os.str());
				if (memcmp((void*)cp, (void*)in, sizeof(in))) mc::fail(os.str() + ": input changed");
				memcpy((void*)out, in, sizeof(in));
			}
			mc::trace();
		}
	});
}

// =================================================================== C11
static std::vector<mpz_class> scalars(int lv)
{
	const ref::Curve& c = ref::curve(); std::vector<mpz_class> v; mpz_class one = 1;
	int n = lv == 0 ? 20 : 70;
	for (int i = 0; i <= n; i++) v.push_back(i);
	const int bs[] = { 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 95, 96, 127, 128, 129, 191, 192, 193, 253, 254, 255, 256, 257, 319, 320 };
	for (size_t i = 0; i < sizeof(bs) / sizeof(*bs); i++) for (int d = -1; d <= 1; d++) { if (lv == 0 && bs[i] > 130) continue; v.push_back((one << bs[i]) + d); }
	for (int d = -3; d <= 3; d++) { v.push_back(c.r + d); if (lv) { v.push_back(c.p + d); v.push_back(2 * c.r + d); v.push_back(c.r / 2 + d); } }
	if (lv) {
		// every pattern of zero / one / full words
		const mp_limb_t al[] = { 0, 1, ~mp_limb_t(0), mp_limb_t(1) << 63 };
		for (int m = 0; m < 256; m++) { mp_limb_t w[4] = { al[m & 3], al[m >> 2 & 3], al[m >> 4 & 3], al[m >> 6] }; if (lv == 1 && (m * 7 + m / 16) % 3) continue; v.push_back(ref::toMpz(w, 4)); }
		if (lv >= 3) { const mp_limb_t bl[] = { 0, 1, 2, ~mp_limb_t(0), mp_limb_t(1) << 63, 0xffffffffULL, 0x100000000ULL }; for (int m = 0; m < 2401; m++) { mp_limb_t w[4] = { bl[m % 7], bl[m / 7 % 7], bl[m / 49 % 7], bl[m / 343] }; v.push_back(ref::toMpz(w, 4)); } }
		v.push_back(ref::mod().p[0]); v.push_back(abs(c.z)); v.push_back(c.t); v.push_back(c.t - 1); v.push_back(abs(6 * c.z + 2)); v.push_back(cofactor()); v.push_back(c.r * c.r);
		v.push_back((mpz_class(1) << 511) + 12345); v.push_back((one << 575) - 1);
	}
	std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
	return v;
}
// scalars with a leading part which is a multiple of the order n of the point or next to one:
// the result is at infinity, or meets the point itself or its negative, before the last bit
static std::vector<mpz_class> wrapScalars(const mpz_class& n, bool all)
{
	std::vector<mpz_class> pre, v; pre.push_back(n); pre.push_back(n - 1); pre.push_back(n + 1); pre.push_back(n / 2); pre.push_back(n / 2 + 1); pre.push_back(2 * n); pre.push_back(3 * n); if (all) { pre.push_back(2 * n + 1); pre.push_back(2 * n - 1); pre.push_back(5 * n); }
	static const int ss[] = { 1, 2, 3, 4, 31, 32, 33, 63, 64, 65, 128, 192, 256, 320 };
	for (size_t i = 0; i < pre.size(); i++) for (size_t j = 0; j < sizeof(ss) / sizeof(*ss); j++) {
		const int s = ss[j]; const mpz_class h = pre[i] << s, top = mpz_class(1) << s; if (mpz_sizeinbase(h.get_mpz_t(), 2) > 576) continue;
		if (s <= 4) { for (int t = 0; t < 1 << s; t++) v.push_back(h + t); continue; }
		if (!all && s > 65 && i > 2) continue;
		v.push_back(h); v.push_back(h + 1); v.push_back(h + 5); v.push_back(h + top - 1); v.push_back(h + top / 2); v.push_back(h + top / 2 + 1);
	}
	std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
	return v;
}
static std::string showK(const mpz_class& k) { return hex(k); }
template<class T> static void mulAll(const Rep<T>& x, const mpz_class& k, const ref::Pt<typename Grp<T>::R>& want, const ref::Pt<typename Grp<T>::R>& wneg)
{
	typedef typename Grp<T>::E E; typedef ref::Pt<typename Grp<T>::R> P;
	std::string w = std::string(Grp<T>::name()) + " " + showK(k) + " * " + show(x.c); mc::what(w);
	E a = ec<T>(x), o;
	auto run = [&](const char *ty, const P& e, std::function<void(E&, const E&)> f, std::function<void(E&)> g, std::function<E(const E&)> h) {
		std::string s = w + " as " + ty;
		memset((void*)&o, 0x5a, sizeof(o)); f(o, a); chk(o.p, e, s); same(x, a.p, s);
		o = a; f(o, o); chk(o.p, e, s + " in place");
		o = a; g(o); chk(o.p, e, s + " *=");
		o = h(a); chk(o.p, e, s + " operator*"); same(x, a.p, s);
	};
#define RUN(TY, K, W) { const auto& kk = K; run(TY, W, [&](E& z, const E& y) { E::mul(z, y, kk); }, [&](E& z) { z *= kk; }, [&](const E& y) -> E { return y * kk; }); }
	if (k <= 2147483647) RUN("int", (int)k.get_si(), want);
	if (k <= mpz_class(2147483647) + 1) RUN("int", (int)(-(long)k.get_si()), wneg);
	if (k < (mpz_class(1) << 64)) RUN("size_t", (size_t)k.get_ui(), want);
	RUN("mpz_class", k, want);
	{ mpz_class nk = -k; RUN("mpz_class", nk, wneg); }
	if (mpz_sizeinbase(k.get_mpz_t(), 2) <= 576) { mp_limb_t b[9]; ref::fromMpz(b, 9, k); Vuint v((const uint64_t*)b, 9); RUN("Vuint", v, want); }
	{ T q[3]; bn::ecop::ScalarMult(q, x.c, k); chk(q, want, w + " ScalarMult"); memcpy((void*)q, x.c, sizeof(q)); bn::ecop::ScalarMult(q, q, k); chk(q, want, w + " ScalarMult in place"); }
#undef RUN
}
template<class T> static void scalarDomains()
{
	typedef typename Grp<T>::R R; typedef ref::Pt<R> P;
	std::string nm = Grp<T>::name();
	mc::domain(nm + " scalars", [=]() {
		std::vector<mpz_class> ks = scalars(TH() ? 3 : 2); std::vector<P> ps; ps.push_back(Grp<T>::gen()); ps.push_back(Grp<T>::other(0)); { ps.push_back(ref::neg(ps[0])); ps.push_back(Grp<T>::other(1)); }
		for (size_t i = 0; i < ps.size(); i++) for (size_t j = 0; j < ks.size(); j++) {
			std::vector<Rep<T> > rs = reps<T>(ps[i], 5);
			for (size_t k = (j + i) % 2 ? 0 : 1; k < rs.size(); k += TH() ? 2 : 3) {
				if (!mc::state(hr(rs[k], mc::hashStr(ks[j].get_str(16))))) continue;
				P e = ref::mul(ps[i], ks[j] % ref::curve().r);
				mulAll<T>(rs[k], ks[j], e, ref::neg(e)); mc::trace(); mc::outcome(e.inf ? "infinity" : "finite");
			}
		}
	});
	mc::domain(nm + " consecutive multiples", [=]() {
		// kin points by one scalar; one point by scalars which differ in one word
		const mpz_class r = ref::curve().r; std::vector<Rep<T> > xs = reps<T>(Grp<T>::gen(), 2); std::vector<mpz_class> ks; ks.push_back(5); ks.push_back(mpz_class("0x123456789abcdef0fedcba9876543210deadbeef") * 3 + 2); ks.push_back(r / 3);
		for (size_t q = 0; q < xs.size(); q++) for (size_t j = 0; j < ks.size(); j++) {
			P e = ref::mul(xs[q].a, ks[j] % r); std::vector<Rep<T> > kn = kin<T>(xs[q]);
			for (size_t k = 0; k < kn.size(); k++) { if (!mc::state(hr(kn[k], hr(xs[q], mc::hashStr(ks[j].get_str(16)))))) continue; P f = ref::mul(kn[k].a, ks[j]); mulAll<T>(xs[q], ks[j], e, ref::neg(e)); mulAll<T>(kn[k], ks[j], f, ref::neg(f)); mulAll<T>(xs[q], ks[j], e, ref::neg(e)); mc::trace();
				typename Grp<T>::E a = ec<T>(xs[q]), b = ec<T>(kn[k]), o; const mpz_class m = ks[j]; for (int n = 0; n < 3; n++) { o = (n == 1 ? b : a) * m; chk(o.p, n == 1 ? f : e, nm + " consecutive multiples, one type"); } mie::Vuint v(m.get_str()); for (int n = 0; n < 3; n++) { o = (n == 1 ? b : a) * v; chk(o.p, n == 1 ? f : e, nm + " consecutive multiples, Vuint"); } if (m < 100) for (int n = 0; n < 3; n++) { o = (n == 1 ? b : a) * (int)m.get_si(); chk(o.p, n == 1 ? f : e, nm + " consecutive multiples, int"); } }
			for (int b = 0; b < 256; b += 31) { const mpz_class k2 = ks[j] + (mpz_class(1) << b); if (!mc::state(hr(xs[q], mc::mix(mc::hashStr(ks[j].get_str(16)), b)))) continue; P f = ref::mul(xs[q].a, k2 % r); mulAll<T>(xs[q], ks[j], e, ref::neg(e)); mulAll<T>(xs[q], k2, f, ref::neg(f)); mulAll<T>(xs[q], ks[j], e, ref::neg(e)); mc::trace();
				typename Grp<T>::E a = ec<T>(xs[q]), o; for (int n = 0; n < 3; n++) { o = a * (n == 1 ? k2 : ks[j]); chk(o.p, n == 1 ? f : e, nm + " consecutive scalars"); } for (int n = 0; n < 3; n++) { o = a * mie::Vuint((n == 1 ? k2 : ks[j]).get_str()); chk(o.p, n == 1 ? f : e, nm + " consecutive scalars, Vuint"); } }
		}
	});
	mc::domain(nm + " scalars past the order", [=]() {
		const mpz_class r = ref::curve().r; std::vector<mpz_class> ks = wrapScalars(r, TH()); std::vector<P> ps; ps.push_back(Grp<T>::gen()); ps.push_back(Grp<T>::other(0)); if (TH()) ps.push_back(ref::neg(ps[0]));
		for (size_t i = 0; i < ps.size(); i++) for (size_t j = 0; j < ks.size(); j++) {
			std::vector<Rep<T> > rs = reps<T>(ps[i], 5); const Rep<T>& x = rs[(i + j) % 2];
			if (!mc::state(hr(x, mc::hashStr(ks[j].get_str(16))))) continue;
			P e = ref::mul(ps[i], ks[j] % r); mulAll<T>(x, ks[j], e, ref::neg(e)); mc::trace(); mc::outcome(e.inf ? "infinity" : "finite");
		}
	});
	mc::domain(nm + " scalars at infinity", [=]() {
		std::vector<mpz_class> ks = scalars(0); std::vector<Rep<T> > rs = reps<T>(ref::infPt<R>(), 5);
		for (size_t j = 0; j < ks.size(); j++) for (size_t k = 0; k < rs.size(); k++) { if (!mc::state(hr(rs[k], mc::hashStr(ks[j].get_str(16))))) continue; mulAll<T>(rs[k], ks[j], rs[k].a, rs[k].a); mc::trace(); }
	});
}
template<class T> struct OneOf; // reference unit
static ref::F refPow(const ref::F& x, const mpz_class& e) { return ref::pow(x, e); }
static ref::F2 refPow(const ref::F2& x, const mpz_class& e) { return ref::pow(x, e); }
static ref::F6 refPow(const ref::F6& x, const mpz_class& e) { return ref::pow(x, e); }
static ref::F12 refPow(const ref::F12& x, const mpz_class& e) { return ref::pow(x, e); }
template<class L, class R> static void powOne(const R& x, const mpz_class& k, const char *nm)
{
	R e = refPow(x, k); L a; C(a, x); std::string w = std::string(nm) + " power of " + ref::str(x) + " by " + showK(k); mc::what(w);
	auto ck = [&](const L& g, const char *ty) { mc::step(); if (A(g) != e || !canon(g)) mc::fail(w + " as " + ty + ": " + ref::str(A(g))); if (A(a) != x) mc::fail(w + ": operand changed"); };
	if (k <= 2147483647) ck(mie::power(a, (int)k.get_si()), "int");
	if (k < (mpz_class(1) << 64)) ck(mie::power(a, (size_t)k.get_ui()), "size_t");
	ck(mie::power(a, k), "mpz_class");
	if (mpz_sizeinbase(k.get_mpz_t(), 2) <= 576) { mp_limb_t b[9]; ref::fromMpz(b, 9, k); Vuint v((const uint64_t*)b, 9); ck(mie::power(a, v), "Vuint"); }
	{ L b; C(b, x); b = mie::power(b, k); ck(b, "mpz_class, assigned to the base"); }
	if (k > 0) { // a negative exponent is refused
		bool thr = false; try { mie::power(a, mpz_class(-k)); } catch (std::exception&) { thr = true; } if (!thr) mc::fail(w + ": negative mpz_class exponent accepted");
		if (k <= 2147483647) { thr = false; try { mie::power(a, -(int)k.get_si()); } catch (std::exception&) { thr = true; } if (!thr) mc::fail(w + ": negative int exponent accepted"); }
	}
}
static void c11()
{
	scalarDomains<Fp>(); scalarDomains<Fp2>();
	if (ref::curve().b != 82) mc::domain("G2 small subgroup scalars", []() {
		// wrap-around at every step: all multiples in a subgroup of small order, scalars past several wraps
		P2 s = smallPt(); int q = smallOrder(); std::vector<mpz_class> ks; for (int i = 0; i <= (q < 100 ? 60 : 24); i++) ks.push_back(i); for (int m = 1; m <= 3; m++) for (int d = -2; d <= 2; d++) ks.push_back(mpz_class(q) * m + d); for (int b = 31; b <= 257; b++) { if (b % 32 == 31 || b % 32 <= 1) ks.push_back(mpz_class(1) << b); } ks.push_back(ref::curve().r); { std::vector<mpz_class> w = wrapScalars(q, TH()); ks.insert(ks.end(), w.begin(), w.end()); }
		for (int i = 0; i < (q < 100 ? q : 6); i++) { P2 b = ref::mul(s, i); std::vector<Rep<Fp2> > rs = reps<Fp2>(b, 2);
			for (size_t j = 0; j < ks.size(); j++) for (size_t k = 0; k < rs.size(); k++) { if (!mc::state(hr(rs[k], mc::hashStr(ks[j].get_str(16), i)))) continue; P2 e = ref::mul(b, ks[j] % q); mulAll<Fp2>(rs[k], ks[j], e, ref::neg(e)); mc::trace(); } }
	});
	mc::domain("power Fp", []() { std::vector<mpz_class> ks = scalars(TH() ? 3 : 2); std::vector<ref::F> xs; for (int i = -3; i <= 3; i++) xs.push_back(ref::Fi(i)); xs.push_back(raw1(1)); xs.push_back(ref::Fz(ops::dense(3)));
		for (size_t i = 0; i < xs.size(); i++) for (size_t j = 0; j < ks.size(); j++) { if (!mc::state(mc::hashStr(ks[j].get_str(16), hp(&xs[i], sizeof(xs[i]))))) continue; powOne<Fp>(xs[i], ks[j], "Fp"); mc::trace(); } });
	mc::domain("power Fp2", []() { std::vector<mpz_class> ks = scalars(TH() ? 3 : 2); std::vector<ref::F2> xs; for (int i = -1; i <= 1; i++) for (int j = -1; j <= 1; j++) xs.push_back(ref::F2i(i, j)); xs.push_back(ref::xi()); xs.push_back(ref::mk2(ref::Fz(ops::dense(3)), ref::Fz(ops::dense(4))));
		for (size_t i = 0; i < xs.size(); i++) for (size_t j = 0; j < ks.size(); j++) { if (!mc::state(mc::hashStr(ks[j].get_str(16), hp(&xs[i], sizeof(xs[i]))))) continue; powOne<Fp2>(xs[i], ks[j], "Fp2"); mc::trace(); } });
	mc::domain("power Fp6", []() { std::vector<mpz_class> ks = scalars(TH() ? 2 : 1); std::vector<ref::F6> xs; xs.push_back(ref::F6i(0)); xs.push_back(ref::F6i(1)); xs.push_back(ref::F6i(-1)); xs.push_back(ref::mk6(ref::F2i(0), ref::F2i(1), ref::F2i(0))); ref::F6 d; for (int i = 0; i < 3; i++) d.c[i] = ref::mk2(ref::Fz(ops::dense(2 * i)), ref::Fz(ops::dense(2 * i + 1))); xs.push_back(d);
		for (size_t i = 0; i < xs.size(); i++) for (size_t j = 0; j < ks.size(); j++) { if (!mc::state(mc::hashStr(ks[j].get_str(16), hp(&xs[i], sizeof(xs[i]))))) continue; powOne<Fp6>(xs[i], ks[j], "Fp6"); mc::trace(); } });
	mc::domain("power Fp12", []() { std::vector<mpz_class> ks = scalars(TH() ? 2 : 1); std::vector<ref::F12> xs; xs.push_back(ref::F12i(0)); xs.push_back(ref::F12i(1)); xs.push_back(ref::F12i(-1)); xs.push_back(ref::mk12(ref::F6i(0), ref::F6i(1))); ref::F6 d; for (int i = 0; i < 3; i++) d.c[i] = ref::mk2(ref::Fz(ops::dense(2 * i)), ref::Fz(ops::dense(2 * i + 1))); xs.push_back(ref::mk12(d, d * d)); xs.push_back(ref::cyclo(xs.back()));
		for (size_t i = 0; i < xs.size(); i++) for (size_t j = 0; j < ks.size(); j++) { if (!mc::state(mc::hashStr(ks[j].get_str(16), hp(&xs[i], sizeof(xs[i]))))) continue; powOne<Fp12>(xs[i], ks[j], "Fp12"); mc::trace(); } });
	mc::domain("small exponents by products", []() {
		// x^k against k-fold products by the library's own multiplication, k*P against k-fold sums
		Ec1 g; { std::vector<Rep<Fp> > r = reps<Fp>(gen1(), 2); g = ec<Fp>(r[1]); } Ec2 h; { std::vector<Rep<Fp2> > r = reps<Fp2>(gen2(), 2); h = ec<Fp2>(r[1]); }
		Ec1 s; s.clear(); Ec2 t; t.clear(); Fp12 f; C(f, ref::mk12(ref::F6i(3), ref::F6i(5))); Fp12 e = 1;
		for (int k = 0; k <= 130; k++) {
			if (mc::state(k)) { std::ostringstream os; os << "k = " << k; mc::what(os.str());
				if (!(g * k == s) || !(h * k == t) || !(g * mie::Vuint(k) == s) || !(h * size_t(k) == t)) mc::fail("k-fold sum, " + os.str());
				if (mie::power(f, k) != e) mc::fail("k-fold product, " + os.str());
				Ec1 n; Ec1::neg(n, s); if (!(g * (-k) == n)) mc::fail("negative multiplier, " + os.str()); mc::step(6); mc::trace(); }
			s += g; t += h; e *= f;
		}
	});
}

// =================================================================== pairing
static std::vector<P1> pool1(int n) { std::vector<P1> v; P1 g = gen1(), h = hash1(2); v.push_back(g); v.push_back(h); v.push_back(ref::neg(g)); v.push_back(ref::add(g, h)); v.push_back(hash1(0)); v.push_back(ref::add(g, g)); v.push_back(hash1(3)); v.push_back(ref::mul(g, ref::curve().r / 2)); for (int i = 4; (int)v.size() < n; i++) v.push_back(hash1(i)); v.resize(n); return v; }
static std::vector<P2> pool2(int n) { std::vector<P2> v; P2 g = gen2(), h = hash2(0); v.push_back(g); v.push_back(h); v.push_back(ref::neg(g)); v.push_back(ref::add(g, h)); v.push_back(hash2(1)); v.push_back(ref::add(g, g)); v.push_back(hash2(2)); v.push_back(ref::mul(g, ref::curve().r / 2)); for (int i = 3; (int)v.size() < n; i++) v.push_back(hash2(i)); v.resize(n); return v; }
static void checkF(const Fp12& f, const ref::F12& e, const std::string& w)
{
	mc::step();
	if (!canon(f)) mc::fail(w + ": result not reduced");
	if (A(f) != e) mc::fail(w + ": got " + ref::str(A(f)) + " instead of " + ref::str(e));
}
static void pairReps(const Rep<Fp2>& q, const Rep<Fp>& p, const ref::F12& e, bool affine)
{
	std::string w = "pairing of " + show(q.c) + " and " + show(p.c); mc::what(w);
	Ec2 Q = ec<Fp2>(q); Ec1 P = ec<Fp>(p); Fp12 f; memset((void*)&f, 0x11, sizeof(f));
	bn::opt_atePairing(f, Q, P); checkF(f, e, w); same(q, Q.p, w); same(p, P.p, w);
	memset((void*)&f, 0, sizeof(f)); bn::opt_atePairingJac<Fp>(f, q.c, p.c); checkF(f, e, w + " (Jacobian entry)");
	Ec2 Qc = Q; Ec1 Pc = P; Qc.normalize(); Pc.normalize(); bn::opt_atePairing(f, Qc, Pc); checkF(f, e, w + " (normalised first)");
	if (affine && !q.a.inf && !p.a.inf) { Fp2 a[2]; Fp b[2]; C(a[0], q.a.x); C(a[1], q.a.y); C(b[0], p.a.x); C(b[1], p.a.y); Fp2 a2[2]; Fp b2[2]; memcpy((void*)a2, a, sizeof(a)); memcpy((void*)b2, b, sizeof(b)); bn::opt_atePairing<Fp>(f, a, b); checkF(f, e, w + " (affine entry)"); if (memcmp((void*)a, (void*)a2, sizeof(a)) || memcmp((void*)b, (void*)b2, sizeof(b))) mc::fail(w + ": affine input changed"); }
	mc::outcome(e == ref::F12i(1) ? "one" : "not one");
}
static void c02()
{
	mc::domain("pairing values", []() {
		int n = TH() ? 40 : 14; std::vector<P1> ps = pool1(n); std::vector<P2> qs = pool2(n);
		for (size_t i = 0; i < qs.size(); i++) for (size_t j = 0; j < ps.size(); j++) {
			if (!mc::state(mc::mix(i, j))) continue;
			ref::F12 e = ref::pairing(qs[i], ps[j]); int nr = TH() ? 5 : 3;
			std::vector<Rep<Fp2> > a = reps<Fp2>(qs[i], nr); std::vector<Rep<Fp> > b = reps<Fp>(ps[j], nr);
			for (size_t k = 0; k < a.size(); k++) for (size_t l = 0; l < b.size(); l++) pairReps(a[k], b[l], e, k == 0 && l == 0);
			if (mc::wantSample()) mc::sample("pairing of " + ref::str(qs[i]) + " and " + ref::str(ps[j]) + " = " + ref::str(e).substr(0, 90) + "...");
			mc::trace();
		}
	});
	mc::domain("pairing representations", []() {
		std::vector<P1> ps = pool1(2); std::vector<P2> qs = pool2(2);
		for (size_t i = 0; i < qs.size(); i++) { ref::F12 e; bool have = false;
			std::vector<Rep<Fp2> > a = reps<Fp2>(qs[i], 7); std::vector<Rep<Fp> > b = reps<Fp>(ps[i], 7);
			for (size_t k = 0; k < a.size(); k++) for (size_t l = 0; l < b.size(); l++) { if (!mc::state(hr(b[l], hr(a[k])))) continue; if (!have) { e = ref::pairing(qs[i], ps[i]); have = true; } pairReps(a[k], b[l], e, false); mc::trace(); } }
	});
	mc::domain("pairing with infinity", []() {
		std::vector<P1> ps = pool1(3); std::vector<P2> qs = pool2(3); ps.push_back(ref::infPt<ref::F>()); qs.push_back(ref::infPt<ref::F2>());
		for (size_t i = 0; i < qs.size(); i++) for (size_t j = 0; j < ps.size(); j++) { if (!qs[i].inf && !ps[j].inf) continue;
			std::vector<Rep<Fp2> > a = reps<Fp2>(qs[i], 5); std::vector<Rep<Fp> > b = reps<Fp>(ps[j], 5);
			for (size_t k = 0; k < a.size(); k++) for (size_t l = 0; l < b.size(); l++) { if (!mc::state(hr(b[l], hr(a[k])))) continue; pairReps(a[k], b[l], ref::F12i(1), false); mc::trace(); } }
	});
	mc::domain("consecutive pairings", []() {
		// an argument, a kin of it, the argument again
		const P2 g = gen2(); const P1 h = gen1(); std::vector<Rep<Fp2> > qs = reps<Fp2>(g, 2); std::vector<Rep<Fp> > ps = reps<Fp>(h, 2); ref::F12 e; bool have = false;
		std::map<std::string, ref::F12> es; auto pr = [&](const P2& q, const P1& p) -> const ref::F12& { std::string k = ref::str(q) + ref::str(p); if (!es.count(k)) es[k] = ref::pairing(q, p); return es[k]; };
		for (int z = 0; z < 2; z++) {
			std::vector<Rep<Fp2> > a = kin<Fp2>(qs[z]); std::vector<Rep<Fp> > b = kin<Fp>(ps[z]);
			for (size_t i = 0; i < a.size() + b.size(); i++) for (int way = 0; way < 3; way++) {
				if (!mc::state(mc::mix(mc::mix(z, i), way))) continue;
				std::ostringstream os; os << "consecutive pairings, representation " << z << ", kin " << i << ", way " << way; mc::what(os.str());
				if (!have) { have = true; e = pr(g, h); }
				for (int n = 0; n < 3; n++) {
					const Rep<Fp2>& q = n == 1 && i < a.size() ? a[i] : qs[z]; const Rep<Fp>& p = n == 1 && i >= a.size() ? b[i - a.size()] : ps[z]; const ref::F12& w = n == 1 ? pr(q.a, p.a) : e;
					Ec2 Q = ec<Fp2>(q); Ec1 P = ec<Fp>(p); Fp12 f; memset((void*)&f, 0x11, sizeof(f));
					if (way == 0) bn::opt_atePairing(f, Q, P); else if (way == 1) bn::opt_atePairingJac<Fp>(f, q.c, p.c); else { Fp2 Qa[2]; C(Qa[0], q.a.x); C(Qa[1], q.a.y); Fp Pa[2]; C(Pa[0], p.a.x); C(Pa[1], p.a.y); bn::opt_atePairing<Fp>(f, Qa, Pa); }
					checkF(f, w, os.str());
				}
				mc::trace();
			}
		}
	});
	mc::domain("many G1 arguments", []() {
		// cheap linear sweep: e(Q, kP) over consecutive k against the reference power of one reference pairing
		P1 g = gen1(); P2 q = gen2(); ref::F12 b = ref::pairing(q, g), e = ref::F12i(1); P1 t = ref::infPt<ref::F>();
		Fp2 Q[2]; C(Q[0], q.x); C(Q[1], q.y);
		for (int k = 1; k <= (TH() ? 60000 : 5000); k++) {
			t = ref::add(t, g); e = e * b;
			if (!mc::state(k)) continue;
			Fp P[2]; C(P[0], t.x); C(P[1], t.y); Fp12 f; std::ostringstream os; os << "pairing of the generators' multiple " << k; mc::what(os.str());
			bn::opt_atePairing<Fp>(f, Q, P); checkF(f, e, os.str()); mc::trace();
		}
	});
	mc::domain("many G2 arguments", []() {
		P1 g = gen1(); P2 q = gen2(); ref::F12 b = ref::pairing(q, g), e = ref::F12i(1); P2 t = ref::infPt<ref::F2>(); Fp P[2]; C(P[0], g.x); C(P[1], g.y);
		for (int k = 1; k <= (TH() ? 60000 : 5000); k++) {
			t = ref::add(t, q); e = e * b;
			if (!mc::state(k)) continue;
			Fp2 Q[2]; C(Q[0], t.x); C(Q[1], t.y); Fp12 f; std::ostringstream os; os << "pairing of G2 multiple " << k; mc::what(os.str());
			bn::opt_atePairing<Fp>(f, Q, P); checkF(f, e, os.str()); mc::trace();
		}
	});
	mc::domain("line evaluation", []() {
		/*
			Every step of the Miller loop: doubling and addition steps on homogeneous
			representations of T against the affine lines of the reference; the line
			may differ by a factor from Fp2 (killed by the final exponentiation).
		*/
		std::vector<P2> qs = pool2(TH() ? 16 : 8); std::vector<P1> ps = pool1(TH() ? 12 : 5); std::vector<ref::F2> zs = Zs<ref::F2>::all(7); { std::vector<P2> q2 = structured(ref::F2(), TH() ? 3 : 1); qs.insert(qs.end(), q2.begin(), q2.end()); std::vector<P1> p2 = structured(ref::F(), TH() ? 2 : 1); ps.insert(ps.end(), p2.begin(), p2.end()); }
		auto prop = [](const Fp6& l, const ref::F12& e, const std::string& w) {
			ref::F12 g = ops::sparse(A(l)); mc::step(); if (!canon(l)) mc::fail(w + ": not reduced"); if (g.isZero() || e.isZero()) mc::fail(w + ": vanishing line");
			ref::F12 q = g * ref::inv(e); // must lie in Fp2 times a fixed power of w
			int nz = 0; const ref::F2 *c[6] = { &q.a.c[0], &q.a.c[1], &q.a.c[2], &q.b.c[0], &q.b.c[1], &q.b.c[2] }; for (int i = 0; i < 6; i++) if (!c[i]->isZero()) nz++;
			if (nz != 1) mc::fail(w + ": line is not a multiple of the reference line");
		};
		for (size_t i = 0; i < qs.size(); i++) for (size_t j = 0; j < zs.size(); j++) for (size_t k = 0; k < ps.size(); k++) {
			if (!mc::state(mc::mix(mc::mix(i, j), k))) continue;
			const P2& T = qs[i]; Fp P[2]; C(P[0], ps[k].x); C(P[1], ps[k].y);
			Fp2 R0[3]; C(R0[0], T.x * zs[j]); C(R0[1], T.y * zs[j]); C(R0[2], zs[j]);
			ref::Pt<ref::F12> uT = ref::untwist(T), uP = ref::mkPt(ref::mk12(ref::mk6(ref::mk2(ps[k].x, ref::Fi(0)), ref::F2i(0), ref::F2i(0)), ref::F6i(0)), ref::mk12(ref::mk6(ref::mk2(ps[k].y, ref::Fi(0)), ref::F2i(0), ref::F2i(0)), ref::F6i(0))), sum;
			ref::F12 e = ref::line(uT, uT, uP, sum); P2 two = ref::add(T, T);
			auto hom = [](const Fp2 *R, const P2& want, const std::string& w) { ref::F2 iz = ref::inv(A(R[2])); if (!(A(R[0]) * iz == want.x && A(R[1]) * iz == want.y) || !canon(R[0]) || !canon(R[1]) || !canon(R[2])) mc::fail(w + ": point"); };
			std::string w = "doubling step at " + ref::str(T) + " Z=" + ref::str(zs[j]) + " P=" + ref::str(ps[k]); mc::what(w);
			{ Fp2 R[3]; Fp6 l; memcpy((void*)R, R0, sizeof(R)); Fp6::pointDblLineEval(l, R, P); prop(l, e, w); hom(R, two, w); }
			{ Fp2 R[3]; Fp6 l; memcpy((void*)R, R0, sizeof(R)); Fp6::pointDblLineEvalC(l, R, P); prop(l, e, w + " (portable)"); hom(R, two, w + " (portable)"); }
			{ Fp2 R[3]; Fp6 l; memcpy((void*)R, R0, sizeof(R)); Fp6::pointDblLineEvalWithoutP(l, R); Fp6::mulFp6_24_Fp_01(l, P); prop(l, e, w + " (split)"); hom(R, two, w + " (split)"); }
			{ Fp2 R[3]; Fp6 l; memcpy((void*)R, R0, sizeof(R)); Fp6::pointDblLineEvalWithoutPC(l, R); Fp6::mulFp6_24_Fp_01(l, P); prop(l, e, w + " (split portable)"); hom(R, two, w + " (split portable)"); }
			for (size_t m = 0; m < qs.size(); m++) {
				const P2& Q = qs[m]; if (Q.x == T.x) continue;
				Fp2 q[2]; C(q[0], Q.x); C(q[1], Q.y); ref::F12 ea = ref::line(uT, ref::untwist(Q), uP, sum); P2 s = ref::add(T, Q);
				std::string wa = "addition step at " + ref::str(T) + " Z=" + ref::str(zs[j]) + " Q=" + ref::str(Q) + " P=" + ref::str(ps[k]); mc::what(wa);
				{ Fp2 R[3]; Fp6 l; memcpy((void*)R, R0, sizeof(R)); Fp6::pointAddLineEval(l, R, q, P); prop(l, ea, wa); hom(R, s, wa); }
				{ Fp2 R[3]; Fp6 l; memcpy((void*)R, R0, sizeof(R)); Fp6::pointAddLineEvalWithoutP(l, R, q); Fp6::mulFp6_24_Fp_01(l, P); prop(l, ea, wa + " (split)"); hom(R, s, wa + " (split)"); }
			}
			mc::trace();
		}
	});
	mc::domain("line evaluation ranges", []() {
		/*
			The doubling step is polynomial arithmetic valid for any (X, Y, Z): extreme
			coefficients of every intermediate range, compared with the reference formulas
			(curve membership is not used by the formulas except through b/xi).
		*/
		std::vector<ref::F2> al; mpz_class p = ref::curve().p; al.push_back(ref::F2i(0)); al.push_back(ref::mk2(raw1(p - 1), raw1(p - 1))); al.push_back(ref::mk2(raw1(p - 1), raw1(0))); al.push_back(ref::mk2(raw1(0), raw1(p - 1))); al.push_back(ref::mk2(raw1(1), raw1(p / 2))); al.push_back(ref::mk2(ref::Fz(ops::dense(3)), ref::Fz(ops::dense(4)))); if (TH()) { al.push_back(ref::F2i(1)); al.push_back(ref::F2i(0, 1)); al.push_back(ref::mk2(raw1(p / 2 + 1), raw1(p / 4))); al.push_back(ref::mk2(ref::Fz(ops::dense(5)), ref::Fz(ops::dense(6)))); }
		ref::F h = ref::inv(ref::Fi(2)); ref::F2 tb = ref::twistB();
		for (size_t i = 0; i < al.size(); i++) for (size_t j = 0; j < al.size(); j++) for (size_t k = 0; k < al.size(); k++) {
			ref::F2 X = al[i], Y = al[j], Zz = al[k];
			if (!mc::state(mc::mix(mc::mix(i, j), k))) continue;
			// Aranha et al. Algorithm 11 in exact arithmetic
			ref::F2 A_ = X * Y * h, B = Y * Y, Cc = Zz * Zz, E = (Cc + Cc + Cc) * tb, Ff = E + E + E, G = (B + Ff) * h, H = (Y + Zz) * (Y + Zz) - (B + Cc), I = E - B, J = X * X, E2 = E * E;
			ref::F2 X3 = A_ * (B - Ff), Y3 = G * G - (E2 + E2 + E2), Z3 = B * H;
			ref::F6 want = ref::mk6(I * ref::xi(), -H, J + J + J);
			for (int v = 0; v < 2; v++) {
				Fp2 R[3]; Fp6 l; C(R[0], X); C(R[1], Y); C(R[2], Zz);
				if (v == 0) Fp6::pointDblLineEvalWithoutP(l, R); else Fp6::pointDblLineEvalWithoutPC(l, R);
				mc::step(); std::string w = std::string(v ? "portable " : "") + "doubling step on (" + ref::str(X) + " : " + ref::str(Y) + " : " + ref::str(Zz) + ")"; mc::what(w);
				if (!(A(R[0]) == X3 && A(R[1]) == Y3 && A(R[2]) == Z3) || !canon(R[0]) || !canon(R[1]) || !canon(R[2])) mc::fail(w + ": point");
				// the l.c_ coefficient is a lazy sum below 3p; it is consumed by a multiplication
				ref::F one = ref::Fi(1); Fp o[2]; C(o[0], one); C(o[1], one); Fp6::mulFp6_24_Fp_01(l, o);
				if (A(l) != want || !canon(l)) mc::fail(w + ": line");
			}
			mc::trace();
		}
	});
}
static void c03()
{
	mc::domain("split routes", []() {
		int n = TH() ? 16 : 9; std::map<std::pair<size_t, size_t>, ref::F12> es; std::vector<P1> ps = pool1(n); std::vector<P2> qs = pool2(n);
		for (size_t i = 0; i < qs.size(); i++) for (size_t rq = 0; rq < 4u; rq++) {
			std::vector<Rep<Fp2> > a = reps<Fp2>(qs[i], 4);
			std::vector<Fp6> coeff; Fp2 Q[3]; bool made = false;
			for (size_t j = 0; j < ps.size(); j++) {
				if (!mc::state(mc::mix(mc::mix(i, rq), j))) continue;
				std::string w = "split pairing of " + show(a[rq].c) + " and " + ref::str(ps[j]); mc::what(w);
				if (!made) { // the coefficient vector is reused with stale contents
					made = true; coeff.assign(7 * i + 3 * rq, Fp6(1)); bn::components::precomputeG2(coeff, Q, a[rq].c);
					if (!(A(Q[0]) == qs[i].x && A(Q[1]) == qs[i].y && A(Q[2]) == ref::F2i(1))) mc::fail(w + ": normalised point of the precomputation");
				}
				std::vector<Fp6> keep = coeff;
				Fp P[2]; C(P[0], ps[j].x); C(P[1], ps[j].y); if (!es.count(std::make_pair(i, j))) es[std::make_pair(i, j)] = ref::pairing(qs[i], ps[j]); ref::F12 e = es[std::make_pair(i, j)];
				Fp12 f; memset((void*)&f, 0x11, sizeof(f)); bn::components::millerLoop(f, coeff, P); f.final_exp(); checkF(f, e, w);
				bn::components::millerLoop(f, coeff, P); f.final_exp(); checkF(f, e, w + " (coefficients used twice)");
				for (size_t k = 0; k < keep.size(); k++) if (!(A(keep[k]) == A(coeff[k]))) mc::fail(w + ": coefficients changed");
				{ Fp2 inq[3]; memcpy((void*)inq, a[rq].c, sizeof(inq)); std::vector<Fp6> c2; bn::components::precomputeG2(c2, inq, inq); Fp12 g; bn::components::millerLoop(g, c2, P); g.final_exp(); checkF(g, e, w + " (in-place precomputation)"); }
				mc::trace();
			}
		}
	});
	mc::domain("double loop", []() {
		int n = TH() ? 10 : 6; std::vector<P1> ps = pool1(n); std::vector<P2> qs = pool2(n);
		std::vector<std::vector<ref::F12> > e(n, std::vector<ref::F12>(n)); std::vector<std::vector<int> > have(n, std::vector<int>(n, 0));
		std::vector<std::vector<Fp6> > co(n); for (int i = 0; i < n; i++) { Fp2 Q[3], in[3]; Cpt(in, qs[i], Zs<ref::F2>::all(4)[i % 4]); bn::components::precomputeG2(co[i], Q, in); }
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) for (int l = 0; l < n; l++) {
			if (!mc::state(((i * 16 + j) * 16 + k) * 16 + l + 1)) continue;
			std::ostringstream os; os << "double Miller loop Q" << i << " P" << j << " Q" << k << " P" << l; mc::what(os.str());
			int ii[2] = { i, k }, jj[2] = { j, l }; for (int m = 0; m < 2; m++) if (!have[ii[m]][jj[m]]) { have[ii[m]][jj[m]] = 1; e[ii[m]][jj[m]] = ref::pairing(qs[ii[m]], ps[jj[m]]); }
			Fp A1[2], A2[2]; C(A1[0], ps[j].x); C(A1[1], ps[j].y); C(A2[0], ps[l].x); C(A2[1], ps[l].y);
			Fp12 f; bn::components::millerLoop2(f, co[i], A1, co[k], A2); f.final_exp(); ref::F12 w = e[i][j] * e[k][l]; checkF(f, w, os.str()); mc::outcome(w == ref::F12i(1) ? "product one" : "product not one");
			// one final exponentiation of the product of two single loops
			Fp12 a, b; bn::components::millerLoop(a, co[i], A1); bn::components::millerLoop(b, co[k], A2); a *= b; a.final_exp(); checkF(a, w, os.str() + " (product of single loops)");
			mc::trace();
		}
	});
	mc::domain("infinity", []() {
		// the point at infinity on the G2 side with any leftover coordinates, on the G1 side as NormalizeJac leaves it
		std::vector<Rep<Fp2> > z = reps<Fp2>(ref::infPt<ref::F2>(), 5); std::vector<P1> ps = pool1(4); std::vector<P2> qs = pool2(4); ps.push_back(ref::infPt<ref::F>()); Fp gi[3], gn[3]; C(gi[0], gen1().x); C(gi[1], gen1().y); gi[2] = 0; bn::ecop::NormalizeJac(gn, gi);
		std::vector<Fp2> dummy; std::vector<std::vector<Fp6> > co; std::vector<std::vector<ref::F12> > es;
		for (size_t i = 0; i < z.size() + qs.size(); i++) {
			Fp2 in[3], Q[3]; if (i < z.size()) memcpy((void*)in, z[i].c, sizeof(in)); else Cpt(in, qs[i - z.size()], Zs<ref::F2>::all(4)[i % 4]);
			std::vector<Fp6> c(i * 5, Fp6(1)); bn::components::precomputeG2(c, Q, in); if (i < z.size() && !A(Q[2]).isZero()) mc::fail("infinity: normalised point of the precomputation is not infinity"); co.push_back(c);
			std::vector<ref::F12> e; for (size_t j = 0; j < ps.size(); j++) e.push_back(i < z.size() || ps[j].inf ? ref::F12i(1) : ref::pairing(qs[i - z.size()], ps[j])); es.push_back(e);
		}
		auto aff = [&](Fp *P, const P1& p) { if (p.inf) { P[0] = gn[0]; P[1] = gn[1]; } else { C(P[0], p.x); C(P[1], p.y); } };
		for (size_t i = 0; i < co.size(); i++) for (size_t j = 0; j < ps.size(); j++) {
			std::ostringstream os; os << "Q" << i << " P" << j << " (infinity)"; mc::what(os.str()); Fp P[2]; aff(P, ps[j]); Fp12 f;
			if (mc::state(mc::mix(i, j))) { bn::components::millerLoop(f, co[i], P); f.final_exp(); checkF(f, es[i][j], "split pairing " + os.str()); mc::trace(); }
			for (size_t k = 0; k < co.size(); k++) for (size_t l = 0; l < ps.size(); l++) {
				if (!mc::state(mc::mix(mc::mix(mc::mix(i, j), k), l))) continue;
				Fp R[2]; aff(R, ps[l]); bn::components::millerLoop2(f, co[i], P, co[k], R); f.final_exp(); checkF(f, es[i][j] * es[k][l], "double loop " + os.str()); mc::trace();
			}
		}
	});
	mc::domain("precomputation histories", []() {
		// every sequence of precomputations into the same two coefficient vectors; related points follow each other
		std::vector<P2> qs; P2 g = gen2(); qs.push_back(g); qs.push_back(ref::neg(g)); qs.push_back(ref::add(g, g)); { P2 e = g; mpz_class ez = (ref::curve().p - 1) / 3; ref::F zeta; for (int k = 2;; k++) { zeta = ref::pow(ref::Fi(k), ez); if (zeta != ref::Fi(1)) break; } e.x = e.x * zeta; if (ref::curve().b != 82 && !ref::mul(e, ref::curve().r).inf) mc::fail("model error: order"); qs.push_back(e); } qs.push_back(hash2(0)); qs.push_back(ref::infPt<ref::F2>());
		std::vector<Rep<Fp2> > in; for (size_t i = 0; i < qs.size(); i++) { std::vector<Rep<Fp2> > r = reps<Fp2>(qs[i], 3); in.push_back(r[0]); if (i < 2 || i == 4) in.push_back(r[1 + i % 2]); }
		std::vector<P1> ps = pool1(3); std::vector<std::vector<ref::F12> > es(in.size()); for (size_t i = 0; i < in.size(); i++) for (size_t j = 0; j < ps.size(); j++) es[i].push_back(in[i].a.inf ? ref::F12i(1) : ref::pairing(in[i].a, ps[j]));
		int n = (int)in.size(), depth = TH() ? 4 : 3, total = 1; for (int i = 0; i < depth; i++) total *= n;
		for (int m = 0; m < total; m++) for (int shape = 0; shape < 3; shape++) {
			if (!mc::state(m * 3 + shape + 1)) continue;
			std::vector<Fp6> c[2]; Fp2 Q[3]; Fp2 buf[3]; int code = m; std::ostringstream os; os << "precomputations in sequence";
			int last[2] = { -1, -1 };
			for (int d = 0; d < depth; d++) {
				int i = code % n; code /= n; int w = shape == 0 ? 0 : shape == 1 ? d % 2 : 0; os << " Q" << i << "->" << w; mc::what(os.str());
				// the input array is either the caller's own or one reused for every point
				const Fp2 *src = in[i].c; if (shape == 2) { memcpy((void*)buf, in[i].c, sizeof(buf)); src = buf; }
				bn::components::precomputeG2(c[w], Q, src); mc::step(); same(in[i], src, os.str()); last[w] = i;
				bool inf = in[i].a.inf; if (inf ? !A(Q[2]).isZero() : !(A(Q[0]) == in[i].a.x && A(Q[1]) == in[i].a.y && A(Q[2]) == ref::F2i(1))) mc::fail(os.str() + ": normalised point");
				size_t j = (m + d) % ps.size(); Fp P[2]; C(P[0], ps[j].x); C(P[1], ps[j].y); Fp12 f;
				if (d + 1 == depth || shape == 1) { bn::components::millerLoop(f, c[w], P); f.final_exp(); checkF(f, es[i][j], os.str()); }
				if (shape == 1 && d > 0) { size_t k = (j + 1) % ps.size(); Fp R[2]; C(R[0], ps[k].x); C(R[1], ps[k].y); bn::components::millerLoop2(f, c[0], P, c[1], R); f.final_exp(); checkF(f, es[last[0]][j] * es[last[1]][k], os.str() + " both"); }
			}
			mc::trace();
		}
	});
	mc::domain("sums and cancellations", []() {
		// e(Q,P)e(Q,-P) = e(Q,P)e(-Q,P) = 1, e(Q,P1)e(Q,P2) = e(Q,P1+P2) through the split routes
		int n = TH() ? 12 : 8; std::vector<P1> ps = pool1(n); std::vector<P2> qs = pool2(n);
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) {
			if (!mc::state((i * 16 + j) * 16 + k + 1)) continue;
			std::ostringstream os; os << "Q" << i << " P" << j << " P" << k; mc::what(os.str());
			Fp2 Q[3], in[3]; Cpt(in, qs[i], ref::F2i(1)); std::vector<Fp6> c, cn; bn::components::precomputeG2(c, Q, in); Cpt(in, ref::neg(qs[i]), ref::F2i(2, 3)); bn::components::precomputeG2(cn, Q, in);
			Fp a[2], b[2], na[2]; C(a[0], ps[j].x); C(a[1], ps[j].y); C(na[0], ps[j].x); C(na[1], -ps[j].y); C(b[0], ps[k].x); C(b[1], ps[k].y);
			Fp12 f; bn::components::millerLoop2(f, c, a, c, na); f.final_exp(); checkF(f, ref::F12i(1), "cancelling G1 " + os.str());
			bn::components::millerLoop2(f, c, a, cn, a); f.final_exp(); checkF(f, ref::F12i(1), "cancelling G2 " + os.str());
			P1 s = ref::add(ps[j], ps[k]); if (!s.inf) { Fp S[2]; C(S[0], s.x); C(S[1], s.y); Fp12 g; bn::components::millerLoop2(f, c, a, c, b); f.final_exp(); bn::components::millerLoop(g, c, S); g.final_exp(); mc::step(); if (A(f) != A(g)) mc::fail("additivity " + os.str()); }
			mc::trace();
		}
	});
}
// =================================================================== C01
struct PowTab { // fixed-base powers in the reference
	std::vector<ref::F12> t;
	PowTab() {}
	explicit PowTab(const ref::F12& g) { ref::F12 x = g; for (int i = 0; i < 256; i++) { t.push_back(x); x = x * x; } }
	ref::F12 pow(mpz_class e) const { e %= ref::curve().r; if (e < 0) e += ref::curve().r; ref::F12 r = ref::F12i(1); for (int i = 0; i < 256; i++) if (mpz_tstbit(e.get_mpz_t(), i)) r = r * t[i]; return r; }
};
template<class T> struct Hist { typename Grp<T>::E e; mpz_class k; std::string how; };
/*
	all points reached from the generator by histories of library operations:
	(current, other) pairs, every operation, to a depth; the multiplier is tracked
*/
template<class T> static std::vector<Hist<T> > reach(int depth, size_t cap)
{
	typedef typename Grp<T>::E E; const mpz_class& r = ref::curve().r;
	std::vector<Rep<T> > g = reps<T>(Grp<T>::gen(), 2);
	std::vector<Hist<T> > out; Hist<T> h; h.e = ec<T>(g[0]); h.k = 1; h.how = "G"; out.push_back(h); h.e = ec<T>(g[1]); h.how = "G'"; out.push_back(h);
	size_t lo = 0;
	for (int d = 0; d < depth; d++) {
		size_t hi = out.size();
		for (size_t i = lo; i < hi && out.size() < cap; i++) for (int o = 0; o < 9; o++) {
			Hist<T> n; const Hist<T> a = out[i], b = out[d ? i / 2 : 0]; E t;
			switch (o) {
			case 0: E::dbl(n.e, a.e); n.k = 2 * a.k; n.how = "2(" + a.how + ")"; break;
			case 1: E::add(n.e, a.e, b.e); n.k = a.k + b.k; n.how = "(" + a.how + "+" + b.how + ")"; break;
			case 2: n.e = a.e; E::neg(n.e, n.e); n.k = -a.k; n.how = "-(" + a.how + ")"; break;
			case 3: n.e = a.e * 5; n.k = 5 * a.k; n.how = "5(" + a.how + ")"; break;
			case 4: n.e = a.e * (-3); n.k = -3 * a.k; n.how = "-3(" + a.how + ")"; break;
			case 5: { mpz_class s = r - 2; n.e = a.e * s; n.k = -2 * a.k; n.how = "(r-2)(" + a.how + ")"; break; }
			case 6: n.e = a.e; n.e.normalize(); n.k = a.k; n.how = "norm(" + a.how + ")"; break;
			case 7: E::sub(n.e, b.e, a.e); n.k = b.k - a.k; n.how = "(" + b.how + "-" + a.how + ")"; break;
			case 8: { mpz_class s = (mpz_class(1) << 255) + (mpz_class(1) << 64) + 1; n.e = a.e * s; n.k = s * a.k; n.how = "(2^255+2^64+1)(" + a.how + ")"; break; }
			}
			n.k %= r; if (n.k < 0) n.k += r;
			out.push_back(n);
		}
		lo = hi;
	}
	return out;
}
static void c01()
{
	mc::domain("histories", []() {
		std::vector<Hist<Fp> > ps = reach<Fp>(TH() ? 3 : 2, 400); std::vector<Hist<Fp2> > qs = reach<Fp2>(TH() ? 3 : 2, 400);
		Fp12 base; bn::opt_atePairing(base, qs[0].e, ps[0].e); PowTab tab(A(base)); const mpz_class& r = ref::curve().r;
		if (A(base) == ref::F12i(1) || ref::pow(A(base), r) != ref::F12i(1)) mc::fail("pairing of the generators is not of order r");
		for (size_t i = 0; i < qs.size(); i++) for (size_t j = 0; j < ps.size(); j++) {
			if (!TH() && (i % 4) * 4 + j % 4 > 4 && (i > 25 || j > 25)) continue; // quick: every history against a quarter of the partners
			if (TH() && i > 60 && j > 60 && (i + j) % 8) continue;
			if (!mc::state(mc::mix(i, j))) continue;
			std::string w = "pairing of " + qs[i].how + " with " + ps[j].how; mc::what(w);
			Fp12 f; bn::opt_atePairing(f, qs[i].e, ps[j].e); mpz_class ab = qs[i].k * ps[j].k % r; ref::F12 e = tab.pow(ab);
			mc::outcome(ab == 0 ? "infinite argument" : "finite arguments");
			if (ab == 0 ? e != ref::F12i(1) : e == ref::F12i(1)) mc::fail("model error: order");
			checkF(f, e, w); mc::trace();
			if (mc::wantSample() && j % 7 == 3) mc::sample(w + " = base^" + hex(ab));
		}
	});
	mc::domain("multipliers", []() {
		// e(aP, bQ) = e(P, Q)^(ab) for all a, b of the scalar alphabet, base pairs apart from the generators
		std::vector<mpz_class> ks; const mpz_class& r = ref::curve().r; for (int i = -4; i <= 4; i++) ks.push_back(i); ks.push_back(r - 1); ks.push_back(r); ks.push_back(r + 1); ks.push_back(-r - 1); ks.push_back(r / 2); ks.push_back((mpz_class(1) << 64) - 1); ks.push_back(mpz_class(1) << 64); ks.push_back(-(mpz_class(1) << 128)); ks.push_back((mpz_class(1) << 255) + 1); ks.push_back(abs(6 * ref::curve().z + 2)); ks.push_back(ref::curve().t - 1);
		if (TH()) { std::vector<mpz_class> m = scalars(0); for (size_t i = 0; i < m.size(); i++) { ks.push_back(m[i]); ks.push_back(-m[i]); } std::sort(ks.begin(), ks.end()); ks.erase(std::unique(ks.begin(), ks.end()), ks.end()); }
		for (int b = 0; b < 2; b++) {
			std::vector<Rep<Fp> > P0 = reps<Fp>(hash1(2 + b), 2); std::vector<Rep<Fp2> > Q0 = reps<Fp2>(hash2(b), 2); Ec1 P = ec<Fp>(P0[1]); Ec2 Q = ec<Fp2>(Q0[1]);
			Fp12 base; bn::opt_atePairing(base, Q, P); PowTab tab(A(base)); if (A(base) == ref::F12i(1) || ref::pow(A(base), r) != ref::F12i(1)) mc::fail("pairing of two non-zero points is not of order r");
			for (size_t i = 0; i < ks.size(); i++) for (size_t j = 0; j < ks.size(); j++) {
				if (!mc::state(mc::mix(mc::mix(i, j), b))) continue;
				std::string w = "multipliers " + hex(ks[i]) + " (G1), " + hex(ks[j]) + " (G2)"; mc::what(w);
				Ec1 aP = P * ks[i]; Ec2 bQ = Q * ks[j]; Fp12 f; bn::opt_atePairing(f, bQ, aP); ref::F12 e = tab.pow(ks[i] * ks[j]); checkF(f, e, w);
				Fp12 g = 1; if (ks[i] * ks[j] >= 0) { mpz_class m = ks[i] * ks[j]; g = mie::power(base, m); if (!(g == f)) mc::fail(w + ": power of the base pairing differs"); mc::step(); }
				mc::trace();
			}
		}
	});
	mc::domain("interfaces and representations", []() {
		// every entry point on every representation of small multiples of base points, infinity included
		std::vector<P1> ps; std::vector<P2> qs; P1 g = gen1(); P2 h = gen2(); const int ks[] = { 0, 1, 2, -1, 5, -7 };
		for (int i = 0; i < 6; i++) { mpz_class k = ks[i]; k %= ref::curve().r; if (k < 0) k += ref::curve().r; ps.push_back(ref::mul(g, k)); qs.push_back(ref::mul(h, k)); }
		Fp2 Q0[2]; Fp P0[2]; C(Q0[0], h.x); C(Q0[1], h.y); C(P0[0], g.x); C(P0[1], g.y); Fp12 base; bn::opt_atePairing<Fp>(base, Q0, P0); PowTab tab(A(base));
		for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) {
			ref::F12 e = tab.pow(mpz_class(ks[i]) * ks[j]);
			std::vector<Rep<Fp2> > a = reps<Fp2>(qs[i], 7); std::vector<Rep<Fp> > b = reps<Fp>(ps[j], 7);
			for (size_t k = 0; k < a.size(); k++) for (size_t l = 0; l < b.size(); l++) {
				if (!mc::state(hr(b[l], hr(a[k])))) continue;
				pairReps(a[k], b[l], e, true); mc::trace();
				if (!ps[j].inf) { std::vector<Fp6> c; Fp2 n[3]; bn::components::precomputeG2(c, n, a[k].c); Fp P[2]; C(P[0], ps[j].x); C(P[1], ps[j].y); Fp12 f; bn::components::millerLoop(f, c, P); f.final_exp(); checkF(f, e, "split pairing of " + show(a[k].c)); }
			}
		}
	});
	mc::domain("additivity", []() {
		int n = TH() ? 20 : 10; std::vector<P1> ps = pool1(n); std::vector<P2> qs = pool2(n); ps.push_back(ref::infPt<ref::F>()); qs.push_back(ref::infPt<ref::F2>());
		auto p1 = [](const P1& a, int z) { std::vector<Rep<Fp> > v = reps<Fp>(a, 4); return ec<Fp>(v[z % v.size()]); }; auto p2 = [](const P2& a, int z) { std::vector<Rep<Fp2> > v = reps<Fp2>(a, 4); return ec<Fp2>(v[z % v.size()]); };
		for (size_t i = 0; i < ps.size(); i++) for (size_t j = 0; j < ps.size(); j++) for (size_t k = 0; k < qs.size(); k++) {
			if (!mc::state(mc::mix(mc::mix(i, j), k))) continue;
			std::ostringstream os; os << i << " " << j << " " << k; mc::what("additivity " + os.str());
			Ec1 a = p1(ps[i], j), b = p1(ps[j], k); Ec2 q = p2(qs[k], i); Fp12 x, y, z; bn::opt_atePairing(x, q, a); bn::opt_atePairing(y, q, b); Ec1 s = a + b; bn::opt_atePairing(z, q, s); mc::step(3);
			if (A(x) * A(y) != A(z)) mc::fail("additivity in G1 at points " + os.str());
			Ec2 c = p2(qs[i], k), d = p2(qs[j], i); Ec1 p = p1(ps[k], j); bn::opt_atePairing(x, c, p); bn::opt_atePairing(y, d, p); Ec2 t = c - d; bn::opt_atePairing(z, t, p); mc::step(3);
			if (A(x) != A(z) * A(y)) mc::fail("additivity in G2 at points " + os.str());
			if (!qs[k].inf && !ps[i].inf) { Fp12 u; bn::opt_atePairing(u, q, a); if (A(u) == ref::F12i(1)) mc::fail("degenerate at points " + os.str()); }
			mc::trace();
		}
	});
}

// =================================================================== C16
template<class T> static void aliasDomains()
{
	std::string nm = Grp<T>::name();
	mc::domain(nm + " coordinates set from the point itself", [=]() {
		typedef ref::Pt<typename Grp<T>::R> P; typedef typename Grp<T>::E E; typedef typename Grp<T>::R R;
		std::vector<P> ps = pool<T>(20);
		for (size_t i = 0; i < ps.size(); i++) { std::vector<Rep<T> > a = reps<T>(ps[i], 4); for (size_t k = 0; k < a.size(); k++) for (int c = 0; c < 27 + 9; c++) {
			if (!mc::state(mc::mix(hr(a[k], 9), c))) continue;
			int q[3] = { c % 3, c / 3 % 3, c < 27 ? c / 9 : 0 }; std::ostringstream os; os << nm << " set, " << show(a[k].c) << ", coordinates " << q[0] << q[1]; if (c < 27) os << q[2]; mc::what(os.str());
			E x = ec<T>(a[k]); T o[3] = { a[k].c[q[0]], a[k].c[q[1]], T(1) }; if (c < 27) { o[2] = a[k].c[q[2]]; x.set(x.p[q[0]], x.p[q[1]], x.p[q[2]], false); } else x.set(x.p[q[0]], x.p[q[1]], false);
			mc::step();
			for (int j = 0; j < 3; j++) if (!(A(x.p[j]) == A(o[j]))) mc::fail(os.str() + ": wrong coordinate");
			mc::trace();
		} }
		(void)sizeof(R);
	});
	mc::domain(nm + " aliasing", [=]() {
		typedef ref::Pt<typename Grp<T>::R> P; typedef typename Grp<T>::E E;
		std::vector<P> ps = pool<T>(20); int nr = TH() ? 7 : 5;
		for (size_t i = 0; i < ps.size(); i++) for (size_t j = 0; j < ps.size(); j++) {
			std::vector<Rep<T> > a = reps<T>(ps[i], nr), b = reps<T>(ps[j], nr);
			for (size_t k = 0; k < a.size(); k++) for (size_t l = 0; l < b.size(); l++) {
				if (!mc::state(hr(b[l], hr(a[k])))) continue;
				binOps<T>(a[k], b[l], nm); mc::trace();
			}
		}
		for (size_t i = 0; i < ps.size(); i++) { std::vector<Rep<T> > a = reps<T>(ps[i], 5); for (size_t k = 0; k < a.size(); k++) { if (!mc::state(hr(a[k], 3))) continue; unOps<T>(a[k]); mc::trace();
			static const int ks[] = { 0, 1, 2, 3, 7, 1000003, -1, -6 };
			for (int q = 0; q < 8; q++) {
				std::string w = nm + " " + show(a[k].c) + " times " + std::to_string(ks[q]); mc::what(w); P e = ref::mul(ps[i], abs(ks[q])); if (ks[q] < 0) e = ref::neg(e);
				E x = ec<T>(a[k]), o; E::mul(o, x, ks[q]); chk(o.p, e, w); same(a[k], x.p, w); E::mul(x, x, ks[q]); chk(x.p, e, w + " in place"); x = ec<T>(a[k]); x *= ks[q]; chk(x.p, e, w + " *=");
				mpz_class z = ks[q]; x = ec<T>(a[k]); E::mul(x, x, z); chk(x.p, e, w + " in place"); if (ks[q] != z) mc::fail(w + ": scalar changed");
			} } }
	});
}

int main(int argc, char **argv)
{
	lib::init(argc, argv);
	std::string prop = mc::arg(argc, argv, "--prop", "C10");
	if (prop == "C01") c01();
	else if (prop == "C02") c02();
	else if (prop == "C03") c03();
	else if (prop == "C10") c10();
	else if (prop == "C11") c11();
	else if (prop == "C16") { aliasDomains<Fp>(); aliasDomains<Fp2>(); }
	else return 3;
	return mc::runAll();
}
