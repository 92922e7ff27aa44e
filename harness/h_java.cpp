/*
	C19: the wrapper objects exported to other languages.  Depth-bounded search
	over all operation sequences on small pools of wrapper objects, against value
	models; every object of the pool is compared after every operation.
*/
#include "java/bn254_if.hpp"
#include "ops.h"
#include "points.h"
using pts::P1; using pts::P2;
static bool TH() { return mc::ctx().thorough(); }

// ------------------------------------------------------------ views
static mpz_class val(const ::Mpz& x) { return mpz_class(x.toString(), 10); }
static const bn::Fp& in(const ::Fp& x) { return *reinterpret_cast<const bn::Fp*>(&x); }
static const bn::Fp2& in(const ::Fp2& x) { return *reinterpret_cast<const bn::Fp2*>(&x); }
static const bn::Fp12& in(const ::Fp12& x) { return *reinterpret_cast<const bn::Fp12*>(&x); }
static const bn::Ec1& in(const ::Ec1& x) { return *reinterpret_cast<const bn::Ec1*>(&x); }
static const bn::Ec2& in(const ::Ec2& x) { return *reinterpret_cast<const bn::Ec2*>(&x); }
static ref::F val(const ::Fp& x) { return lib::A(in(x)); }
static ref::F2 val(const ::Fp2& x) { return lib::A(in(x)); }
static ref::F12 val(const ::Fp12& x) { return lib::A(in(x)); }
static P1 val(const ::Ec1& x) { return lib::A(in(x)); }
static P2 val(const ::Ec2& x) { return lib::A(in(x)); }
static bool reduced(const ::Mpz&) { return true; }
static bool reduced(const ::Fp& x) { return lib::canon(in(x)); }
static bool reduced(const ::Fp2& x) { return lib::canon(in(x)); }
static bool reduced(const ::Fp12& x) { return lib::canon(in(x)); }
static bool reduced(const ::Ec1& x) { return in(x).isZero() || pts::canon3(in(x).p); }
static bool reduced(const ::Ec2& x) { return in(x).isZero() || pts::canon3(in(x).p); }
static std::string dec(const ref::F& x) { return ref::Z(x).get_str(); }
static std::string show(const mpz_class& x) { return x.get_str(); }
template<class R> static std::string show(const R& x) { return ref::str(x); }
static uint64_t hashOf(const ::Mpz& x, uint64_t h) { return mc::hashStr(x.toString(), h); }
template<class W> static uint64_t hashOf(const W& x, uint64_t h) { return mc::hashBytes(&x, sizeof(x), h); }
// every way to make an object with a value (none of them is the operation under test in a sequence)
static ::Mpz make(const mpz_class& x) { return ::Mpz(x.get_str()); }
static ::Fp make(const ref::F& x) { return ::Fp(dec(x)); }
static ::Fp2 make(const ref::F2& x) { return ::Fp2(make(x.a), make(x.b)); }
static ::Ec1 make(const P1& p) { if (p.inf) { ::Ec1 e; e.clear(); return e; } return ::Ec1(make(p.x), make(p.y)); }
static ::Ec2 make(const P2& p) { if (p.inf) { ::Ec2 e; e.clear(); return e; } return ::Ec2(make(p.x), make(p.y)); }
static std::string text(const ref::F2& x) { return "[" + dec(x.a) + "," + dec(x.b) + "]"; }
static std::string text(const ref::F6& x) { return "[" + text(x.c[0]) + ",\n " + text(x.c[1]) + ",\n " + text(x.c[2]) + "]"; }
static ::Fp12 make(const ref::F12& x) { ::Fp12 r; r.set("[" + text(x.a) + ",\n " + text(x.b) + "]"); return r; }
// jacobian: the same point with another Z
static ::Ec1 makeJ(const P1& p, const ref::F& z) { ref::F z2 = z * z; return ::Ec1(make(p.x * z2), make(p.y * (z2 * z)), make(z)); }
static ::Ec2 makeJ(const P2& p, const ref::F2& z) { ref::F2 z2 = z * z; return ::Ec2(make(p.x * z2), make(p.y * (z2 * z)), make(z)); }

// ------------------------------------------------------------ search
template<class W, class R> struct Opn {
	std::string name;
	std::function<void(W&, W&)> lib; std::function<bool(R&, R&)> model; // model: false = not applicable (the step is skipped)
};
template<class W, class R> struct State { std::vector<W> w; std::vector<R> r; std::string how; };
static std::string expectText(const mpz_class& x) { return x.get_str(); }
static std::string expectText(const ref::F& x) { return dec(x); }
static std::string expectText(const ref::F2& x) { return text(x); }
static std::string expectText(const ref::F12& x) { return "[" + text(x.a) + ",\n " + text(x.b) + "]"; }
template<class R> static std::string expectText(const ref::Pt<R>&) { return ""; }

template<class W, class R> static void compare(const State<W, R>& s, bool full)
{
	for (size_t k = 0; k < s.w.size(); k++) {
		mc::step();
		if (!reduced(s.w[k])) { std::ostringstream os; os << s.how << ": object " << k << " is not reduced"; mc::fail(os.str()); }
		if (!(val(s.w[k]) == s.r[k])) { std::ostringstream os; os << s.how << ": object " << k << " is " << show(val(s.w[k])) << " instead of " << show(s.r[k]); mc::fail(os.str()); }
		if (!full) continue;
		for (size_t j = 0; j < s.w.size(); j++) { mc::step(); if (s.w[k].equals(s.w[j]) != (s.r[k] == s.r[j])) { std::ostringstream os; os << s.how << ": equals of objects " << k << " and " << j << " is " << s.w[k].equals(s.w[j]); mc::fail(os.str()); } }
		std::string t = s.w[k].toString(); W b(s.w[(k + 1) % s.w.size()]); b.set(t); mc::step();
		if (!(val(b) == s.r[k]) || !b.equals(s.w[k]) || !s.w[k].equals(b)) { std::ostringstream os; os << s.how << ": text " << t << " of object " << k << " reads back as " << show(val(b)); mc::fail(os.str()); }
		std::string e = expectText(s.r[k]); if (!e.empty() && t != e) { std::ostringstream os; os << s.how << ": text of object " << k << " is " << t << " instead of " << e; mc::fail(os.str()); }
		if (!(val(s.w[k]) == s.r[k])) { std::ostringstream os; os << s.how << ": comparing or writing changed object " << k; mc::fail(os.str()); }
	}
}
template<class W, class R> static void search(const std::vector<State<W, R> >& init, const std::vector<Opn<W, R> >& ops, int depth)
{
	std::vector<State<W, R> > fr = init; mc::HashSet seen;
	for (size_t i = 0; i < fr.size(); i++) compare(fr[i], true);
	for (int d = 0; d < depth; d++) {
		std::vector<State<W, R> > nx;
		for (size_t i = 0; i < fr.size(); i++) {
			const State<W, R>& s = fr[i]; int n = s.w.size();
			for (size_t o = 0; o < ops.size(); o++) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) {
				uint64_t first = mc::mix(mc::mix(mc::mix(i, o), a), b);
				if (d == 0 && !mc::ctx().onlySet && int(first % mc::ctx().nshard) != mc::ctx().shard) continue;
				State<W, R> t = s; std::ostringstream os; os << s.how << " " << ops[o].name << "(" << a << "," << b << ")"; t.how = os.str();
				R before = t.r[b];
				if (!ops[o].model(t.r[a], a == b ? t.r[a] : t.r[b])) continue; (void)before;
				mc::what(t.how);
				ops[o].lib(t.w[a], a == b ? t.w[a] : t.w[b]);
				uint64_t h = d; for (int k = 0; k < n; k++) h = hashOf(t.w[k], h);
				if (!seen.insert(h)) { compare(t, false); continue; }
				mc::state(mc::mix(h, 5), false);
				compare(t, true); mc::trace();
				if (mc::wantSample() && d + 1 == depth && o % 3 == 1) mc::sample(t.how);
				if (d + 1 < depth) nx.push_back(t);
			}
		}
		fr.swap(nx);
	}
}
#define OP(W, R, N, L, M) { Opn<W, R> o_; o_.name = N; o_.lib = [=](W& x, W& y) { (void)x; (void)y; L; }; o_.model = [=](R& x, R& y) -> bool { (void)x; (void)y; M; return true; }; v.push_back(o_); }
template<class W, class R> static void common(std::vector<Opn<W, R> >& v)
{
	OP(W, R, "copy", W t(y); x = t, x = R(y))
	OP(W, R, "text", x.set(y.toString()), x = R(y))
}
static std::vector<mpz_class> exps() { std::vector<mpz_class> e; const mpz_class r("16798108731015832284940804142231733909759579603404752749028378864165570215949"); mpz_class p = ref::curve().p; const mpz_class a[] = { 0, 1, 2, 3, -1, -2, 5, p - 1, p - 2, -p, r, r - 1, -r, (mpz_class(1) << 64), -(mpz_class(1) << 64) - 1, (mpz_class(1) << 31), -(mpz_class(1) << 31), (mpz_class(1) << 300) + 1 }; e.assign(a, a + sizeof(a) / sizeof(*a)); return e; }
static bool z0(const ref::F& x) { return x.isZero(); } static bool z0(const ref::F2& x) { return x.isZero(); } static bool z0(const ref::F12& x) { return x.isZero(); }
template<class R> static R pw(const R& x, const mpz_class& e) { return e < 0 ? ref::pow(ref::inv(x), -e) : ref::pow(x, e); }
template<class W, class R> static void field(std::vector<Opn<W, R> >& v)
{
	common(v);
	OP(W, R, "add", x.add(y), x = x + y) OP(W, R, "sub", x.sub(y), x = x - y) OP(W, R, "mul", x.mul(y), x = x * y)
	std::vector<mpz_class> es = exps();
	for (size_t i = 0; i < 6; i++) { mpz_class e = es[i]; OP(W, R, "power " + e.get_str(), x.power(make(e)), if (e < 0 && z0(x)) return false; x = pw(x, e)) }
}
template<class W, class R> static State<W, R> st(const std::vector<R>& r, const std::string& how) { State<W, R> s; s.r = r; s.how = how; for (size_t i = 0; i < r.size(); i++) s.w.push_back(make(r[i])); return s; }
template<class W, class R> static void powers(const std::string& nm, const std::vector<R>& xs)
{
	std::vector<mpz_class> es = exps(); for (int i = 6; i < (TH() ? 40 : 12); i++) { es.push_back(i); es.push_back(-i); }
	for (size_t i = 0; i < xs.size(); i++) for (size_t j = 0; j < es.size(); j++) {
		if (es[j] < 0 && z0(xs[i])) continue;
		if (!mc::state(mc::mix(i, j))) continue;
		std::string w = nm + " " + show(xs[i]) + " to the power " + es[j].get_str(); mc::what(w);
		W x = make(xs[i]), y(x); ::Mpz e = make(es[j]); x.power(e); mc::step(); mc::trace();
		if (!(val(x) == pw(xs[i], es[j])) || !reduced(x)) mc::fail(w + " is " + show(val(x)));
		if (val(e) != es[j] || !(val(y) == xs[i])) mc::fail(w + ": another object changed");
	}
}
template<class W, class P> static void points(std::vector<Opn<W, P> >& v)
{
	common(v);
	OP(W, P, "add", x.add(y), x = ref::add(x, P(y))) OP(W, P, "sub", x.sub(y), x = ref::add(x, ref::neg(P(y)))) OP(W, P, "dbl", x.dbl(), x = ref::add(x, P(x))) OP(W, P, "neg", x.neg(), x = ref::neg(x)) OP(W, P, "clear", x.clear(), memset(&x, 0, sizeof(x)); x.inf = true)
	static const int ks[] = { 0, 1, 2, 3, -1, -2, 7 };
	for (int i = 0; i < 7; i++) { int k = ks[i]; OP(W, P, "mul " + std::to_string(k), x.mul(::Mpz(k)), x = ref::mul(P(x), mpz_class(k))) }
	OP(W, P, "coordinates", if (!y.isZero()) x.set(y.getX(), y.getY(), y.getZ()); else x.clear(), x = P(y))
}
template<class W, class P> static void multiples(const std::string& nm, const std::vector<P>& ps)
{
	std::vector<mpz_class> es = exps(); for (int i = 6; i < (TH() ? 40 : 20); i++) { es.push_back(i); es.push_back(-i); }
	for (size_t i = 0; i < ps.size(); i++) for (size_t j = 0; j < es.size(); j++) {
		if (!mc::state(mc::mix(i, j))) continue;
		std::string w = nm + " " + show(ps[i]) + " times " + es[j].get_str(); mc::what(w);
		W x = make(ps[i]), y(x); ::Mpz e = make(es[j]); x.mul(e); mc::step(); mc::trace(); P want = ref::mul(ps[i], es[j]);
		if (!(val(x) == want) || !reduced(x) || x.isZero() != want.inf || !x.isValid()) mc::fail(w + " is " + show(val(x)));
		if (val(e) != es[j] || !(val(y) == ps[i])) mc::fail(w + ": another object changed");
	}
}
static std::vector<P1> pool1() { std::vector<P1> v; P1 g = pts::gen1(); v.push_back(g); v.push_back(ref::infPt<ref::F>()); v.push_back(pts::hash1(2)); v.push_back(ref::neg(g)); v.push_back(ref::add(g, g)); return v; }
static std::vector<P2> pool2() { std::vector<P2> v; P2 g = pts::gen2(); v.push_back(g); v.push_back(ref::infPt<ref::F2>()); v.push_back(pts::hash2(0)); v.push_back(ref::neg(g)); v.push_back(ref::add(g, g)); return v; }
static ref::F12 dense12() { ref::F12 d; for (int i = 0; i < 3; i++) { d.a.c[i] = ref::mk2(ref::Fz(ops::dense(2 * i)), ref::Fz(ops::dense(2 * i + 1))); d.b.c[i] = ref::mk2(ref::Fz(ops::dense(3 * i + 1)), ref::Fz(ops::dense(3 * i + 7))); } return d; }

// ------------------------------------------------------------ texts
template<class W> static int setText(W& x, const std::string& s) { try { x.set(s); return 1; } catch (const std::exception&) { return 0; } }
static bool strictNumber(const std::string& s, mpz_class& v, bool neg) // decimal or 0x..., no leading zeros
{
	std::string t = s; bool m = false; if (neg && !t.empty() && t[0] == '-') { m = true; t = t.substr(1); }
	if (t.empty()) return false;
	if (t.compare(0, 2, "0x") == 0) { if (t.size() == 2 || t.find_first_not_of("0123456789abcdefABCDEF", 2) != std::string::npos) return false; v = mpz_class(t.substr(2), 16); }
	else { if (t.find_first_not_of("0123456789") != std::string::npos || (t.size() > 1 && t[0] == '0')) return false; v = mpz_class(t, 10); }
	if (m) v = -v;
	return true;
}
static bool hopeless(const std::string& s) // no reading as a number by any notation
{
	if (s.find_first_of("0123456789") == std::string::npos) return s.find_first_of("abcdefABCDEF") == std::string::npos || s.find("x") == std::string::npos;
	for (size_t i = 0; i < s.size(); i++) { char c = s[i]; if (strchr("gzGZ_,.[]()*/!", c) && c) return true; if ((c == '-' || c == '+') && i > 0 && s[i - 1] != ' ') return true; }
	if (s.find('x') == std::string::npos && s.find('X') == std::string::npos && s.find_first_of("acdefACDEF") != std::string::npos) return true; // letters in a decimal number
	return false;
}
static void texts()
{
	static const char al[] = "0179af-+xgX ._,["; int n = sizeof(al) - 1, maxLen = TH() ? 5 : 4;
	std::vector<std::string> cur(1), all(1);
	for (int l = 1; l <= maxLen; l++) { std::vector<std::string> nx; for (size_t i = 0; i < cur.size(); i++) for (int k = 0; k < n; k++) nx.push_back(cur[i] + al[k]); cur.swap(nx); all.insert(all.end(), cur.begin(), cur.end()); }
	for (int d = 1; d < 90; d += 7) { all.push_back(std::string(d, '7')); all.push_back("-" + std::string(d, '7')); all.push_back("0x" + std::string(d > 63 ? 63 : d, 'a')); all.push_back(std::string(d, '7') + "g"); all.push_back(std::string(d, '7') + "." ); }
	for (size_t i = 0; i < all.size(); i++) {
		const std::string& s = all[i]; if (!mc::state(mc::hashStr(s, i))) continue;
		if (i % 16 == 0 || mc::ctx().onlySet) mc::what("text \"" + s + "\"");
		mpz_class v; mc::trace(); mc::step(2);
		{ ::Mpz x(42); int r = setText(x, s); if (strictNumber(s, v, true)) { if (!r || val(x) != v) mc::fail("Mpz text \"" + s + "\": " + (r ? "read as " + x.toString() : "refused")); mc::outcome("integer accepted"); } else if (hopeless(s)) { if (r) mc::fail("Mpz text \"" + s + "\" read as " + x.toString()); mc::outcome("integer refused"); x.add(::Mpz(1)); }
		  int c = 1; try { ::Mpz y(s); if (r && !y.equals(x)) mc::fail("Mpz constructor and set differ on \"" + s + "\""); } catch (const std::exception&) { c = 0; } if (c != r) mc::fail("Mpz constructor and set differ on \"" + s + "\""); }
		{ ::Fp x(42); int r = setText(x, s); if (strictNumber(s, v, false)) { if (!r || val(x) != ref::Fz(v) || !reduced(x)) mc::fail("Fp text \"" + s + "\": " + (r ? "read as " + x.toString() : "refused")); } else if (hopeless(s)) { if (r) mc::fail("Fp text \"" + s + "\" read as " + x.toString()); }
		  int c = 1; try { ::Fp y(s); if (r && !y.equals(x)) mc::fail("Fp constructor and set differ on \"" + s + "\""); } catch (const std::exception&) { c = 0; } if (c != r) mc::fail("Fp constructor and set differ on \"" + s + "\"");
		  int c2 = 1; try { ::Fp2 y(s, "1"); if (r && (val(y).a != val(x) || val(y).b != ref::Fi(1))) mc::fail("Fp2 constructor from \"" + s + "\""); } catch (const std::exception&) { c2 = 0; } if (c2 != r) mc::fail("Fp2 constructor and Fp set differ on \"" + s + "\""); }
		if (hopeless(s) && s.find('[') == std::string::npos) { mc::step(4);
			::Fp2 a(1, 2); if (setText(a, s)) mc::fail("Fp2 text \"" + s + "\" read as " + a.toString());
			::Fp12 b(1); if (setText(b, s)) mc::fail("Fp12 text \"" + s + "\" read as " + b.toString());
			::Ec1 c; if (setText(c, s)) mc::fail("Ec1 text \"" + s + "\" read as " + c.toString());
			::Ec2 d; d.clear(); if (setText(d, s)) mc::fail("Ec2 text \"" + s + "\" read as " + d.toString()); }
	}
}
template<class W> static void corrupt(const std::string& nm, const W& obj)
{
	// single-character corruptions that leave no notation of a value
	std::string t = obj.toString();
	for (size_t i = 0; i <= t.size(); i++) for (int k = 0; k < 6; k++) {
		std::string s = t; static const char bad[] = "gz!;";
		if (k < 4) { if (i < t.size()) s[i] = bad[k]; else s += bad[k]; } else if (k == 4) s.insert(i, "z"); else { if (i == t.size()) continue; s = t.substr(0, i); if (nm == "Ec1" || nm == "Ec2") { if (s == "0" || s.find('_') != std::string::npos) continue; } }
		if (k == 5 && i > 0 && s.find_last_not_of(" \n") != std::string::npos && s.find_last_not_of(" \n") == t.find_last_not_of(" \n")) continue;
		if (!mc::state(mc::hashStr(s, mc::hashStr(nm)))) continue;
		mc::what(nm + " text " + s); W x(obj); mc::step(); mc::trace();
		if (setText(x, s)) mc::fail(nm + " text \"" + s + "\" is read as " + x.toString());
		x = obj; if (!x.equals(obj)) mc::fail(nm + ": unusable after a refused text");
	}
}

static void c19()
{
	using ref::F; using ref::F2; using ref::F12;
	mc::domain("Mpz sequences", []() {
		typedef ::Mpz W; typedef mpz_class R; std::vector<Opn<W, R> > v; common(v);
		OP(W, R, "add", x.add(y), x = x + y) OP(W, R, "sub", x.sub(y), x = x - y) OP(W, R, "mul", x.mul(y), x = x * y)
		OP(W, R, "set -7", x.set(-7), x = -7) OP(W, R, "set 2^64", x.set("18446744073709551616"), x = R(1) << 64) OP(W, R, "set 0x", x.set("-0x80000000"), x = -(R(1) << 31))
		OP(W, R, "mod", x.mod(y), if (y == 0) return false; R q; mpz_tdiv_r(q.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); x = q)
		std::vector<State<W, R> > in; std::vector<R> a; a.push_back(5); a.push_back(-3); in.push_back(st<W, R>(a, "{5,-3}")); a[0] = (R(1) << 64) - 1; a[1] = R(1) << 31; in.push_back(st<W, R>(a, "{2^64-1,2^31}")); a[0] = 0; a[1] = -(R(1) << 128); a.push_back(2147483647); in.push_back(st<W, R>(a, "{0,-2^128,2^31-1}"));
		search(in, v, TH() ? 5 : 4);
	});
	mc::domain("Mpz comparison", []() {
		std::vector<mpz_class> e = exps(); for (int i = -5; i < 6; i++) e.push_back(i); e.push_back(2147483647); e.push_back(-mpz_class(2147483647) - 1);
		for (size_t i = 0; i < e.size(); i++) for (size_t j = 0; j < e.size(); j++) { if (!mc::state(mc::mix(i, j))) continue; std::string w = e[i].get_str() + " and " + e[j].get_str(); mc::what("Mpz " + w); ::Mpz x = make(e[i]), y = make(e[j]); int c = x.compareTo(y), r = cmp(e[i], e[j]); mc::step(3); mc::trace();
			if ((c > 0) != (r > 0) || (c < 0) != (r < 0) || x.equals(y) != (r == 0)) mc::fail("comparison of " + w);
			{ ::Mpz t(x); t.mod(y.equals(::Mpz(0)) ? ::Mpz(3) : y); mpz_class m = e[j] == 0 ? mpz_class(3) : e[j], g = val(t); if ((e[i] - g) % m != 0 || abs(g) >= abs(m)) mc::fail("mod of " + w); if (val(x) != e[i]) mc::fail("mod of " + w + " changed another object"); } }
		for (int k = 0; k < 40; k++) { static const int xs[] = { 0, 1, -1, 2147483647, -2147483647 - 1, 12345, -65536, 65536 }; if (!mc::state(1000 + k)) continue; int n = k < 8 ? xs[k] : (k - 8) * 67108864 - 1073741824; mc::what("int"); ::Mpz x(n), y; y.set(n); if (val(x) != n || val(y) != n) mc::fail("Mpz from " + std::to_string(n)); ::Fp a(n), b; b.set(n); if (val(a) != ref::Fi(n) || val(b) != ref::Fi(n) || !reduced(a)) mc::fail("Fp from " + std::to_string(n)); ::Fp2 c(n), d(n, -(n / 2)); if (val(c) != ref::F2i(n) || val(d) != ref::F2i(n, -(n / 2))) mc::fail("Fp2 from " + std::to_string(n)); ::Fp12 f(n); if (val(f) != ref::F12i(n)) mc::fail("Fp12 from " + std::to_string(n)); mc::step(6); mc::trace(); }
		if (mc::state(5000)) { mc::what("GetParamR"); mc::step(); mc::trace(); if (val(GetParamR()) != ref::curve().r) mc::fail("GetParamR"); }
	});
	mc::domain("Fp sequences", []() {
		typedef ::Fp W; typedef F R; std::vector<Opn<W, R> > v; field(v);
		OP(W, R, "set -1", x.set(-1), x = ref::Fi(-1)) OP(W, R, "set min", x.set(-2147483647 - 1), x = ref::Fz(mpz_class("-2147483648")))
		std::vector<State<W, R> > in; std::vector<R> a; a.push_back(ref::Fi(2)); a.push_back(ref::Fi(-3)); in.push_back(st<W, R>(a, "{2,-3}")); a[0] = ref::Fz(ops::dense(1)); a[1] = ref::Fi(0); a.push_back(ref::Fi(-1)); in.push_back(st<W, R>(a, "{dense,0,-1}"));
		search(in, v, TH() ? 5 : 4);
	});
	mc::domain("Fp powers", []() { std::vector<F> x; for (int i = -3; i <= 3; i++) x.push_back(ref::Fi(i)); x.push_back(ref::Fz(ops::dense(2))); powers< ::Fp, F>("Fp", x); });
	mc::domain("Fp2 sequences", []() {
		typedef ::Fp2 W; typedef F2 R; std::vector<Opn<W, R> > v; field(v);
		OP(W, R, "getA.add", x.getA().add(y.getB()), F b = y.b; x.a = x.a + b) OP(W, R, "getB.mul", x.getB().mul(y.getA()), F a = y.a; x.b = x.b * a) OP(W, R, "getB.set", x.getB().set(9), x.b = ref::Fi(9)) OP(W, R, "from components", x = W(y.getB(), y.getA()), F a = y.a; F b = y.b; x.a = b; x.b = a)
		std::vector<State<W, R> > in; std::vector<R> a; a.push_back(ref::F2i(2, -1)); a.push_back(ref::F2i(0, 3)); in.push_back(st<W, R>(a, "{2-u,3u}")); a[0] = ref::mk2(ref::Fz(ops::dense(1)), ref::Fz(ops::dense(2))); a[1] = ref::F2i(0); in.push_back(st<W, R>(a, "{dense,0}"));
		search(in, v, TH() ? 5 : 4);
	});
	mc::domain("Fp2 powers", []() { std::vector<F2> x; for (int i = -1; i <= 1; i++) for (int j = -1; j <= 1; j++) x.push_back(ref::F2i(i, j)); x.push_back(ref::mk2(ref::Fz(ops::dense(2)), ref::Fz(ops::dense(3)))); powers< ::Fp2, F2>("Fp2", x); });
	mc::domain("Fp12 sequences", []() {
		typedef ::Fp12 W; typedef F12 R; std::vector<Opn<W, R> > v; field(v);
		std::vector<State<W, R> > in; std::vector<R> a; a.push_back(ref::F12i(-1)); a.push_back(dense12()); in.push_back(st<W, R>(a, "{-1,dense}")); a[0] = ref::mk12(ref::F6i(0), ref::F6i(1)); a[1] = ref::F12i(0); in.push_back(st<W, R>(a, "{w,0}"));
		search(in, v, TH() ? 4 : 3);
	});
	mc::domain("Fp12 powers", []() { std::vector<F12> x; x.push_back(ref::F12i(0)); x.push_back(ref::F12i(1)); x.push_back(ref::F12i(-1)); x.push_back(ref::mk12(ref::F6i(0), ref::F6i(1))); x.push_back(dense12()); powers< ::Fp12, F12>("Fp12", x); });
	mc::domain("Ec1 sequences", []() {
		typedef ::Ec1 W; typedef P1 R; std::vector<Opn<W, R> > v; points(v); P1 g = pts::gen1();
		OP(W, R, "set", x.set(::Fp(-1), ::Fp(1)), x = g) OP(W, R, "other Z", x = makeJ(pts::gen1(), ref::Fi(3)), x = g)
		std::vector<State<W, R> > in; std::vector<P1> p = pool1(); std::vector<R> a; a.push_back(p[0]); a.push_back(p[2]); in.push_back(st<W, R>(a, "{G,H}")); a[1] = p[1]; a.push_back(p[3]); in.push_back(st<W, R>(a, "{G,0,-G}"));
		search(in, v, TH() ? 5 : 4);
	});
	mc::domain("Ec1 set from its own coordinates", []() {
		for (int s = -1; s <= 1; s += 2) for (int c = 0; c < 27; c++) {
			if (!mc::state(30 * s + c)) continue;
			int q[3] = { c % 3, c / 3 % 3, c / 9 }; std::ostringstream os; os << "Ec1 (-1," << s << ",1) set from its own coordinates " << q[0] << q[1] << q[2]; mc::what(os.str());
			F v[3] = { ref::Fi(-1), ref::Fi(s), ref::Fi(1) }; ::Ec1 x(::Fp(-1), ::Fp(s)); ::Fp *g[3] = { &x.getX(), &x.getY(), &x.getZ() };
			const bool on = v[q[1]] * v[q[1]] == v[q[0]] * v[q[0]] * v[q[0]] + ref::Fi(2) * ref::pow(v[q[2]], mpz_class(6)); bool ok = true;
			try { x.set(*g[q[0]], *g[q[1]], *g[q[2]]); } catch (const std::exception&) { ok = false; } mc::step();
			if (ok != on) mc::fail(os.str() + (on ? ": refused" : ": accepted"));
			if (on && (val(x.getX()) != v[q[0]] || val(x.getY()) != v[q[1]] || val(x.getZ()) != v[q[2]])) mc::fail(os.str() + ": wrong point");
			mc::trace();
		}
	});
	mc::domain("Ec1 multiples", []() { multiples< ::Ec1, P1>("Ec1", pool1()); });
	mc::domain("Ec2 sequences", []() {
		typedef ::Ec2 W; typedef P2 R; std::vector<Opn<W, R> > v; points(v); P2 g = pts::gen2();
		OP(W, R, "set", W t(make(pts::gen2())); x.set(t.getX(), t.getY()), x = g) OP(W, R, "other Z", x = makeJ(pts::gen2(), ref::F2i(3, 1)), x = g)
		std::vector<State<W, R> > in; std::vector<P2> p = pool2(); std::vector<R> a; a.push_back(p[0]); a.push_back(p[2]); in.push_back(st<W, R>(a, "{G,H}")); a[1] = p[1]; a.push_back(p[3]); in.push_back(st<W, R>(a, "{G,0,-G}"));
		search(in, v, TH() ? 4 : 3);
	});
	mc::domain("Ec2 multiples", []() { multiples< ::Ec2, P2>("Ec2", pool2()); });
	mc::domain("points refused", []() {
		for (int i = -6; i <= 6; i++) for (int j = -6; j <= 6; j++) for (int z = 0; z <= 3; z++) {
			if (!mc::state(mc::mix(mc::mix(i + 50, j + 50), z))) continue; std::ostringstream os; os << "(" << i << "," << j << "," << z << ")"; mc::what(os.str()); mc::trace(); mc::step(4);
			F x = ref::Fi(i), y = ref::Fi(j), Z = ref::Fi(z); bool on = z == 0 || y * y == x * x * x + ref::Fi(ref::curve().b) * (Z * Z * Z * Z * Z * Z); if (z == 0) continue;
			bool ok = true; try { ::Ec1 e(make(x), make(y), make(Z)); if (!e.isValid()) mc::fail("Ec1 " + os.str() + " accepted but not valid"); } catch (const std::exception&) { ok = false; } if (ok != on) mc::fail("Ec1 " + os.str() + (on ? " refused" : " accepted"));
			if (z == 1) { bool ok2 = true; try { ::Ec1 e(make(x), make(y)); } catch (const std::exception&) { ok2 = false; } if (ok2 != on) mc::fail("Ec1 " + os.str() + " affine"); ::Ec1 s(::Fp(-1), ::Fp(1)); ok2 = true; try { s.set(make(x), make(y)); } catch (const std::exception&) { ok2 = false; } if (ok2 != on) mc::fail("Ec1 set " + os.str()); }
			F2 X = pts::gen2().x + ref::F2i(i == 1 ? 0 : i, 0), Y = pts::gen2().y + ref::F2i(0, j == 1 ? 0 : j); F2 z2 = ref::F2i(z, z - 1); bool on2 = ref::onG2(ref::mkPt(X, Y)); ok = true; try { ::Ec2 e = makeJ(ref::mkPt(X, Y), z2); if (!e.isValid()) mc::fail("Ec2 accepted but not valid"); } catch (const std::exception&) { ok = false; } if (ok != on2) mc::fail("Ec2 near the generator, offsets " + os.str() + (on2 ? " refused" : " accepted"));
			mc::outcome(on ? "on the curve" : "off the curve");
		}
	});
	mc::domain("pairing", []() {
		std::vector<P1> ps = pool1(); std::vector<P2> qs = pool2(); F12 b = ref::pairing(qs[0], ps[0]); long k1[] = { 1, 0, 0, -1, 2 };
		for (size_t i = 0; i < qs.size(); i++) for (size_t j = 0; j < ps.size(); j++) {
			if (!mc::state(mc::mix(i, j))) continue; std::ostringstream os; os << "pairing of points " << i << " and " << j; mc::what(os.str()); mc::trace(); mc::step(3);
			F12 e = (i != 2 && j != 2) ? pw(b, mpz_class(k1[i] * k1[j])) : ref::pairing(qs[i], ps[j]);
			::Ec2 Q = make(qs[i]); ::Ec1 P = make(ps[j]); ::Fp12 f(5), g(f); f.pairing(Q, P); if (!(val(f) == e) || !reduced(f)) mc::fail(os.str());
			if (!(val(Q) == qs[i]) || !(val(P) == ps[j]) || !(val(g) == ref::F12i(5))) mc::fail(os.str() + ": another object changed");
			::Ec1 P2_(P); P2_.mul(::Mpz(6)); g.pairing(Q, P2_); F12 e6 = pw(e, mpz_class(6)); if (!(val(g) == e6)) mc::fail(os.str() + ": 6-fold point"); ::Fp12 h(f); h.power(::Mpz(6)); if (!h.equals(g) || !(val(f) == e)) mc::fail(os.str() + ": power");
			h.power(::Mpz(-1)); if (!(val(h) == pw(e6, mpz_class(-1)))) mc::fail(os.str() + ": inverse");
		}
	});
	mc::domain("component accessors", []() {
		// accessors expose a part of their parent and nothing else
		for (int k = 0; k < 6; k++) { if (!mc::state(k)) continue; mc::what("accessors"); mc::trace(); mc::step(4); ::Ec1 p = makeJ(pts::gen1(), ref::Fi(2)), q(p); ::Ec2 s = makeJ(pts::gen2(), ref::F2i(2, 1)), t(s);
			F x = val(p.getX()), y = val(p.getY()), z = val(p.getZ()); if (x != ref::Fi(-4) || y != ref::Fi(8) || z != ref::Fi(2)) mc::fail("Ec1 accessors");
			if (k < 3) { ::Fp c(k == 0 ? p.getX() : k == 1 ? p.getY() : p.getZ()); c.add(::Fp(1)); if (!p.equals(q) || val(p.getX()) != x || val(p.getY()) != y || val(p.getZ()) != z) mc::fail("copy of a component is not independent"); }
			else { ::Fp2& c = k == 3 ? s.getX() : k == 4 ? s.getY() : s.getZ(); F2 o = val(c); c.add(::Fp2(0, 1)); F2 n = val(k == 3 ? s.getX() : k == 4 ? s.getY() : s.getZ()); if (n != o + ref::F2i(0, 1)) mc::fail("component of Ec2"); if (!(val(t) == pts::gen2())) mc::fail("component of a copy changed"); if (s.isValid()) mc::fail("changed component is not seen by the parent"); c.sub(::Fp2(0, 1)); if (!s.equals(t) || !s.isValid()) mc::fail("component of Ec2 restored"); }
		}
	});
	mc::domain("texts", texts);
	mc::domain("corrupted texts", []() { corrupt("Fp2", make(ref::mk2(ref::Fz(ops::dense(1)), ref::Fi(-1)))); corrupt("Fp12", make(dense12())); corrupt("Ec1", make(pts::hash1(2))); corrupt("Ec2", make(pts::hash2(0))); });
}
int main(int argc, char **argv)
{
	mc::parse(argc, argv);
	ref::setCurve(lib::refCurve("n"));
	SystemInit();
	c19();
	return mc::runAll();
}
