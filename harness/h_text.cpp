/*
	C14 text round trip, C15 malformed text and invalid points.
	Oracle: GMP positional notation and a grammar of the accepted texts.
*/
#include "ops.h"
#include "points.h"
#include <algorithm>
#include <set>
using namespace pts;
typedef uint64_t u64;
static bool TH() { return mc::ctx().thorough(); }
static bool WD() { return true; } // wide alphabets, affordable on every change
static mpz_class P2_(int n) { return mpz_class(1) << n; }
static const mpz_class& pp() { return ref::curve().p; }
struct TextTag {};
typedef mie::ZmZ<Vuint, TextTag> Zm;
static std::istream& operator>>(std::istream& is, Zm& x) { Vuint v; if (is >> v) x.set(v); return is; } // the class itself has no reader
static mpz_class zmMod() { return (mpz_class(1) << 255) - 19; }
static Vuint V(const mpz_class& z) { Vuint v; std::vector<u64> w((mpz_sizeinbase(z.get_mpz_t(), 2) + 63) / 64 + 1, 0); size_t n = 0; mpz_export(&w[0], &n, -1, 8, 0, 0, z.get_mpz_t()); v.set(&w[0], n ? n : 1); return v; }
static std::string dec(const mpz_class& z) { return z.get_str(10); }
static std::string hex0(const mpz_class& z) { return (z < 0 ? "-0x" : "0x") + mpz_class(abs(z)).get_str(16); }
static std::string num(const mpz_class& z, int base) { return base == 10 ? dec(z) : hex0(z); }
static std::string quote(const std::string& s) { std::string r = "\""; for (size_t i = 0; i < s.size(); i++) { if (s[i] == 0) r += "\\0"; else if (s[i] == '\n') r += "\\n"; else if (s[i] == '\t') r += "\\t"; else r += s[i]; } return r + "\""; }

// ------------------------------------------------------------ uniform view of the types
// model value: what the object denotes, as text (numbers in decimal)
struct Ty {
	std::string name;
	std::function<std::string(int v, int base, bool stream)> write; // text of the v-th value
	std::function<std::string(int v, int base)> expect;            // the standard notation
	std::function<std::string(int v)> model;                        // canonical model text of the v-th value
	std::function<std::string(std::istream&)> read;                  // reads one object, gives its model text
	std::function<std::string(const std::string&)> parse;            // string interface, gives the model text
	int n;
};
static std::string mt(const Vuint& v) { return dec(M(v)); }
static std::string mt(const Vsint& v) { return dec(M(v)); }
static std::string mt(const Zm& v) { return dec(M(v.get())); }
static std::string mt(const ref::F& x) { return dec(ref::Z(x)); }
static std::string mt(const ref::F2& x) { return "[" + mt(x.a) + "," + mt(x.b) + "]"; }
static std::string mt(const ref::F6& x) { return "[" + mt(x.c[0]) + "," + mt(x.c[1]) + "," + mt(x.c[2]) + "]"; }
static std::string mt(const ref::F12& x) { return "[" + mt(x.a) + "," + mt(x.b) + "]"; }
template<class R> static std::string mt(const ref::Pt<R>& p) { return p.inf ? "inf" : mt(p.x) + "_" + mt(p.y); }
template<class T> static std::string noncanon(const T& x) { return canon(x) ? "" : "(not reduced)"; }
static std::string mt(const Fp& x) { return mt(A(x)) + noncanon(x); }
static std::string mt(const Fp2& x) { return mt(A(x)) + noncanon(x); }
static std::string mt(const Fp6& x) { return mt(A(x)) + noncanon(x); }
static std::string mt(const Fp12& x) { return mt(A(x)) + noncanon(x); }
static std::string mt(const Ec1& x) { return mt(A(x)); }
static std::string mt(const Ec2& x) { return mt(A(x)); }
// standard notation
static std::string nt(const ref::F& x, int b) { return num(ref::Z(x), b); }
static std::string nt(const ref::F2& x, int b) { return "[" + nt(x.a, b) + "," + nt(x.b, b) + "]"; }
static std::string nt(const ref::F6& x, int b) { return "[" + nt(x.c[0], b) + ",\n " + nt(x.c[1], b) + ",\n " + nt(x.c[2], b) + "]"; }
static std::string nt(const ref::F12& x, int b) { return "[" + nt(x.a, b) + ",\n " + nt(x.b, b) + "]"; }
template<class R> static std::string nt(const ref::Pt<R>& p, int) { return p.inf ? "0" : nt(p.x, 16) + "_" + nt(p.y, 16); }

template<class T> static std::string outS(const T& x, int base) { std::ostringstream os; if (base == 16) os << std::hex; os << x; return os.str(); }
template<class T> static T blank() { return T(); }
template<class T> static void garbage(T& x) { memset((void*)&x, 0x33, sizeof(x)); }
static void garbage(Vuint& x) { x = V(P2_(570) - 7); } static void garbage(Vsint& x) { x = Vsint(V(P2_(570) - 7)); x = -x; } static void garbage(Zm& x) { x = Zm(-5); }

// ------------------------------------------------------------ values
static std::vector<mpz_class> ints(bool neg)
{
	std::set<mpz_class> s;
	for (int i = 0; i <= 40; i++) s.insert(i);
	for (int b = 1; b <= 576; b += WD() || b < 70 || b % 32 > 30 || b % 32 < 2 ? 1 : 5) for (int d = -1; d <= 1; d++) if (!(b == 576 && d >= 0)) s.insert(P2_(b) + d);
	mpz_class t = 1; for (int i = 0; i < 173; i++) { for (int d = -1; d <= 1; d++) s.insert(t + d); if (i % 9 == 0) { s.insert(t * 5); s.insert(t + 10); } t *= 10; }
	// groups of zeros inside the number, in both bases
	mpz_class g("1000000000"); for (int i = 1; i < 19; i++) for (int j = 0; j < i; j++) { mpz_class a, b; mpz_pow_ui(a.get_mpz_t(), g.get_mpz_t(), i); mpz_pow_ui(b.get_mpz_t(), g.get_mpz_t(), j); s.insert(a + b); s.insert(a + b * 7); s.insert(a * 999999999 + b * 123); }
	for (int i = 1; i < 9; i++) for (int j = 0; j < i; j++) { s.insert(P2_(64 * i) + P2_(64 * j)); s.insert(P2_(64 * i) * 0xabcdef + P2_(64 * j + 4)); s.insert(P2_(64 * i) + P2_(64 * j + 60)); }
	for (int i = 0; i <= 144; i += 1) s.insert(mpz_class(std::string("fedcba9876543210fedcba9876543210fedcba9876543210fedcba9876543210fedcba9876543210fedcba9876543210fedcba9876543210fedcba9876543210fedcba9876543210").substr(0, i ? i : 1), 16));
	std::vector<mpz_class> r;
	for (std::set<mpz_class>::iterator i = s.begin(); i != s.end(); ++i) { if (*i < 0 || *i >= P2_(576)) continue; r.push_back(*i); if (neg && *i != 0) r.push_back(-*i); }
	return r;
}
static std::vector<ref::F> fps()
{
	std::vector<mpz_class> v = ints(false); std::vector<ref::F> r; std::set<mpz_class> s;
	for (size_t i = 0; i < v.size(); i++) if (v[i] < pp()) { s.insert(v[i]); s.insert(pp() - 1 - v[i]); mpz_class w = v[i] * ref::Z(ref::fromRaw(ref::Fi(1))) % pp(); s.insert(w); }
	for (std::set<mpz_class>::iterator i = s.begin(); i != s.end(); ++i) r.push_back(ref::Fz(*i));
	return r;
}
static std::vector<ref::F> fewF() { std::vector<ref::F> r; r.push_back(ref::Fi(0)); r.push_back(ref::Fi(1)); r.push_back(ref::Fi(-1)); r.push_back(ref::Fz(P2_(64))); r.push_back(ref::Fz(P2_(192) * 5 + 16)); r.push_back(ref::Fi(10)); r.push_back(ref::Fz(mpz_class("1000000000000000000000000001"))); return r; }
static std::vector<ref::F2> f2s() { std::vector<ref::F> f = fewF(); std::vector<ref::F2> r; for (size_t i = 0; i < f.size(); i++) for (size_t j = 0; j < f.size(); j++) r.push_back(ref::mk2(f[i], f[j])); return r; }
static std::vector<ref::F6> f6s() { std::vector<ref::F2> f = f2s(); std::vector<ref::F6> r; for (size_t i = 0; i < f.size(); i++) for (size_t j = 0; j < (WD() ? f.size() : 6); j++) r.push_back(ref::mk6(f[i], f[(j * 5 + i) % f.size()], f[(i * 3 + j * 11) % f.size()])); for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < f.size(); j++) { ref::F6 x = ref::F6i(0); x.c[i] = f[j]; r.push_back(x); } return r; }
static std::vector<ref::F12> f12s() { std::vector<ref::F6> f = f6s(); std::vector<ref::F12> r; for (size_t i = 0; i < f.size(); i++) r.push_back(ref::mk12(f[i], f[(i * 7 + 3) % f.size()])); for (size_t j = 0; j < f.size(); j += 9) { r.push_back(ref::mk12(f[j], ref::F6i(0))); r.push_back(ref::mk12(ref::F6i(0), f[j])); } return r; }

// ------------------------------------------------------------ C14
template<class T, class X> static void roundTrip(const std::string& nm, const T& obj, const X& val, const std::string& model, const std::string& s10, const std::string& s16, bool hasString)
{
	(void)val; (void)hasString;
	T keep = obj;
	for (int base = 10; base <= 16; base += 6) {
		const std::string& want = base == 10 ? s10 : s16;
		std::string w = nm + " " + want + " base " + std::to_string(base); mc::what(w);
		std::string s = outS(obj, base); mc::step();
		if (s != want) mc::fail(w + ": written as " + quote(s));
		if (memcmp((void*)&keep, (void*)&obj, sizeof(T)) && mt(keep) != mt(obj)) mc::fail(w + ": writing changed the value");
		// alone, at the end of a stream, before white space, before a closing character, after white space
		static const char *pre[] = { "", " ", "\n\t ", "", "" }; static const char *post[] = { "", "", " tail", ")", "\nx" };
		for (int k = 0; k < 5; k++) {
			if (k == 3 && (nm == "Ec1" || nm == "Ec2")) continue; // a point is delimited by white space
			std::istringstream is(pre[k] + s + post[k]); T b; garbage(b); is >> b; mc::step();
			if (is.fail()) mc::fail(w + ": not accepted again");
			if (mt(b) != model) mc::fail(w + ": read as " + mt(b) + " instead of " + model);
			is.clear(); std::string rest; std::getline(is, rest, '\0'); if (rest != post[k]) mc::fail(w + ": the stream is left at " + quote(rest) + " instead of " + quote(post[k]));
			if (base == 10 && !(b == obj)) mc::fail(w + ": the value read differs from the one written");
		}
	}
	mc::trace();
}
template<class T> static void strIf(const std::string& nm, const T& obj, const std::string& model, const std::string& s10, const std::string& s16)
{
	std::string w = nm + " " + s10; mc::step(6);
	if (obj.toString() != s10 || obj.toString(10) != s10 || obj.toString(16) != s16) mc::fail(w + ": toString gives " + obj.toString() + " and " + obj.toString(16));
	T b; garbage(b); b.set(obj.toString()); if (mt(b) != model) mc::fail(w + ": set(toString()) gives " + mt(b));
	garbage(b); b.set(obj.toString(16)); if (mt(b) != model) mc::fail(w + ": set(toString(16)) gives " + mt(b));
}
static std::string upper(std::string s) { for (size_t i = 0; i < s.size(); i++) if (s[i] >= 'a' && s[i] <= 'f') s[i] -= 32; return s; }
template<class T> static void intIf(const std::string& nm, const mpz_class& z, T& obj)
{
	std::string w = nm + " " + dec(z), d = dec(z), h = hex0(z), bare = z < 0 ? "-" + h.substr(3) : h.substr(2); T b; mc::step(9);
	if (obj.toStr() != d || obj.toStr(10) != d || obj.toStr(16) != h) mc::fail(w + ": toStr");
	b.fromStr(d); if (M(b) != z) mc::fail(w + ": fromStr"); b.fromStr(h, 16); if (M(b) != z) mc::fail(w + ": fromStr of 0x, base 16"); b.fromStr(bare, 16); if (M(b) != z) mc::fail(w + ": fromStr base 16"); b.fromStr(d, 10); if (M(b) != z) mc::fail(w + ": fromStr base 10");
	b.set(d, 10); if (M(b) != z) mc::fail(w + ": set base 10"); b.set(bare, 16); if (M(b) != z) mc::fail(w + ": set base 16 without prefix"); b.set(upper(bare), 16); if (M(b) != z) mc::fail(w + ": set in capitals"); b.set(upper(h)); if (M(b) != z) mc::fail(w + ": set 0x in capitals");
	T c(d), e(h); if (M(c) != z || M(e) != z) mc::fail(w + ": constructor from text");
	std::istringstream is(upper(h)); is >> b; if (is.fail() || M(b) != z) mc::fail(w + ": stream in capitals");
	// leading zeros after 0x
	if (z >= 0) { b.set("0x000" + h.substr(2)); if (M(b) != z) mc::fail(w + ": leading zeros after 0x"); b.set("0x" + std::string(200, '0') + h.substr(2)); if (M(b) != z) mc::fail(w + ": many leading zeros after 0x"); }
}

// several objects on one stream
struct Item { std::string text, model; };
template<class T, class R> static void addItems(std::vector<std::pair<int, Item> >& v, int ty, const std::vector<R>& vals, int step)
{
	for (size_t i = 0; i < vals.size(); i += step) { T x; C(x, vals[i]); Item t; t.text = outS(x, i % 2 ? 16 : 10); t.model = mt(vals[i]); v.push_back(std::make_pair(ty, t)); }
}
static std::string readTy(int ty, std::istream& is)
{
	switch (ty) {
	case 0: { Vuint x; is >> x; return mt(x); } case 1: { Vsint x; is >> x; return mt(x); } case 2: { Zm x; is >> x; return mt(x); } case 3: { Fp x; is >> x; return mt(x); }
	case 4: { Fp2 x; is >> x; return mt(x); } case 5: { Fp6 x; is >> x; return mt(x); } case 6: { Fp12 x; is >> x; return mt(x); } case 7: { Ec1 x; is >> x; return mt(x); } default: { Ec2 x; is >> x; return mt(x); }
	}
}
static const char *tyName[] = { "Vuint", "Vsint", "ZmZ", "Fp", "Fp2", "Fp6", "Fp12", "Ec1", "Ec2" };
static std::vector<std::pair<int, Item> > items()
{
	std::vector<std::pair<int, Item> > v; static const long is[] = { 0, 7, 1000000000, 255 };
	for (int i = 0; i < 4; i++) { Item t; t.model = std::to_string(is[i]); t.text = num(is[i], i % 2 ? 16 : 10); v.push_back(std::make_pair(0, t)); v.push_back(std::make_pair(2, t)); t.text = num(-is[i], i % 2 ? 10 : 16); t.model = std::to_string(-is[i]); v.push_back(std::make_pair(1, t)); }
	{ Item t; t.model = dec(P2_(576) - 1); t.text = hex0(P2_(576) - 1); v.push_back(std::make_pair(0, t)); t.model = dec(-P2_(300)); t.text = dec(-P2_(300)); v.push_back(std::make_pair(1, t)); }
	addItems<Fp>(v, 3, fewF(), 2); addItems<Fp2>(v, 4, f2s(), 13); addItems<Fp6>(v, 5, f6s(), 97); addItems<Fp12>(v, 6, f12s(), 131);
	{ P1 ps[3] = { gen1(), ref::infPt<ref::F>(), hash1(4) }; for (int i = 0; i < 3; i++) { Rep<Fp> r = reps<Fp>(ps[i], 2)[1]; Item t; t.text = outS(ec<Fp>(r), 10); t.model = mt(ps[i]); v.push_back(std::make_pair(7, t)); } }
	{ P2 ps[3] = { gen2(), ref::infPt<ref::F2>(), hash2(1) }; for (int i = 0; i < 3; i++) { Rep<Fp2> r = reps<Fp2>(ps[i], 2)[1]; Item t; t.text = outS(ec<Fp2>(r), 10); t.model = mt(ps[i]); v.push_back(std::make_pair(8, t)); } }
	return v;
}
static void streams(int len)
{
	std::vector<std::pair<int, Item> > it = items(); static const char *seps[] = { " ", "\n", "\t  \n" };
	std::vector<int> ix(len, 0);
	for (;;) {
		for (int s = 0; s < 3; s++) {
			uint64_t h = s; for (int i = 0; i < len; i++) h = mc::mix(h, ix[i]);
			if (!mc::state(mc::mix(h, 3))) continue;
			std::string text, w = "stream of"; for (int i = 0; i < len; i++) { text += it[ix[i]].second.text; if (i + 1 < len || s == 1) text += seps[s]; w += std::string(" ") + tyName[it[ix[i]].first]; }
			mc::what(w + " " + text); std::istringstream is(text); if (s == 2) is >> std::hex; // the base of the stream does not matter for reading
			for (int i = 0; i < len; i++) { std::string m = readTy(it[ix[i]].first, is); mc::step(); if (is.fail() || m != it[ix[i]].second.model) mc::fail(w + " " + quote(text) + ": object " + std::to_string(i) + " read as " + m + " instead of " + it[ix[i]].second.model); }
			is.clear(); std::string rest; std::getline(is, rest, '\0'); if (rest != (s == 1 ? "\n" : "")) mc::fail(w + " " + quote(text) + ": left over " + quote(rest));
			mc::trace();
		}
		int j = 0; while (j < len && ++ix[j] == (int)it.size()) ix[j++] = 0; if (j == len) break;
	}
}
// bracketed values written without white space between them
static void adjacent()
{
	std::vector<std::pair<int, Item> > it = items();
	for (size_t i = 0; i < it.size(); i++) for (size_t j = 0; j < it.size(); j++) {
		int a = it[i].first, b = it[j].first; if (a < 4 || a > 6) { if (b < 4 || b > 6) continue; if (a >= 7) continue; } // number or bracket followed by a bracket, bracket followed by anything
		if (!mc::state(mc::mix(i, j))) continue;
		std::string text = it[i].second.text + it[j].second.text; mc::what(text); std::istringstream is(text);
		std::string m = readTy(a, is), n = is.fail() ? "failure" : readTy(b, is); mc::step(2);
		if (m != it[i].second.model || n != it[j].second.model) mc::fail(std::string(tyName[a]) + " then " + tyName[b] + " " + quote(text) + ": read as " + m + " and " + n);
		mc::trace();
	}
}
// the state of the stream and of the process: format flags, field width, locale
struct Punct : std::numpunct<char> { char do_thousands_sep() const { return ','; } char do_decimal_point() const { return ';'; } std::string do_grouping() const { return "\1\2"; } };
struct GlobalLocale { std::locale old; explicit GlobalLocale(int k) { if (k) std::locale::global(std::locale(std::locale::classic(), new Punct)); } ~GlobalLocale() { std::locale::global(old); } };
template<class T> static void formats(const std::string& nm, const T& obj, const std::string& model, const std::string& s10, const std::string& s16, const std::function<std::string(const T&, int)>& str)
{
	static const std::ios_base::fmtflags base[] = { std::ios_base::dec, std::ios_base::hex };
	const bool isEc = nm == "Ec1" || nm == "Ec2", tower = nm == "Fp6" || nm == "Fp12";
	for (int loc = 0; loc < 4; loc++) for (int b = 0; b < 2; b++) for (int f = 0; f < 64; f++) {
		GlobalLocale g(loc & 1); // set before the streams are made
		const std::string& want = b ? s16 : s10; mc::step();
		std::string w = nm + " " + want + (loc & 1 ? ", other global locale" : "") + (loc & 2 ? ", other stream locale" : "") + ", format flags " + std::to_string(f); mc::what(w);
		std::ios_base::fmtflags fl = base[b] | std::ios_base::skipws;
		if (f & 1) fl |= std::ios_base::showbase; if (f & 2) fl |= std::ios_base::uppercase; if (f & 4) fl |= std::ios_base::showpos | std::ios_base::showpoint; if (f & 8) fl |= std::ios_base::unitbuf | std::ios_base::scientific; fl |= (f & 16) ? std::ios_base::left : std::ios_base::internal;
		std::ostringstream os; if (loc & 2) os.imbue(std::locale(std::locale::classic(), new Punct)); else os.imbue(std::locale());
		os.flags(fl); os.precision(3); if (f & 32) { os.fill(' '); os.width(60); }
		if (f & 8) os.exceptions(std::ios_base::failbit | std::ios_base::badbit);
		os << obj; if (os.flags() != fl) mc::fail(w + ": writing changed the format of the stream"); os << std::dec << std::noshowbase << std::noshowpos; os.width(0); os << " " << 7;
		std::string s = os.str();
		if (!(f & 32) && s != want + " 7") mc::fail(w + ": written as " + quote(s));
		std::istringstream is(s); if (loc & 2) is.imbue(std::locale(std::locale::classic(), new Punct)); is.flags(fl); if (!isEc && !tower && !(f & 32) && (f & 4)) is >> std::noskipws;
		if (f & 8) is.exceptions(std::ios_base::failbit | std::ios_base::badbit);
		std::ios_base::fmtflags ifl = is.flags(); T x; garbage(x); is >> x; mc::step(); int n = 0; if (is.flags() != ifl) mc::fail(w + ": reading changed the format of the stream"); is >> std::skipws >> std::dec >> n;
		if (is.fail() || n != 7 || mt(x) != model) mc::fail(w + ": " + quote(s) + " is read as " + mt(x));
		if (str) { mc::step(); if (str(obj, b ? 16 : 10) != want) mc::fail(w + ": toString gives " + quote(str(obj, b ? 16 : 10))); }
	}
	mc::trace();
}
static void streamStates()
{
	std::vector<mpz_class> v = ints(true); typedef std::function<std::string(const Vuint&, int)> SU; 
	for (size_t i = 0; i < v.size(); i += 11) {
		const mpz_class& z = v[i]; if (!mc::state(mc::hashStr(hex0(z)))) continue; mpz_class m = abs(z);
		Vsint s(V(m)); if (z < 0) s = -s; formats<Vsint>("Vsint", s, dec(z), dec(z), hex0(z), [](const Vsint& x, int b) { return x.toString(b); });
		if (z >= 0) formats<Vuint>("Vuint", V(z), dec(z), dec(z), hex0(z), [](const Vuint& x, int b) { return x.toString(b); });
		if (z >= 0 && z < zmMod()) formats<Zm>("ZmZ", Zm(V(z)), dec(z), dec(z), hex0(z), [](const Zm& x, int b) { return x.toString(b); });
		if (z >= 0 && z < pp()) formats<Fp>("Fp", mk<Fp>(ref::Fz(z)), dec(z), dec(z), hex0(z), [](const Fp& x, int b) { return x.toString(b); });
	}
	std::vector<ref::F2> f2 = f2s(); for (size_t i = 0; i < f2.size(); i += 3) { if (!mc::state(mc::hashBytes(&f2[i], sizeof(f2[i])))) continue; formats<Fp2>("Fp2", mk<Fp2>(f2[i]), mt(f2[i]), nt(f2[i], 10), nt(f2[i], 16), [](const Fp2& x, int b) { return x.toString(b); }); }
	std::vector<ref::F6> f6 = f6s(); for (size_t i = 0; i < f6.size(); i += 29) { if (!mc::state(mc::hashBytes(&f6[i], sizeof(f6[i])))) continue; formats<Fp6>("Fp6", mk<Fp6>(f6[i]), mt(f6[i]), nt(f6[i], 10), nt(f6[i], 16), 0); }
	std::vector<ref::F12> f12 = f12s(); for (size_t i = 0; i < f12.size(); i += 37) { if (!mc::state(mc::hashBytes(&f12[i], sizeof(f12[i])))) continue; formats<Fp12>("Fp12", mk<Fp12>(f12[i]), mt(f12[i]), nt(f12[i], 10), nt(f12[i], 16), 0); }
	for (int i = 0; i < 5; i++) {
		P1 a = i == 0 ? ref::infPt<ref::F>() : i == 1 ? gen1() : hash1(i); P2 b = i == 0 ? ref::infPt<ref::F2>() : i == 1 ? gen2() : hash2(i);
		std::vector<Rep<Fp> > r = reps<Fp>(a, 7); for (size_t k = 0; k < r.size(); k++) if (mc::state(mc::hashBytes(r[k].c, sizeof(r[k].c), 1))) formats<Ec1>("Ec1", ec<Fp>(r[k]), mt(a), nt(a, 10), nt(a, 16), 0);
		std::vector<Rep<Fp2> > q = reps<Fp2>(b, 7); for (size_t k = 0; k < q.size(); k++) if (mc::state(mc::hashBytes(q[k].c, sizeof(q[k].c), 2))) formats<Ec2>("Ec2", ec<Fp2>(q[k]), mt(b), nt(b, 10), nt(b, 16), 0);
	}
}
static void c14()
{
	mc::domain("integers", []() {
		std::vector<mpz_class> v = ints(true);
		for (size_t i = 0; i < v.size(); i++) {
			const mpz_class& z = v[i]; if (!mc::state(mc::hashStr(hex0(z)))) continue;
			mpz_class m = abs(z);
			Vsint s(V(m)); if (z < 0) s = -s; roundTrip("Vsint", s, z, dec(z), dec(z), hex0(z), true); strIf("Vsint", s, dec(z), dec(z), hex0(z)); intIf("Vsint", z, s);
			if (z >= 0) { Vuint u = V(z); roundTrip("Vuint", u, z, dec(z), dec(z), hex0(z), true); strIf("Vuint", u, dec(z), dec(z), hex0(z)); intIf("Vuint", z, u); }
			if (z >= 0 && z < zmMod()) { Zm u(V(z)); roundTrip("ZmZ", u, z, dec(z), dec(z), hex0(z), true); strIf("ZmZ", u, dec(z), dec(z), hex0(z)); }
			if (mc::wantSample() && i % 500 == 99) mc::sample("integer " + hex0(z));
		}
		{ Vsint s(0); s = -s; if (!mc::state(mc::hashStr("negative zero"))) return; roundTrip("Vsint", s, 0, "0", "0", "0x0", true); strIf("Vsint", s, "0", "0", "0x0"); }
	});
	mc::domain("Fp", []() {
		std::vector<ref::F> v = fps();
		for (size_t i = 0; i < v.size(); i++) {
			if (!mc::state(mc::hashBytes(&v[i], 32))) continue; mpz_class z = ref::Z(v[i]);
			Fp x = mk<Fp>(v[i]); roundTrip("Fp", x, v[i], dec(z), dec(z), hex0(z), true); strIf("Fp", x, dec(z), dec(z), hex0(z));
			Fp y(dec(z)), t(hex0(z)), u(upper(hex0(z))); mc::step(4); if (mt(y) != dec(z) || mt(t) != dec(z) || mt(u) != dec(z)) mc::fail("Fp constructor from text " + dec(z));
			if (M(x.get()) != z) mc::fail("Fp::get " + dec(z)); Fp k((V(z))); if (mt(k) != dec(z)) mc::fail("Fp from integer " + dec(z));
			FpDbl d; mpz_class q = z * (pp() - 1); Vuint qv = V(q); FpDbl::setDirect(d, qv); mc::step(2);
			if (d.toString() != "Dbl(" + dec(q) + ")" || d.toString(16) != "Dbl(" + hex0(q) + ")" || outS(d, 16) != "Dbl(" + hex0(q) + ")" || outS(d, 10) != "Dbl(" + dec(q) + ")") mc::fail("Fp::Dbl text of " + dec(q));
		}
	});
	mc::domain("Fp2", []() { std::vector<ref::F2> v = f2s(); std::vector<ref::F> f = fps(); for (size_t i = 0; i < f.size(); i += 3) { v.push_back(ref::mk2(f[i], f[(i * 11) % f.size()])); }
		for (size_t i = 0; i < v.size(); i++) { if (!mc::state(mc::hashBytes(&v[i], sizeof(v[i])))) continue; Fp2 x = mk<Fp2>(v[i]); roundTrip("Fp2", x, v[i], mt(v[i]), nt(v[i], 10), nt(v[i], 16), true); strIf("Fp2", x, mt(v[i]), nt(v[i], 10), nt(v[i], 16)); } });
	mc::domain("Fp6", []() { std::vector<ref::F6> v = f6s(); for (size_t i = 0; i < v.size(); i++) { if (!mc::state(mc::hashBytes(&v[i], sizeof(v[i])))) continue; Fp6 x = mk<Fp6>(v[i]); roundTrip("Fp6", x, v[i], mt(v[i]), nt(v[i], 10), nt(v[i], 16), false); } });
	mc::domain("Fp12", []() { std::vector<ref::F12> v = f12s(); for (size_t i = 0; i < v.size(); i++) { if (!mc::state(mc::hashBytes(&v[i], sizeof(v[i])))) continue; Fp12 x = mk<Fp12>(v[i]); roundTrip("Fp12", x, v[i], mt(v[i]), nt(v[i], 10), nt(v[i], 16), false); } });
	mc::domain("points", []() {
		std::vector<P1> v; std::vector<P2> u; v.push_back(ref::infPt<ref::F>()); u.push_back(ref::infPt<ref::F2>());
		P1 g = gen1(), a = g; P2 h = gen2(), b = h; for (int i = 0; i < (TH() ? 400 : 60); i++) { v.push_back(a); v.push_back(ref::neg(a)); u.push_back(b); a = ref::add(a, g); b = ref::add(b, h); v.push_back(hash1(i)); if (i < 6) { u.push_back(twistPt(i)); u.push_back(ref::neg(hash2(i))); } }
		// x = 0 and y = 0 where such points exist
		for (int x = -40; x < 40; x++) { ref::F X = ref::Fi(x), w = X * X * X + ref::Fi(ref::curve().b), y = ref::pow(w, (pp() + 1) / 4); if (y * y == w) v.push_back(ref::mkPt(X, y)); }
		for (size_t i = 0; i < v.size(); i++) { std::vector<Rep<Fp> > r = reps<Fp>(v[i], 7); for (size_t k = 0; k < r.size(); k++) { if (!mc::state(mc::hashBytes(r[k].c, sizeof(r[k].c), 1))) continue; Ec1 e = ec<Fp>(r[k]); roundTrip("Ec1", e, v[i], mt(v[i]), nt(v[i], 10), nt(v[i], 16), false); } }
		for (size_t i = 0; i < u.size(); i++) { std::vector<Rep<Fp2> > r = reps<Fp2>(u[i], 7); for (size_t k = 0; k < r.size(); k++) { if (!mc::state(mc::hashBytes(r[k].c, sizeof(r[k].c), 2))) continue; Ec2 e = ec<Fp2>(r[k]); roundTrip("Ec2", e, u[i], mt(u[i]), nt(u[i], 10), nt(u[i], 16), false); } }
	});
	mc::domain("stream formats and locales", streamStates);
	mc::domain("streams of two", []() { streams(2); });
	mc::domain("streams of three", []() { streams(3); });
	mc::domain("adjacent values", adjacent);
}

// ------------------------------------------------------------ C15: grammar of the accepted texts
struct Res { bool ok; std::string v; Res() : ok(false) {} explicit Res(const std::string& s) : ok(true), v(s) {} };
static bool isDec(char c) { return '0' <= c && c <= '9'; }
static bool isHex(char c) { return isDec(c) || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F'); }
static bool gNat(mpz_class& z, const std::string& s, int base = 0)
{
	std::string d = s; int b = base ? base : 10;
	if (b != 10 && b != 16) return false;
	if (s.size() >= 2 && s[0] == '0') { if (s[1] != 'x' || base == 10) return false; b = 16; d = s.substr(2); }
	if (d.empty()) return false;
	for (size_t i = 0; i < d.size(); i++) if (b == 16 ? !isHex(d[i]) : !isDec(d[i])) return false;
	z = mpz_class(d, b); return true;
}
static Res gVuint(const std::string& s, int base = 0) { mpz_class z; if (!gNat(z, s, base) || z >= P2_(576)) return Res(); return Res(dec(z)); }
static Res gVsint(const std::string& s, int base = 0) { bool n = !s.empty() && s[0] == '-'; mpz_class z; if (!gNat(z, n ? s.substr(1) : s, base) || z >= P2_(576)) return Res(); return Res(dec(n ? mpz_class(-z) : z)); }
static Res gMod(const std::string& s, const mpz_class& m) { mpz_class z; if (!gNat(z, s) || z >= P2_(576)) return Res(); return Res(dec(z % m)); }
// streams: white space, then the longest run of number characters
struct Cur { const std::string& s; size_t i; Cur(const std::string& s) : s(s), i(0) {} void ws() { while (i < s.size() && isspace((unsigned char)s[i])) i++; } bool ch(char c) { ws(); if (i < s.size() && s[i] == c) { i++; return true; } return false; } };
static bool gRun(std::string& r, Cur& c, bool neg)
{
	c.ws(); r.clear(); size_t n = 0;
	while (c.i < c.s.size()) {
		char k = c.s[c.i];
		if (isHex(k) || (n == 1 && r[r.size() - 1] == '0' && k == 'x')) n++; else if (!(neg && r.empty() && k == '-')) break;
		r += k; c.i++;
	}
	return n != 0;
}
static Res gsVuint(Cur& c) { std::string r; if (!gRun(r, c, false)) return Res(); return gVuint(r); }
static Res gsVsint(Cur& c) { std::string r; if (!gRun(r, c, true)) return Res(); return gVsint(r); }
static Res gsFp(Cur& c) { std::string r; if (!gRun(r, c, false)) return Res(); return gMod(r, pp()); }
static Res gsFp2(Cur& c) { if (!c.ch('[')) return Res(); Res a = gsFp(c); if (!a.ok || !c.ch(',')) return Res(); Res b = gsFp(c); if (!b.ok || !c.ch(']')) return Res(); return Res("[" + a.v + "," + b.v + "]"); }
static Res gsFp6(Cur& c) { if (!c.ch('[')) return Res(); Res a = gsFp2(c); if (!a.ok || !c.ch(',')) return Res(); Res b = gsFp2(c); if (!b.ok || !c.ch(',')) return Res(); Res d = gsFp2(c); if (!d.ok || !c.ch(']')) return Res(); return Res("[" + a.v + "," + b.v + "," + d.v + "]"); }
static Res gsFp12(Cur& c) { if (!c.ch('[')) return Res(); Res a = gsFp6(c); if (!a.ok || !c.ch(',')) return Res(); Res b = gsFp6(c); if (!b.ok || !c.ch(']')) return Res(); return Res("[" + a.v + "," + b.v + "]"); }
static Res gFp2(const std::string& s) { Cur c(s); Res r = gsFp2(c); if (!r.ok) return r; c.ws(); return c.i == s.size() ? r : Res(); }
static bool gF(ref::F& x, const std::string& s) { Res r = gMod(s, pp()); if (r.ok) x = ref::Fz(mpz_class(r.v)); return r.ok; }
static bool gF(ref::F2& x, const std::string& s)
{
	Res r = gFp2(s); if (!r.ok) return false; size_t k = r.v.find(','); x = ref::mk2(ref::Fz(mpz_class(r.v.substr(1, k - 1))), ref::Fz(mpz_class(r.v.substr(k + 1, r.v.size() - k - 2)))); return true;
}
template<class T> static Res gsEc(Cur& c)
{
	c.ws(); std::string t; while (c.i < c.s.size() && !isspace((unsigned char)c.s[c.i])) t += c.s[c.i++];
	if (t == "0") return Res("inf");
	size_t k = t.find('_'); if (k == std::string::npos) return Res();
	ref::Pt<typename Grp<T>::R> p; p.inf = false; if (!gF(p.x, t.substr(0, k)) || !gF(p.y, t.substr(k + 1))) return Res();
	return Grp<T>::on(p) ? Res(mt(p)) : Res();
}
// the implementation
struct Got { bool ok; std::string v; size_t pos; };
template<class T> static Got iStream(const std::string& s)
{
	Got g; g.ok = false; g.pos = 0; std::istringstream is(s); T x; garbage(x);
	try { is >> x; if (!is.fail()) { g.ok = true; g.v = mt(x); is.clear(); g.pos = (size_t)is.tellg(); } } catch (const std::exception&) {}
	return g;
}
template<class T> static Got iSet(const std::string& s, int base = 0) { Got g; g.ok = false; g.pos = 0; T x; garbage(x); try { x.set(s, base); g.ok = true; g.v = mt(x); } catch (const std::exception&) {} return g; }
template<class T> static Got iSet1(const std::string& s) { Got g; g.ok = false; g.pos = 0; T x; garbage(x); try { x.set(s); g.ok = true; g.v = mt(x); } catch (const std::exception&) {} return g; }
template<class T> static Got iCtor(const std::string& s) { Got g; g.ok = false; g.pos = 0; try { T x(s); g.ok = true; g.v = mt(x); } catch (const std::exception&) {} return g; }
static void cmpRes(const char *what, const std::string& s, const Got& g, const Res& r, size_t pos = (size_t)-1)
{
	mc::step(); mc::outcome(r.ok ? "accepted" : "refused");
	if (g.ok != r.ok) mc::fail(std::string(what) + " " + quote(s) + (g.ok ? ": read as " + g.v + " although it is no such text" : ": refused although it means " + r.v));
	if (g.ok && g.v != r.v) mc::fail(std::string(what) + " " + quote(s) + ": read as " + g.v + " instead of " + r.v);
	if (g.ok && pos != (size_t)-1 && g.pos != pos) mc::fail(std::string(what) + " " + quote(s) + ": the stream is left at " + std::to_string(g.pos) + " instead of " + std::to_string(pos));
}
enum { K_VU = 1, K_VS = 2, K_FP = 4, K_ZM = 8, K_F2 = 16, K_F6 = 32, K_F12 = 64, K_E1 = 128, K_E2 = 256 };
static void tryAll(const std::string& s, int kinds)
{
	if (mc::ctx().onlySet) mc::what(quote(s)); else { size_t n = std::min<size_t>(s.size(), 60); memcpy(mc::ctx().sh->what, s.data(), n); mc::ctx().sh->what[n] = 0; }
	if (kinds & K_VU) {
		static const int bs[] = { 0, 10, 16, 2, 8 };
		for (int i = 0; i < 5; i++) { cmpRes(i == 0 ? "Vuint::set" : i == 1 ? "Vuint::set base 10" : i == 2 ? "Vuint::set base 16" : "Vuint::set with an unsupported base", s, iSet<Vuint>(s, bs[i]), gVuint(s, bs[i])); }
		cmpRes("Vuint(text)", s, iCtor<Vuint>(s), gVuint(s)); { Cur c(s); Res r = gsVuint(c); cmpRes(">> Vuint", s, iStream<Vuint>(s), r, c.i); }
	}
	if (kinds & K_VS) { for (int b = 0; b <= 16; b += b ? 6 : 10) cmpRes("Vsint::set", s, iSet<Vsint>(s, b), gVsint(s, b)); cmpRes("Vsint(text)", s, iCtor<Vsint>(s), gVsint(s)); Cur c(s); Res r = gsVsint(c); cmpRes(">> Vsint", s, iStream<Vsint>(s), r, c.i); }
	if (kinds & K_FP) { cmpRes("Fp::set", s, iSet1<Fp>(s), gMod(s, pp())); cmpRes("Fp(text)", s, iCtor<Fp>(s), gMod(s, pp())); Cur c(s); Res r = gsFp(c); cmpRes(">> Fp", s, iStream<Fp>(s), r, c.i); }
	if (kinds & K_ZM) { cmpRes("ZmZ::set", s, iSet1<Zm>(s), gMod(s, zmMod())); cmpRes("ZmZ(text)", s, iCtor<Zm>(s), gMod(s, zmMod())); }
	if (kinds & K_F2) { cmpRes("Fp2::set", s, iSet1<Fp2>(s), gFp2(s)); Cur c(s); Res r = gsFp2(c); cmpRes(">> Fp2", s, iStream<Fp2>(s), r, c.i); }
	if (kinds & K_F6) { Cur c(s); Res r = gsFp6(c); cmpRes(">> Fp6", s, iStream<Fp6>(s), r, c.i); }
	if (kinds & K_F12) { Cur c(s); Res r = gsFp12(c); cmpRes(">> Fp12", s, iStream<Fp12>(s), r, c.i); }
	if (kinds & K_E1) { Cur c(s); Res r = gsEc<Fp>(c); cmpRes(">> Ec1", s, iStream<Ec1>(s), r, c.i); }
	if (kinds & K_E2) { Cur c(s); Res r = gsEc<Fp2>(c); cmpRes(">> Ec2", s, iStream<Ec2>(s), r, c.i); }
	// the process stays usable: a good text is still read
	static int n = 0; if (++n % 64 == 0) { Got g = iStream<Fp2>("[0x12, 7] "); mc::step(); if (!g.ok || g.v != "[18,7]") mc::fail("after " + quote(s) + " a good text is refused"); }
}
static void allStrings(const std::string& alpha, int maxLen, int kinds, const std::string& pre = "", const std::string& post = "")
{
	for (int len = 0; len <= maxLen; len++) {
		std::string s(len, 0); std::vector<int> ix(len, 0);
		for (;;) {
			for (int i = 0; i < len; i++) s[i] = alpha[ix[i]];
			std::string t = pre + s + post;
			if (mc::state(mc::hashStr(t, kinds))) { tryAll(t, kinds); mc::trace(); }
			int j = 0; while (j < len && ++ix[j] == (int)alpha.size()) ix[j++] = 0; if (j == len) break;
		}
	}
}
static void corrupt(const std::string& t, int kinds, const std::string& repl, bool two)
{
	std::vector<std::string> v; v.push_back(t);
	for (size_t i = 0; i <= t.size(); i++) {
		if (i < t.size()) { v.push_back(t.substr(0, i)); v.push_back(t.substr(i)); v.push_back(t.substr(0, i) + t.substr(i + 1)); v.push_back(t.substr(0, i + 1) + t.substr(i)); if (i + 1 < t.size()) { std::string s = t; std::swap(s[i], s[i + 1]); v.push_back(s); } }
		for (size_t k = 0; k < repl.size(); k++) { v.push_back(t.substr(0, i) + repl[k] + t.substr(i)); if (i < t.size()) { std::string s = t; s[i] = repl[k]; v.push_back(s); } }
	}
	if (two) for (size_t i = 0; i < t.size(); i++) for (size_t j = i + 1; j < t.size(); j++) { v.push_back(t.substr(0, i) + t.substr(j)); std::string s = t; std::swap(s[i], s[j]); v.push_back(s); s = t; s.erase(j, 1); s.erase(i, 1); v.push_back(s); }
	for (size_t i = 0; i < v.size(); i++) { if (!mc::state(mc::hashStr(v[i], kinds))) continue; tryAll(v[i], kinds); mc::trace(); if (mc::wantSample() && i % 91 == 7) mc::sample(quote(v[i])); }
}
// coordinates next to points: every single-bit change of the stored words, and small grids
template<class T> static T bit(const T& x, int b);
template<> Fp bit(const Fp& x, int b) { Fp y = x; y[b / 64] ^= 1ULL << (b % 64); return y; }
template<> Fp2 bit(const Fp2& x, int b) { Fp2 y = x; if (b < 256) y.a_ = bit(x.a_, b); else y.b_ = bit(x.b_, b - 256); return y; }
template<class T> static void verifyCoords(const T& x, const T& y, const T& z, const std::string& w)
{
	typedef typename Grp<T>::E E; typedef typename Grp<T>::R R;
	T c[3] = { x, y, z }; ref::Pt<R> p = Apt(c); bool on = p.inf || Grp<T>::on(p); mc::step(3); mc::outcome(on ? "on the curve" : "off the curve");
	bool r1 = false, r2 = false; E a, b; 
	try { a.set(x, y, z); r1 = true; } catch (const std::exception&) {} try { E e(x, y, z); b = e; r2 = true; } catch (const std::exception&) {}
	if (r1 != on || r2 != on) mc::fail(w + " " + show(c) + (on ? ": refused although on the curve" : ": accepted although not on the curve"));
	if (on && (!(A(a) == p) || !(A(b) == p))) mc::fail(w + " " + show(c) + ": another point");
	E d; d.set(x, y, z, false); if (!(A(d) == p) || d.isValid() != on) mc::fail(w + " " + show(c) + ": isValid or unverified set");
	if (A(z) == fint(A(z), 1)) {
		bool r3 = false, r4 = false; try { a.set(x, y); r3 = true; } catch (const std::exception&) {} try { E e(x, y); b = e; r4 = true; } catch (const std::exception&) {} mc::step(2);
		if (r3 != on || r4 != on) mc::fail(w + " " + show(c) + (on ? ": (x, y) refused although on the curve" : ": (x, y) accepted although not on the curve"));
		if (on && (!(A(a) == p) || !(A(b) == p))) mc::fail(w + " " + show(c) + ": (x, y) is another point");
	}
	{ E g; g.set(mk<T>(Grp<T>::gen().x), mk<T>(Grp<T>::gen().y)); if (!g.isValid()) mc::fail(w + ": a good point is refused afterwards"); }
}
template<class T> static void pointDomain()
{
	typedef typename Grp<T>::R R; typedef ref::Pt<R> P;
	std::string nm = Grp<T>::name(); int bits = sizeof(T) * 8;
	mc::domain(nm + " coordinates", [=]() {
		std::vector<P> ps; P g = Grp<T>::gen(); ps.push_back(g); ps.push_back(ref::add(g, g)); ps.push_back(Grp<T>::other(1)); ps.push_back(ref::infPt<R>());
		for (size_t i = 0; i < ps.size(); i++) {
			std::vector<Rep<T> > r = reps<T>(ps[i], TH() ? 6 : 4);
			for (size_t k = 0; k < r.size(); k++) {
				if (mc::state(mc::mix(mc::mix(1, i), k))) { verifyCoords<T>(r[k].c[0], r[k].c[1], r[k].c[2], nm); mc::trace(); }
				for (int q = 0; q < 3; q++) for (int b = 0; b < bits; b++) {
					T c[3] = { r[k].c[0], r[k].c[1], r[k].c[2] }; c[q] = bit(c[q], b); if (!canon(c[q])) continue;
					if (!mc::state(mc::mix(mc::mix(mc::mix(mc::mix(2, i), k), q), b))) continue; mc::what(nm + " one bit off"); verifyCoords<T>(c[0], c[1], c[2], nm + " one bit changed"); mc::trace();
				}
			}
		}
		int n = TH() ? 12 : 7;
		for (int x = -n; x <= n; x++) for (int y = -n; y <= n; y++) for (int z = 0; z <= 3; z++) { if (!mc::state(mc::mix(mc::mix(mc::mix(3, x), y), z))) continue; mc::what(nm + " small coordinates"); R X = fint(zeroOf(g.x), x), Y = fint(zeroOf(g.y), y), Zc = fint(zeroOf(g.x), z); verifyCoords<T>(mk<T>(X), mk<T>(Y), mk<T>(Zc), nm + " small coordinates"); mc::trace(); }
	});
}
// points of the other group order / other curve constants must be refused as well
static void foreign()
{
	for (int b = -12; b <= 90; b++) for (int x = 0; x < 12; x++) {
		if (!mc::state(mc::mix(b + 100, x))) continue; ref::F X = ref::Fi(x), w = X * X * X + ref::Fi(b), y = ref::pow(w, (pp() + 1) / 4); if (y * y != w) continue; mc::what("curve with another constant"); verifyCoords<Fp>(mk<Fp>(X), mk<Fp>(y), mk<Fp>(ref::Fi(1)), "curve with constant " + std::to_string(b)); mc::trace();
	}
	for (int a = -4; a <= 10; a++) for (int b = -4; b <= 10; b++) for (int x = 0; x < 4; x++) {
		if (!mc::state(mc::mix(mc::mix(a + 1000, b), x))) continue; ref::F2 X = ref::F2i(x, 1), w = X * X * X + ref::F2i(ref::curve().b) * (a || b ? ref::inv(ref::F2i(a, b)) : ref::F2i(0)), y; if (!sqrtF2(y, w)) continue; mc::what("another twist"); verifyCoords<Fp2>(mk<Fp2>(X), mk<Fp2>(y), mk<Fp2>(ref::F2i(1)), "another twist"); mc::trace();
	}
}
static void c15()
{
	static const std::string NUM = std::string("019afFgxX-+ _.,") + '\0';
	mc::domain("short strings/integers", []() { allStrings(NUM, TH() ? 6 : 5, K_VU | K_VS); });
	mc::domain("short strings/residues", []() { allStrings(NUM, TH() ? 5 : 4, K_FP | K_ZM); });
	mc::domain("short strings/Fp2", []() { allStrings("[],01xa -", TH() ? 7 : 6, K_F2); });
	mc::domain("short strings/points", []() { allStrings("0129_xa -", TH() ? 7 : 6, K_E1 | K_E2); });
	mc::domain("holes/integers", []() { std::string big = dec(P2_(576) - 1), bh = hex0(P2_(576) - 1); int n = TH() ? 4 : 3; allStrings(NUM, n, K_VU | K_VS | K_FP | K_ZM, "0x", ""); allStrings(NUM, n, K_VU | K_VS | K_FP, "-", ""); allStrings(NUM, n, K_VU | K_VS, "-0x", ""); allStrings(NUM, n, K_VU | K_FP, "1", "1"); allStrings(NUM, n, K_VU | K_VS | K_FP | K_ZM, "0x", "1"); allStrings(NUM, n, K_VU | K_VS | K_FP | K_ZM, big.substr(0, big.size() - 1), ""); allStrings(NUM, n, K_VU | K_VS | K_FP | K_ZM, bh.substr(0, bh.size() - 1), ""); allStrings(NUM, n, K_VU | K_VS, bh, ""); allStrings(NUM, n, K_VU | K_FP, " ", " "); });
	mc::domain("holes/Fp2", []() { int n = TH() ? 4 : 3; std::string a = "[],01x -"; allStrings(a, n, K_F2, "[", ",1]"); allStrings(a, n, K_F2, "[1", "2]"); allStrings(a, n, K_F2, "[1,", "]"); allStrings(a, n, K_F2, "", "[1,2]"); allStrings(a, n, K_F2, "[1,2", ""); allStrings(a, n, K_F2, "[0x1,2]", ""); });
	mc::domain("holes/towers", []() { int n = TH() ? 4 : 3; std::string a = "[],01x \n"; std::string e = "[1,2]", f = "[" + e + "," + e + "," + e + "]"; allStrings(a, n, K_F6, "", "[[1,2],[3,4],[5,6]]"); allStrings(a, n, K_F6, "[", ",[3,4],[5,6]]"); allStrings(a, n, K_F6, "[[1,2]", "[3,4],[5,6]]"); allStrings(a, n, K_F6, "[[1,2],[3,4]", ""); allStrings(a, n, K_F6, "[[1,2],[3,4],[5,6]", ""); allStrings(a, n, K_F12, "[" + f, f + "]"); allStrings(a, n, K_F12, "[" + f + "," + f, ""); allStrings(a, n, K_F12, "", f + "," + f + "]"); allStrings(a, n, K_F12, "[" + f + ",", "]"); });
	mc::domain("holes/points", []() { int n = TH() ? 4 : 3; std::string a = "0129_x[], -a"; std::string t1 = nt(gen1(), 16), t2 = nt(gen2(), 16); size_t k1 = t1.find('_'), k2 = t2.find('_'); allStrings(a, n, K_E1, t1.substr(0, k1), t1.substr(k1 + 1)); allStrings(a, n, K_E1, t1, ""); allStrings(a, n, K_E1, "", t1); allStrings(a, n, K_E1, t1.substr(0, k1 + 1), ""); allStrings(a, n, K_E1, "", t1.substr(k1)); allStrings(a, n, K_E2, t2.substr(0, k2), t2.substr(k2 + 1)); allStrings(a, n, K_E2, t2, ""); allStrings(a, n, K_E2, "", t2); allStrings(a, n, K_E2, t2.substr(0, k2 + 1), ""); allStrings(a, n, K_E2, "", t2.substr(k2)); });
	const std::string R = std::string("019afAFgxX-+ _.,[]\n") + '\0';
	mc::domain("corruptions/integers", [=]() { static const char *t[] = { "0", "10", "0x0", "0xff", "-1", "-0x10", "123456789012345678901234567890", "0x123456789abcdef0123456789abcdef0" }; for (int i = 0; i < 8; i++) corrupt(t[i], K_VU | K_VS | K_FP | K_ZM, R, true); corrupt(dec(P2_(576) - 1), K_VU | K_VS | K_FP | K_ZM, R, false); corrupt(hex0(P2_(576) - 1), K_VU | K_VS | K_FP | K_ZM, R, false); corrupt(dec(pp()), K_FP | K_VU, R, false); corrupt(hex0(pp() - 1), K_FP | K_VU, R, TH()); });
	mc::domain("corruptions/Fp2", [=]() { corrupt("[1,2]", K_F2, R, true); corrupt(" [ 0x1f , 10 ] ", K_F2, R, true); std::vector<ref::F2> v = f2s(); for (size_t i = 0; i < v.size(); i += 7) { corrupt(nt(v[i], 10), K_F2, R, false); corrupt(nt(v[i], 16), K_F2, R, false); } });
	mc::domain("corruptions/Fp6", [=]() { corrupt("[[1,2],[3,4],[5,6]]", K_F6, R, true); std::vector<ref::F6> v = f6s(); for (size_t i = 5; i < v.size(); i += TH() ? 61 : 191) corrupt(nt(v[i], i % 2 ? 10 : 16), K_F6, R, false); });
	mc::domain("corruptions/Fp12", [=]() { corrupt("[[[1,2],[3,4],[5,6]],[[7,8],[9,0],[0x1,0xa]]]", K_F12, R, TH()); std::vector<ref::F12> v = f12s(); for (size_t i = 5; i < v.size(); i += TH() ? 101 : 301) corrupt(nt(v[i], i % 2 ? 10 : 16), K_F12, R, false); });
	mc::domain("corruptions/G1", [=]() { std::vector<P1> v; v.push_back(gen1()); v.push_back(hash1(1)); v.push_back(ref::add(gen1(), gen1())); v.push_back(hash1(0)); v.push_back(ref::infPt<ref::F>()); for (size_t i = 0; i < v.size(); i++) { corrupt(nt(v[i], 16), K_E1, R, TH()); if (!v[i].inf) corrupt(nt(v[i].x, 10) + "_" + nt(v[i].y, 10), K_E1, R, false); } });
	mc::domain("corruptions/G2", [=]() { std::vector<P2> v; v.push_back(gen2()); v.push_back(twistPt(0)); v.push_back(ref::infPt<ref::F2>()); for (size_t i = 0; i < v.size(); i++) { corrupt(nt(v[i], 16), K_E2, R, false); if (!v[i].inf) corrupt(nt(v[i].x, 10) + "_" + nt(v[i].y, 10), K_E2, R, false); } });
	pointDomain<Fp>(); pointDomain<Fp2>();
	mc::domain("foreign curves", foreign);
}

int main(int argc, char **argv)
{
	lib::init(argc, argv);
	Zm::setModulo(V(zmMod()));
	std::string prop = mc::arg(argc, argv, "--prop", "C14");
	if (prop == "C14") c14(); else if (prop == "C15") c15(); else return 3;
	return mc::runAll();
}
