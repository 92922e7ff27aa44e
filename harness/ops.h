#pragma once
/*
	Operation tables: every arithmetic operation of the library, paired with its
	meaning in the reference model and the aliasing the interface allows.
*/
#include "lib.h"

namespace ops {
using namespace lib;
using lib::Fp; using lib::FpDbl; using lib::Fp2; using lib::Fp2Dbl; using lib::Fp6; using lib::Fp6Dbl; using lib::Fp12; using lib::Fp12Dbl; using lib::Ec1; using lib::Ec2; using lib::Param; using lib::Compress; using lib::Vuint; using lib::Vsint; using lib::Unit;

enum Ty { TF, TF2, TF6, TF12, TD, TD2, TD6, TD12, TNONE };
template<int T> struct L; template<int T> struct R;
template<> struct L<TF> { typedef Fp type; };       template<> struct R<TF> { typedef ref::F type; };
template<> struct L<TF2> { typedef Fp2 type; };     template<> struct R<TF2> { typedef ref::F2 type; };
template<> struct L<TF6> { typedef Fp6 type; };     template<> struct R<TF6> { typedef ref::F6 type; };
template<> struct L<TF12> { typedef Fp12 type; };   template<> struct R<TF12> { typedef ref::F12 type; };
template<> struct L<TD> { typedef FpDbl type; };    template<> struct R<TD> { typedef ref::F type; };
template<> struct L<TD2> { typedef Fp2Dbl type; };  template<> struct R<TD2> { typedef ref::F2 type; };
template<> struct L<TD6> { typedef Fp6Dbl type; };  template<> struct R<TD6> { typedef ref::F6 type; };
template<> struct L<TD12> { typedef Fp12Dbl type; }; template<> struct R<TD12> { typedef ref::F12 type; };
template<> struct L<TNONE> { typedef char type; };  template<> struct R<TNONE> { typedef char type; };

static const int ncoef[] = { 1, 2, 6, 12, 1, 2, 6, 12, 0 };
static const int ncoefLimbs[] = { 4, 4, 4, 4, 8, 8, 8, 8, 0 };
inline size_t bytes(int t) { return size_t(ncoef[t]) * ncoefLimbs[t] * 8; }
inline bool isDbl(int t) { return TD <= t && t <= TD12; }
static const char *tyName[] = { "Fp", "Fp2", "Fp6", "Fp12", "FpDbl", "Fp2Dbl", "Fp6Dbl", "Fp12Dbl", "-" };

inline const ref::F& rinv2() { static mpz_class lp; static ref::F r; if (lp != ref::curve().p) { lp = ref::curve().p; r = ref::mod().rinv * ref::mod().rinv; } return r; }
inline const mp_limb_t *pN() { static mpz_class lp; static mp_limb_t v[8]; if (lp != ref::curve().p) { lp = ref::curve().p; memset(v, 0, 32); memcpy(v + 4, ref::mod().p, 32); } return v; }
// abstract an object of type t (given as limbs) to n field elements
inline void abstr(int t, const void *obj, void *out)
{
	const mp_limb_t *p = (const mp_limb_t*)obj; ref::F *o = (ref::F*)out;
	for (int i = 0; i < ncoef[t]; i++) {
		if (isDbl(t)) { o[i] = ref::reduce(p, 8) * rinv2(); p += 8; }
		else { ref::F r; memcpy(r.v, p, 32); o[i] = r * ref::mod().rinv; p += 4; }
	}
}
// every coefficient in its canonical range: [0,p) or [0,pN)
inline bool inRange(int t, const void *obj)
{
	const mp_limb_t *p = (const mp_limb_t*)obj;
	for (int i = 0; i < ncoef[t]; i++) {
		if (isDbl(t)) { if (mpn_cmp(p, pN(), 8) >= 0) return false; p += 8; }
		else { if (mpn_cmp(p, ref::mod().p, 4) >= 0) return false; p += 4; }
	}
	return true;
}
inline std::string show(int t, const void *obj)
{
	const mp_limb_t *p = (const mp_limb_t*)obj; std::string s = tyName[t]; s += "{";
	for (int i = 0; i < ncoef[t]; i++) { if (i) s += ","; s += "0x" + ref::toMpz(p, ncoefLimbs[t]).get_str(16); p += ncoefLimbs[t]; }
	return s + "}";
}

enum { ZX = 1, ZY = 2, XY = 4, ZXY = 8, ALL = 15, NOALIAS = 0, UN = ZX, INOUT = 16, XYONLY = XY, PRE_NZX = 32, PRE_NZY = 64, PRE_UNIT = 128, EXACT = 256, CONGR = 512 };
typedef void (*RunFn)(void*, const void*, const void*);
typedef void (*ModelFn)(void*, const void*, const void*);
struct Op { std::string name; int tz, tx, ty; int flags; RunFn run; ModelFn model; };

#define OPDEF(V, NAME, TZ, TX, TY, FLAGS, LIBCODE, REFCODE) { Op o_; o_.name = NAME; o_.tz = TZ; o_.tx = TX; o_.ty = TY; o_.flags = FLAGS; \
	o_.run = [](void *z_, const void *x_, const void *y_) { L<TZ>::type& z = *(L<TZ>::type*)z_; const L<TX>::type& x = *(const L<TX>::type*)x_; const L<TY>::type& y = *(const L<TY>::type*)y_; (void)z; (void)x; (void)y; LIBCODE; }; \
	o_.model = [](void *z_, const void *x_, const void *y_) { R<TZ>::type& z = *(R<TZ>::type*)z_; const R<TX>::type& x = *(const R<TX>::type*)x_; const R<TY>::type& y = *(const R<TY>::type*)y_; (void)z; (void)x; (void)y; REFCODE; }; \
	V.push_back(o_); }

inline ref::F half() { return ref::inv(ref::Fi(2)); }
inline ref::F quarter() { return ref::inv(ref::Fi(4)); }
inline ref::F cHalf() { static mpz_class lp; static ref::F r; if (lp != ref::curve().p) { lp = ref::curve().p; r = half(); } return r; }
inline ref::F cQuarter() { static mpz_class lp; static ref::F r; if (lp != ref::curve().p) { lp = ref::curve().p; r = quarter(); } return r; }

inline void fpOps(std::vector<Op>& v)
{
	OPDEF(v, "Fp::add", TF, TF, TF, ALL, Fp::add(z, x, y), z = x + y)
	OPDEF(v, "Fp::sub", TF, TF, TF, ALL, Fp::sub(z, x, y), z = x - y)
	OPDEF(v, "Fp::mul", TF, TF, TF, ALL, Fp::mul(z, x, y), z = x * y)
	OPDEF(v, "Fp::neg", TF, TF, TNONE, UN, Fp::neg(z, x), z = -x)
	OPDEF(v, "Fp::square", TF, TF, TNONE, UN, Fp::square(z, x), z = x * x)
	OPDEF(v, "Fp::divBy2", TF, TF, TNONE, UN, Fp::divBy2(z, x), z = x * cHalf())
	OPDEF(v, "Fp::divBy4", TF, TF, TNONE, UN, Fp::divBy4(z, x), z = x * cQuarter())
	OPDEF(v, "Fp operator+", TF, TF, TF, ALL, z = x + y, z = x + y)
	OPDEF(v, "Fp operator-", TF, TF, TF, ALL, z = x - y, z = x - y)
	OPDEF(v, "Fp operator*", TF, TF, TF, ALL, z = x * y, z = x * y)
	OPDEF(v, "Fp unary-", TF, TF, TNONE, UN, z = -x, z = -x)
	OPDEF(v, "Fp +=", TF, TF, TNONE, INOUT | ZX, z += x, z = z + x)
	OPDEF(v, "Fp -=", TF, TF, TNONE, INOUT | ZX, z -= x, z = z - x)
	OPDEF(v, "Fp *=", TF, TF, TNONE, INOUT | ZX, z *= x, z = z * x)
	OPDEF(v, "Fp copy", TF, TF, TNONE, UN, z = x, z = x)
}
inline void fpInvOps(std::vector<Op>& v)
{
	OPDEF(v, "Fp::inv", TF, TF, TNONE, UN | PRE_NZX, Fp::inv(z, x), z = ref::inv(x))
	OPDEF(v, "Fp inverse()", TF, TF, TNONE, UN | PRE_NZX, z = x; z.inverse(), z = ref::inv(x))
	OPDEF(v, "Fp operator/", TF, TF, TF, ALL | PRE_NZY, z = x / y, z = x * ref::inv(y))
	OPDEF(v, "Fp /=", TF, TF, TNONE, INOUT | ZX | PRE_NZX, z /= x, z = z * ref::inv(x))
}
inline void fp2InvOps(std::vector<Op>& v) { OPDEF(v, "Fp2 inverse()", TF2, TF2, TNONE, UN | PRE_NZX, z = x; z.inverse(), z = ref::inv(x)) }
inline void fp6InvOps(std::vector<Op>& v) { OPDEF(v, "Fp6 inverse()", TF6, TF6, TNONE, UN | PRE_NZX, z = x; z.inverse(), z = ref::inv(x)) }
inline void fp12InvOps(std::vector<Op>& v) { OPDEF(v, "Fp12 inverse()", TF12, TF12, TNONE, UN | PRE_NZX, z = x; z.inverse(), z = ref::inv(x)) }
inline void dblOps(std::vector<Op>& v)
{
	OPDEF(v, "FpDbl::add", TD, TD, TD, ALL, FpDbl::add(z, x, y), z = x + y)
	OPDEF(v, "FpDbl::sub", TD, TD, TD, ALL, FpDbl::sub(z, x, y), z = x - y)
	OPDEF(v, "FpDbl::neg", TD, TD, TNONE, UN, FpDbl::neg(z, x), z = -x)
	OPDEF(v, "FpDbl::mul", TD, TF, TF, XY, FpDbl::mul(z, x, y), z = x * y)
	OPDEF(v, "FpDbl::mod", TF, TD, TNONE, NOALIAS, FpDbl::mod(z, x), z = x)
	OPDEF(v, "FpDbl operator+", TD, TD, TD, ALL, z = x + y, z = x + y)
	OPDEF(v, "FpDbl operator-", TD, TD, TD, ALL, z = x - y, z = x - y)
	OPDEF(v, "FpDbl unary-", TD, TD, TNONE, UN, z = -x, z = -x)
	OPDEF(v, "FpDbl +=", TD, TD, TNONE, INOUT | ZX, z += x, z = z + x)
	OPDEF(v, "FpDbl -=", TD, TD, TNONE, INOUT | ZX, z -= x, z = z - x)
}
// the portable versions, which the function pointers refer to until the first initialisation
namespace portable_ {
typedef void (*FpBin)(Fp&, const Fp&, const Fp&);
static FpBin const add = Fp::add, sub = Fp::sub, mul = Fp::mul, addNC = Fp::addNC, subNC = Fp::subNC;
static void (*const neg)(Fp&, const Fp&) = Fp::neg;
static FpDbl::bin_op *const dadd = FpDbl::add, *const dsub = FpDbl::sub, *const daddNC = FpDbl::addNC, *const dsubNC = FpDbl::subNC;
static FpDbl::uni_op *const dneg = FpDbl::neg;
static void (*const dmul)(FpDbl&, const Fp&, const Fp&) = FpDbl::mul;
static void (*const dmod)(Fp&, const FpDbl&) = FpDbl::mod;
}
inline void fpPortOps(std::vector<Op>& v)
{
	OPDEF(v, "portable Fp::add", TF, TF, TF, ALL, portable_::add(z, x, y), z = x + y)
	OPDEF(v, "portable Fp::sub", TF, TF, TF, ALL, portable_::sub(z, x, y), z = x - y)
	OPDEF(v, "portable Fp::mul", TF, TF, TF, ALL, portable_::mul(z, x, y), z = x * y)
	OPDEF(v, "portable Fp::neg", TF, TF, TNONE, UN, portable_::neg(z, x), z = -x)
}
inline void dblPortOps(std::vector<Op>& v)
{
	OPDEF(v, "portable FpDbl::add", TD, TD, TD, ALL, portable_::dadd(z, x, y), z = x + y)
	OPDEF(v, "portable FpDbl::sub", TD, TD, TD, ALL, portable_::dsub(z, x, y), z = x - y)
	OPDEF(v, "portable FpDbl::neg", TD, TD, TNONE, UN, portable_::dneg(z, x), z = -x)
	OPDEF(v, "portable FpDbl::mul", TD, TF, TF, XY, portable_::dmul(z, x, y), z = x * y)
	OPDEF(v, "portable FpDbl::mod", TF, TD, TNONE, NOALIAS, portable_::dmod(z, x), z = x)
}
inline void fp2Ops(std::vector<Op>& v)
{
	OPDEF(v, "Fp2::add", TF2, TF2, TF2, ALL, Fp2::add(z, x, y), z = x + y)
	OPDEF(v, "Fp2::sub", TF2, TF2, TF2, ALL, Fp2::sub(z, x, y), z = x - y)
	OPDEF(v, "Fp2::mul", TF2, TF2, TF2, ALL, Fp2::mul(z, x, y), z = x * y)
	OPDEF(v, "Fp2::neg", TF2, TF2, TNONE, UN, Fp2::neg(z, x), z = -x)
	OPDEF(v, "Fp2::square", TF2, TF2, TNONE, UN, Fp2::square(z, x), z = x * x)
	OPDEF(v, "Fp2::mul_xi", TF2, TF2, TNONE, NOALIAS, Fp2::mul_xi(z, x), z = x * ref::xi())
	OPDEF(v, "Fp2::mul_Fp_0", TF2, TF2, TF, ZX, Fp2::mul_Fp_0(z, x, y), z = x * y)
	OPDEF(v, "Fp2::mul_Fp_1", TF2, TF, TNONE, INOUT, Fp2::mul_Fp_1(z, x), z = z * ref::mk2(ref::Fi(0), x))
	OPDEF(v, "Fp2::mul_x", TF2, TF2, TNONE, UN, z = x; z.mul_x(), z = x * ref::F2i(0, 1))
	OPDEF(v, "Fp2::divBy2", TF2, TF2, TNONE, UN, Fp2::divBy2(z, x), z = x * cHalf())
	OPDEF(v, "Fp2::divBy4", TF2, TF2, TNONE, UN, Fp2::divBy4(z, x), z = x * cQuarter())
	OPDEF(v, "Fp2 operator+", TF2, TF2, TF2, ALL, z = x + y, z = x + y)
	OPDEF(v, "Fp2 operator-", TF2, TF2, TF2, ALL, z = x - y, z = x - y)
	OPDEF(v, "Fp2 operator*", TF2, TF2, TF2, ALL, z = x * y, z = x * y)
	OPDEF(v, "Fp2 unary-", TF2, TF2, TNONE, UN, z = -x, z = -x)
	OPDEF(v, "Fp2 +=", TF2, TF2, TNONE, INOUT | ZX, z += x, z = z + x)
	OPDEF(v, "Fp2 -=", TF2, TF2, TNONE, INOUT | ZX, z -= x, z = z - x)
	OPDEF(v, "Fp2 *=", TF2, TF2, TNONE, INOUT | ZX, z *= x, z = z * x)
}
inline void dbl2Ops(std::vector<Op>& v)
{
	OPDEF(v, "Fp2Dbl::add", TD2, TD2, TD2, ALL, Fp2Dbl::add(z, x, y), z = x + y)
	OPDEF(v, "Fp2Dbl::sub", TD2, TD2, TD2, ALL, Fp2Dbl::sub(z, x, y), z = x - y)
	OPDEF(v, "Fp2Dbl::neg", TD2, TD2, TNONE, UN, Fp2Dbl::neg(z, x), z = -x)
	OPDEF(v, "Fp2Dbl::mulOpt1", TD2, TF2, TF2, XY, Fp2Dbl::mulOpt1(z, x, y), z = x * y)
	OPDEF(v, "Fp2Dbl::mulOpt2", TD2, TF2, TF2, XY, Fp2Dbl::mulOpt2(z, x, y), z = x * y)
	OPDEF(v, "Fp2Dbl::square", TD2, TF2, TNONE, NOALIAS, Fp2Dbl::square(z, x), z = x * x)
	OPDEF(v, "Fp2Dbl::mod", TF2, TD2, TNONE, NOALIAS, Fp2Dbl::mod(z, x), z = x)
	OPDEF(v, "Fp2Dbl::mul_xi", TD2, TD2, TNONE, NOALIAS, Fp2Dbl::mul_xi(z, x), z = x * ref::xi())
	OPDEF(v, "Fp2Dbl +=", TD2, TD2, TNONE, INOUT | ZX, z += x, z = z + x)
	OPDEF(v, "Fp2Dbl -=", TD2, TD2, TNONE, INOUT | ZX, z -= x, z = z - x)
}
inline void fp6Ops(std::vector<Op>& v)
{
	OPDEF(v, "Fp6::add", TF6, TF6, TF6, ALL, Fp6::add(z, x, y), z = x + y)
	OPDEF(v, "Fp6::sub", TF6, TF6, TF6, ALL, Fp6::sub(z, x, y), z = x - y)
	OPDEF(v, "Fp6::mul", TF6, TF6, TF6, ALL, Fp6::mul(z, x, y), z = x * y)
	OPDEF(v, "Fp6::neg", TF6, TF6, TNONE, UN, Fp6::neg(z, x), z = -x)
	OPDEF(v, "Fp6::square", TF6, TF6, TNONE, NOALIAS, Fp6::square(z, x), z = x * x)
	OPDEF(v, "Fp6::mul_Fp_b", TF6, TF, TNONE, INOUT, Fp6::mul_Fp_b(z, x), z.c[1] = z.c[1] * x)
	OPDEF(v, "Fp6::mul_Fp_c", TF6, TF, TNONE, INOUT, Fp6::mul_Fp_c(z, x), z.c[2] = z.c[2] * x)
	OPDEF(v, "Fp6 operator*", TF6, TF6, TF6, ALL, z = x * y, z = x * y)
	OPDEF(v, "Fp6 +=", TF6, TF6, TNONE, INOUT | ZX, z += x, z = z + x)
	OPDEF(v, "Fp6 -=", TF6, TF6, TNONE, INOUT | ZX, z -= x, z = z - x)
	OPDEF(v, "Fp6 *=", TF6, TF6, TNONE, INOUT | ZX, z *= x, z = z * x)
	OPDEF(v, "Fp6 unary-", TF6, TF6, TNONE, UN, z = -x, z = -x)
}
inline void dbl6Ops(std::vector<Op>& v)
{
	OPDEF(v, "Fp6Dbl::add", TD6, TD6, TD6, ALL, Fp6Dbl::add(z, x, y), z = x + y)
	OPDEF(v, "Fp6Dbl::sub", TD6, TD6, TD6, ALL, Fp6Dbl::sub(z, x, y), z = x - y)
	OPDEF(v, "Fp6Dbl::neg", TD6, TD6, TNONE, UN, Fp6Dbl::neg(z, x), z = -x)
	OPDEF(v, "Fp6Dbl::mul", TD6, TF6, TF6, XY, Fp6Dbl::mul(z, x, y), z = x * y)
	OPDEF(v, "Fp6Dbl::mod", TF6, TD6, TNONE, NOALIAS, Fp6Dbl::mod(z, x), z = x)
}
inline void fp12Ops(std::vector<Op>& v)
{
	OPDEF(v, "Fp12::add", TF12, TF12, TF12, ALL, Fp12::add(z, x, y), z = x + y)
	OPDEF(v, "Fp12::sub", TF12, TF12, TF12, ALL, Fp12::sub(z, x, y), z = x - y)
	OPDEF(v, "Fp12::neg", TF12, TF12, TNONE, UN, Fp12::neg(z, x), z = -x)
	OPDEF(v, "Fp12::mul", TF12, TF12, TF12, ALL, Fp12::mul(z, x, y), z = x * y)
	OPDEF(v, "Fp12::square", TF12, TF12, TNONE, UN, z = x; Fp12::square(z), z = x * x)
	OPDEF(v, "Fp12 operator*", TF12, TF12, TF12, ALL, z = x * y, z = x * y)
	OPDEF(v, "Fp12 +=", TF12, TF12, TNONE, INOUT | ZX, z += x, z = z + x)
	OPDEF(v, "Fp12 -=", TF12, TF12, TNONE, INOUT | ZX, z -= x, z = z - x)
	OPDEF(v, "Fp12 *=", TF12, TF12, TNONE, INOUT | ZX, z *= x, z = z * x)
}
inline ref::F12 sparse(const ref::F6& l) // (l00, l11, l02) -> l00 + l02 v^2 + l11 v w
{
	return ref::mk12(ref::mk6(l.c[0], ref::F2i(0), l.c[2]), ref::mk6(ref::F2i(0), l.c[1], ref::F2i(0)));
}
inline void sparseOps(std::vector<Op>& v)
{
	OPDEF(v, "Fp12Dbl::mul_Fp2_024", TF12, TF6, TNONE, INOUT, Fp12Dbl::mul_Fp2_024(z, x), z = z * sparse(x))
	OPDEF(v, "Fp12Dbl::mul_Fp2_024_Fp2_024", TF12, TF6, TF6, XY, Fp12Dbl::mul_Fp2_024_Fp2_024(z, x, y), z = sparse(x) * sparse(y))
}
inline void frobOps(std::vector<Op>& v)
{
	OPDEF(v, "Fp12::Frobenius", TF12, TF12, TNONE, UN, x.Frobenius(z), z = ref::frob(x, 1))
	OPDEF(v, "Fp12::Frobenius2", TF12, TF12, TNONE, UN, x.Frobenius2(z), z = ref::frob(x, 2))
	OPDEF(v, "Fp12::Frobenius3", TF12, TF12, TNONE, UN, x.Frobenius3(z), z = ref::frob(x, 3))
}
inline void cycloOps(std::vector<Op>& v) // defined on the cyclotomic subgroup only
{
	OPDEF(v, "Fp12::sqru", TF12, TF12, TNONE, UN | PRE_UNIT, z = x; z.sqru(), z = x * x)
	OPDEF(v, "Fp12::sqru(z)", TF12, TF12, TNONE, UN | PRE_UNIT, x.sqru(z), z = x * x)
}

// the template implementations the function pointers start with
inline void fp2COps(std::vector<Op>& v)
{
	OPDEF(v, "Fp2::addC", TF2, TF2, TF2, ALL, Fp2::addC(z, x, y), z = x + y)
	OPDEF(v, "Fp2::subC", TF2, TF2, TF2, ALL, Fp2::subC(z, x, y), z = x - y)
	OPDEF(v, "Fp2::mulC", TF2, TF2, TF2, ALL, Fp2::mulC(z, x, y), z = x * y)
	OPDEF(v, "Fp2::squareC", TF2, TF2, TNONE, UN, Fp2::squareC(z, x), z = x * x)
	OPDEF(v, "Fp2::mul_xiC", TF2, TF2, TNONE, NOALIAS, Fp2::mul_xiC(z, x), z = x * ref::xi())
	OPDEF(v, "Fp2::mul_Fp_0C", TF2, TF2, TF, ZX, Fp2::mul_Fp_0C(z, x, y), z = x * y)
	OPDEF(v, "Fp2::divBy2C", TF2, TF2, TNONE, UN, Fp2::divBy2C(z, x), z = x * cHalf())
}
inline void dbl2COps(std::vector<Op>& v)
{
	OPDEF(v, "Fp2Dbl::addC", TD2, TD2, TD2, ALL, Fp2Dbl::addC(z, x, y), z = x + y)
	OPDEF(v, "Fp2Dbl::subC", TD2, TD2, TD2, ALL, Fp2Dbl::subC(z, x, y), z = x - y)
	OPDEF(v, "Fp2Dbl::negC", TD2, TD2, TNONE, UN, Fp2Dbl::negC(z, x), z = -x)
	OPDEF(v, "Fp2Dbl::mulOpt1C", TD2, TF2, TF2, XY, Fp2Dbl::mulOpt1C(z, x, y), z = x * y)
	OPDEF(v, "Fp2Dbl::mulOpt2C", TD2, TF2, TF2, XY, Fp2Dbl::mulOpt2C(z, x, y), z = x * y)
	OPDEF(v, "Fp2Dbl::squareC", TD2, TF2, TNONE, NOALIAS, Fp2Dbl::squareC(z, x), z = x * x)
	OPDEF(v, "Fp2Dbl::modC", TF2, TD2, TNONE, NOALIAS, Fp2Dbl::modC(z, x), z = x)
	OPDEF(v, "Fp2Dbl::mul_xiC", TD2, TD2, TNONE, NOALIAS, Fp2Dbl::mul_xiC(z, x), z = x * ref::xi())
}
inline void fp6COps(std::vector<Op>& v)
{
	OPDEF(v, "Fp6::addC", TF6, TF6, TF6, ALL, Fp6::addC(z, x, y), z = x + y)
	OPDEF(v, "Fp6::subC", TF6, TF6, TF6, ALL, Fp6::subC(z, x, y), z = x - y)
	OPDEF(v, "Fp6::mulC", TF6, TF6, TF6, ALL, Fp6::mulC(z, x, y), z = x * y)
}
inline void dbl6COps(std::vector<Op>& v)
{
	OPDEF(v, "Fp6Dbl::mulC", TD6, TF6, TF6, XY, Fp6Dbl::mulC(z, x, y), z = x * y)
}
inline void fp12COps(std::vector<Op>& v)
{
	OPDEF(v, "Fp12::mulC", TF12, TF12, TF12, ALL, Fp12::mulC(z, x, y), z = x * y)
	OPDEF(v, "Fp12::squareC", TF12, TF12, TNONE, UN, z = x; Fp12::squareC(z), z = x * x)
	OPDEF(v, "Fp12Dbl::mul_Fp2_024C", TF12, TF6, TNONE, INOUT, Fp12Dbl::mul_Fp2_024C(z, x), z = z * sparse(x))
}
inline void fpFastOps(std::vector<Op>& v)
{
	OPDEF(v, "Fp::_3z_add_2xC" /* used for, and named wrongly: 2z+3x */, TF, TF, TNONE, INOUT | ZX, Fp::_3z_add_2xC(z, x), z = z + z + x + x + x)
	OPDEF(v, "Fp::_2z_add_3x", TF, TF, TNONE, INOUT | ZX, Fp::_2z_add_3x(z, x), z = z + z + x + x + x)
}

// scalar factors that are a component of the element they multiply
inline void compOps(std::vector<Op>& v)
{
	OPDEF(v, "Fp2::mul_Fp_0 by own a", TF2, TF2, TNONE, UN, z = x; Fp2::mul_Fp_0(z, z, z.a_), z = x * x.a)
	OPDEF(v, "Fp2::mul_Fp_0 by own b", TF2, TF2, TNONE, UN, z = x; Fp2::mul_Fp_0(z, z, z.b_), z = x * x.b)
	OPDEF(v, "Fp2::mul_Fp_0 by operand's a", TF2, TF2, TNONE, UN, Fp2::mul_Fp_0(z, x, x.a_), z = x * x.a)
	OPDEF(v, "Fp2::mul_Fp_0 by operand's b", TF2, TF2, TNONE, UN, Fp2::mul_Fp_0(z, x, x.b_), z = x * x.b)
	OPDEF(v, "Fp2::mul_Fp_0 by result's a", TF2, TF2, TNONE, INOUT | ZX, Fp2::mul_Fp_0(z, x, z.a_), z = x * z.a)
	OPDEF(v, "Fp2::mul_Fp_0 by result's b", TF2, TF2, TNONE, INOUT | ZX, Fp2::mul_Fp_0(z, x, z.b_), z = x * z.b)
	OPDEF(v, "Fp2::mul_Fp_0C by own a", TF2, TF2, TNONE, UN, z = x; Fp2::mul_Fp_0C(z, z, z.a_), z = x * x.a)
	OPDEF(v, "Fp2::mul_Fp_0C by own b", TF2, TF2, TNONE, UN, z = x; Fp2::mul_Fp_0C(z, z, z.b_), z = x * x.b)
	OPDEF(v, "Fp2::mul_Fp_0C by result's a", TF2, TF2, TNONE, INOUT | ZX, Fp2::mul_Fp_0C(z, x, z.a_), z = x * z.a)
	OPDEF(v, "Fp2::mul_Fp_0C by result's b", TF2, TF2, TNONE, INOUT | ZX, Fp2::mul_Fp_0C(z, x, z.b_), z = x * z.b)
	OPDEF(v, "Fp2::mul_Fp_1 by own a", TF2, TF2, TNONE, UN, z = x; Fp2::mul_Fp_1(z, z.a_), z = x * ref::mk2(ref::Fi(0), x.a))
	OPDEF(v, "Fp2::mul_Fp_1 by own b", TF2, TF2, TNONE, UN, z = x; Fp2::mul_Fp_1(z, z.b_), z = x * ref::mk2(ref::Fi(0), x.b))
	OPDEF(v, "Fp6::mul_Fp_b by own a.a", TF6, TF6, TNONE, UN, z = x; Fp6::mul_Fp_b(z, z.a_.a_), z = x; z.c[1] = x.c[1] * x.c[0].a)
	OPDEF(v, "Fp6::mul_Fp_b by own b.a", TF6, TF6, TNONE, UN, z = x; Fp6::mul_Fp_b(z, z.b_.a_), z = x; z.c[1] = x.c[1] * x.c[1].a)
	OPDEF(v, "Fp6::mul_Fp_b by own b.b", TF6, TF6, TNONE, UN, z = x; Fp6::mul_Fp_b(z, z.b_.b_), z = x; z.c[1] = x.c[1] * x.c[1].b)
	OPDEF(v, "Fp6::mul_Fp_c by own c.a", TF6, TF6, TNONE, UN, z = x; Fp6::mul_Fp_c(z, z.c_.a_), z = x; z.c[2] = x.c[2] * x.c[2].a)
	OPDEF(v, "Fp6::mul_Fp_c by own c.b", TF6, TF6, TNONE, UN, z = x; Fp6::mul_Fp_c(z, z.c_.b_), z = x; z.c[2] = x.c[2] * x.c[2].b)
	OPDEF(v, "Fp6::mul_Fp_c by own b.a", TF6, TF6, TNONE, UN, z = x; Fp6::mul_Fp_c(z, z.b_.a_), z = x; z.c[2] = x.c[2] * x.c[1].a)
}

// ---- calling convention monitor: callee-saved registers survive the call
extern "C" void mc_call(RunFn fn, void *z, const void *x, const void *y, uint64_t *bad);
asm(".text\n.globl mc_call\n.type mc_call,@function\nmc_call:\n"
	"push %rbx\npush %rbp\npush %r12\npush %r13\npush %r14\npush %r15\npush %r8\n"
	"mov %rdi,%rax\nmov %rsi,%rdi\nmov %rdx,%rsi\nmov %rcx,%rdx\n"
	"movabs $0x1111222233334441,%rbx\nmovabs $0x1111222233334442,%rbp\nmovabs $0x1111222233334443,%r12\n"
	"movabs $0x1111222233334444,%r13\nmovabs $0x1111222233334445,%r14\nmovabs $0x1111222233334446,%r15\n"
	"call *%rax\n"
	"movabs $0x1111222233334441,%rax\nxor %rax,%rbx\nmovabs $0x1111222233334442,%rax\nxor %rax,%rbp\n"
	"movabs $0x1111222233334443,%rax\nxor %rax,%r12\nmovabs $0x1111222233334444,%rax\nxor %rax,%r13\n"
	"movabs $0x1111222233334445,%rax\nxor %rax,%r14\nmovabs $0x1111222233334446,%rax\nxor %rax,%r15\n"
	"or %rbp,%rbx\nor %r12,%rbx\nor %r13,%rbx\nor %r14,%rbx\nor %r15,%rbx\n"
	"pop %r8\nmov %rbx,(%r8)\n"
	"pop %r15\npop %r14\npop %r13\npop %r12\npop %rbp\npop %rbx\nret\n"
	".size mc_call,.-mc_call\n");

struct Arena { // guarded storage for three objects
	enum { SLOT = 1024, G = 128 };
	unsigned char buf[4 * SLOT + 64];
	unsigned char *base;
	Arena() { base = (unsigned char*)((size_t(buf) + 63) & ~size_t(63)); }
	void *slot(int i) { return base + i * SLOT + G; }
};
static const unsigned char GUARD = 0xA5;

/*
	One transition: op under aliasing pattern al (0: distinct, ZX, ZY, XY, ZXY).
	Throws mc::Fail on any deviation.  res (optional) receives the resulting object.
*/
inline void doStep(const Op& op, int al, const void *zin, const void *x, const void *y, void *res = 0)
{
	static Arena *a = new Arena;
	size_t bz = bytes(op.tz), bx = bytes(op.tx), by = bytes(op.ty);
	memset(a->base, GUARD, 3 * Arena::SLOT);
	void *Z = a->slot(0), *X = a->slot(1), *Y = a->slot(2);
	bool inout = (op.flags & INOUT) != 0;
	// aliasing: which slots coincide
	if (al == ZX || al == ZXY) X = Z;
	if (al == ZY) Y = Z;
	if (al == XY) Y = X;
	if (al == ZXY) Y = Z;
	if (inout) memcpy(Z, zin, bz);
	else if (X != Z && Y != Z) memset(Z, 0x5c, bz);
	if (!(inout && X == Z)) memcpy(X, x, bx);
	if (by && !(inout && Y == Z)) memcpy(Y, y, by);
	ref::F rz[12], rx[12], ry[12];
	if (inout) abstr(op.tz, Z, rz);
	abstr(op.tx, X, rx);
	if (by) abstr(op.ty, Y, ry);
	unsigned char xs[1024], ys[1024];
	memcpy(xs, X, bx); if (by) memcpy(ys, Y, by);
	op.model(rz, rx, ry);
	uint64_t bad = 0;
	mc_call(op.run, Z, X, Y, &bad);
	mc::step();
	const char *why = 0;
	if (bad) why = "callee-saved register destroyed";
	else if (X != Z && memcmp(X, xs, bx)) why = "first operand changed";
	else if (by && Y != Z && memcmp(Y, ys, by)) why = "second operand changed";
	else if (!inRange(op.tz, Z)) why = "result not reduced to its range";
	else {
		ref::F got[12]; abstr(op.tz, Z, got);
		if (memcmp(got, rz, sizeof(ref::F) * ncoef[op.tz])) why = "wrong value";
		else { // guards
			size_t used[3] = { bz, X == a->slot(1) ? bx : 0, Y == a->slot(2) ? by : 0 };
			if (X == Z && bx > bz) used[0] = bx;
			for (int s = 0; s < 3 && !why; s++) {
				unsigned char *q = a->base + s * Arena::SLOT;
				for (int i = 0; i < Arena::G && !why; i++) if (q[i] != GUARD || q[Arena::G + used[s] + i] != GUARD) why = "wrote outside the result";
			}
		}
	}
	if (why) {
		static const char *an[] = { "distinct", "z=x", "z=y", "", "x=y", "", "", "", "z=x=y" };
		std::string s = op.name + " (" + an[al] + "): " + why;
		if (inout) s += " zin=" + show(op.tz, (al & ZX) ? x : zin);
		s += " x=" + show(op.tx, xs);
		if (by) s += " y=" + show(op.ty, ys);
		s += " got=" + show(op.tz, Z);
		s += " want(value)=";
		for (int i = 0; i < ncoef[op.tz]; i++) s += (i ? "," : "") + ref::str(rz[i]);
		mc::fail(s);
	}
	if (res) memcpy(res, Z, bz);
}
inline bool isUnit(const ref::F12& x) // in the cyclotomic subgroup
{
	return !x.isZero() && ref::frob(x, 4) * x == ref::frob(x, 2);
}
inline bool pre(const Op& op, const void *x, const void *y)
{
	if (op.flags & PRE_NZX) { const mp_limb_t *p = (const mp_limb_t*)x; mp_limb_t t = 0; for (size_t i = 0; i < bytes(op.tx) / 8; i++) t |= p[i]; if (!t) return false; }
	if (op.flags & PRE_NZY) { const mp_limb_t *p = (const mp_limb_t*)y; mp_limb_t t = 0; for (size_t i = 0; i < bytes(op.ty) / 8; i++) t |= p[i]; if (!t) return false; }
	return true;
}
// all allowed aliasing patterns consistent with the operand types, for given operand objects
inline void stepAll(const Op& op, const void *zin, const void *x, const void *y, bool sameXY)
{
	if (!pre(op, x, y)) return;
	bool bin = op.ty != TNONE, inout = (op.flags & INOUT) != 0;
	doStep(op, 0, zin, x, y);
	if (op.flags & ZX) { if (inout) { if (memcmp(zin, x, bytes(op.tx)) == 0) doStep(op, ZX, zin, x, y); } else doStep(op, ZX, zin, x, y); }
	if (bin && (op.flags & ZY)) doStep(op, ZY, zin, x, y);
	if (bin && sameXY && (op.flags & XY)) doStep(op, XY, zin, x, y);
	if (bin && sameXY && (op.flags & ZXY)) doStep(op, ZXY, zin, x, y);
}

// ---- alphabets -----------------------------------------------------------
typedef std::vector<mp_limb_t> Obj;
inline void addFp(std::vector<Obj>& v, const mpz_class& x) { if (x < 0 || x >= ref::curve().p) return; Obj o(4); ref::fromMpz(&o[0], 4, x); v.push_back(o); }
inline void uniq(std::vector<Obj>& v) { std::vector<Obj> r; mc::HashSet h; for (size_t i = 0; i < v.size(); i++) if (h.insert(mc::hashBytes(&v[i][0], v[i].size() * 8))) r.push_back(v[i]); v.swap(r); }
inline mpz_class dense(int i) // fixed dense constants (digits of sqrt primes), reproducible
{
	static const int pr[] = { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71 };
	mpz_class n = mpz_class(pr[i % 20] + 100 * (i / 20)) << 600, s = sqrt(n);
	return s % ref::curve().p;
}
/*
	raw (internal representation) values of the base field
	level 0: 8   level 1: ~45   level 2: ~600   level 3: ~2500
*/
inline std::vector<Obj> fpSet(int level)
{
	std::vector<Obj> v; const mpz_class& p = ref::curve().p; mpz_class one = 1;
	const mpz_class z[] = { 0, 1, p - 1, (p - 1) / 2, (p + 1) / 2, (one << 256) % p, dense(0), 2 };
	for (size_t i = 0; i < sizeof(z) / sizeof(*z); i++) addFp(v, z[i]);
	if (level >= 1) {
		const int bits[] = { 63, 64, 127, 128, 191, 192, 252, 253, 254 };
		for (size_t i = 0; i < 9; i++) for (int d = -1; d <= 1; d++) { addFp(v, (one << bits[i]) + d); addFp(v, p - (one << bits[i]) + d); }
		mpz_class R = (one << 256) % p, R2 = R * R % p;
		addFp(v, R2); addFp(v, p - R); addFp(v, p - R2); addFp(v, 2 * R % p); addFp(v, p - 2); addFp(v, 3); addFp(v, p / 3); addFp(v, 2 * p / 3); addFp(v, p / 4); addFp(v, 3 * p / 4); addFp(v, dense(1));
	}
	if (level >= 2) {
		std::vector<mp_limb_t> al[4];
		for (int i = 0; i < 4; i++) {
			mp_limb_t P = ref::mod().p[i];
			mp_limb_t c[] = { 0, 1, ~mp_limb_t(0), mp_limb_t(1) << 63, P, P - 1, P + 1, 2, ~mp_limb_t(0) - 1, (mp_limb_t(1) << 63) - 1 };
			int n = level >= 4 ? 10 : level >= 3 ? 7 : (i == 3 ? 5 : 5);
			for (int j = 0; j < n; j++) al[i].push_back(c[j]);
		}
		for (size_t a = 0; a < al[0].size(); a++) for (size_t b = 0; b < al[1].size(); b++) for (size_t c = 0; c < al[2].size(); c++) for (size_t d = 0; d < al[3].size(); d++) {
			mp_limb_t w[4] = { al[0][a], al[1][b], al[2][c], al[3][d] };
			addFp(v, ref::toMpz(w, 4));
		}
	}
	uniq(v);
	return v;
}
inline void addDbl(std::vector<Obj>& v, const mpz_class& x) { if (x < 0 || x >= (ref::curve().p << 256)) return; Obj o(8); ref::fromMpz(&o[0], 8, x); v.push_back(o); }
/*
	double-width values, generic boundaries plus *solved* Montgomery inputs
	v = t*2^256 - Q*p for chosen quotient digits Q and pre-subtraction value t
*/
inline std::vector<Obj> dblSet(int level)
{
	std::vector<Obj> v; const mpz_class& p = ref::curve().p; mpz_class one = 1, R = one << 256, pN = p << 256;
	const mpz_class z[] = { 0, 1, pN - 1, pN / 2, p * (R - 1), (p - 1) * (p - 1), R - 1, R, p, pN - p, pN - R, (p - 1) << 256 };
	for (size_t i = 0; i < sizeof(z) / sizeof(*z); i++) addDbl(v, z[i]);
	for (int i = 0; i < 2; i++) addDbl(v, (dense(i) << 256) + dense(i + 2));
	if (level >= 1) {
		for (int b = 63; b < 511; b++) if (b % 64 == 63 || b % 64 == 0) for (int d = -1; d <= 1; d++) { addDbl(v, (one << b) + d); addDbl(v, pN - (one << b) + d); }
		for (int k = 1; k <= 3; k++) { addDbl(v, pN * k / 4); addDbl(v, pN * k / 4 + 1); addDbl(v, p * p * k); addDbl(v, p * p * k - 1); }
	}
	if (level >= 2) {
		mp_limb_t q[] = { 0, 1, ~mp_limb_t(0), mp_limb_t(1) << 63 };
		const mpz_class dp[] = { 0, 1, -1, 2, -2 };
		for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) for (int c = 0; c < 4; c++) for (int d = 0; d < 4; d++) {
			mp_limb_t w[4] = { q[a], q[b], q[c], q[d] };
			mpz_class Q = ref::toMpz(w, 4), lo = (Q * p + R - 1) >> 256;
			// pre-subtraction t around 0 (smallest possible), around p, and around limb boundaries
			for (int e = 0; e < 5; e++) { addDbl(v, (lo + 2 + dp[e]) * R - Q * p); addDbl(v, (p + dp[e]) * R - Q * p); addDbl(v, (p + (one << 64) + dp[e]) * R - Q * p); addDbl(v, (p + (one << 192) + dp[e]) * R - Q * p); if (level >= 3) { addDbl(v, (p + (one << 128) + dp[e]) * R - Q * p); addDbl(v, (p / 2 + dp[e]) * R - Q * p); addDbl(v, (lo + (p >> 3) + dp[e]) * R - Q * p); addDbl(v, (2 * p + dp[e]) * R - Q * p); addDbl(v, (p - (one << 64) + dp[e]) * R - Q * p); addDbl(v, (p - (one << 128) + dp[e]) * R - Q * p); } }
		}
	}
	if (level >= 3) {
		mp_limb_t q[] = { 0, ~mp_limb_t(0), 1 };
		mpz_class top = p >> 192;
		int n = 1; for (int i = 0; i < 8; i++) n *= 3;
		for (int m = 0; m < n; m++) {
			mp_limb_t w[8]; int k = m; for (int i = 0; i < 8; i++) { w[i] = q[k % 3]; k /= 3; }
			for (int j = 0; j < 3; j++) { mp_limb_t sv = w[7]; if (w[7] == ~mp_limb_t(0)) w[7] = ref::mod().p[3] - j; addDbl(v, ref::toMpz(w, 8)); w[7] = sv; }
			for (int i = 0; i < 4; i++) if (w[4 + i] == 1) w[4 + i] = ref::mod().p[i];
			addDbl(v, ref::toMpz(w, 8));
		}
	}
	uniq(v);
	return v;
}
inline Obj cat(const Obj& a, const Obj& b) { Obj r(a); r.insert(r.end(), b.begin(), b.end()); return r; }
// all tuples of n coefficients over the alphabet
inline std::vector<Obj> tuples(const std::vector<Obj>& al, int n)
{
	std::vector<Obj> r(1);
	for (int i = 0; i < n; i++) {
		std::vector<Obj> s;
		for (size_t j = 0; j < r.size(); j++) for (size_t k = 0; k < al.size(); k++) s.push_back(cat(r[j], al[k]));
		r.swap(s);
	}
	return r;
}
inline uint64_t hashCase(const Op& op, const void *z, const void *x, const void *y)
{
	uint64_t h = mc::hashStr(op.name);
	if (op.flags & INOUT) h = mc::hashBytes(z, bytes(op.tz), h);
	h = mc::hashBytes(x, bytes(op.tx), h);
	if (op.ty != TNONE) h = mc::hashBytes(y, bytes(op.ty), h);
	return h;
}
/*
	exhaust one op over operand alphabets (all aliasing patterns)
*/
inline void exhaust(const Op& op, const std::vector<Obj>& zs, const std::vector<Obj>& xs, const std::vector<Obj>& ys)
{
	mc::what(op.name);
	static const std::vector<Obj> none(1, Obj(1));
	const std::vector<Obj>& ZS = (op.flags & INOUT) ? zs : none;
	const std::vector<Obj>& YS = op.ty != TNONE ? ys : none;
	for (size_t k = 0; k < ZS.size(); k++) for (size_t i = 0; i < xs.size(); i++) for (size_t j = 0; j < YS.size(); j++) {
		if (!mc::state(hashCase(op, &ZS[k][0], &xs[i][0], &YS[j][0]))) continue;
		if (mc::wantSample() && (i * 7 + j * 3) % 11 == 5) mc::sample(op.name + " x=" + show(op.tx, &xs[i][0]) + (op.ty != TNONE ? " y=" + show(op.ty, &YS[j][0]) : ""));
		stepAll(op, &ZS[k][0], &xs[i][0], &YS[j][0], op.tx == op.ty && xs[i] == YS[j]);
		mc::trace();
	}
}
/*
	consecutive calls: an operand, the same operand with one word changed, the operand
	again, for every word of every operand.  A result which depends on an earlier call
	(a remembered operand compared in part) shows up.
*/
inline Obj denseObj(int t, int seed)
{
	Obj o; size_t per = bytes(t) / 8 / ncoef[t];
	for (int i = 0; i < ncoef[t]; i++) for (size_t k = 0; k < per / 4; k++) { Obj c(4); ref::fromMpz(&c[0], 4, dense(seed + 2 * i + (int)k)); o.insert(o.end(), c.begin(), c.end()); }
	return o;
}
inline void consecutive(const std::vector<Op>& table)
{
	for (size_t q = 0; q < table.size(); q++) for (int seed = 0; seed < 2; seed++) {
		const Op& op = table[q];
		if (!mc::state(mc::mix(mc::hashStr(op.name), seed + 0xc0c0))) continue;
		mc::what("consecutive calls of " + op.name);
		const Obj z = denseObj(op.tz, 7 + seed), x = denseObj(op.tx, seed * 40), y = op.ty != TNONE ? denseObj(op.ty, 13 + seed * 40) : Obj(1);
		auto go = [&](const Obj& Z, const Obj& X, const Obj& Y) { if ((op.flags & INOUT) && !inRange(op.tz, (void*)&Z[0])) return; if (!inRange(op.tx, (void*)&X[0]) || (op.ty != TNONE && !inRange(op.ty, (void*)&Y[0]))) return; if (pre(op, &X[0], &Y[0])) doStep(op, 0, &Z[0], &X[0], &Y[0]); };
		go(z, x, y);
		for (size_t i = 0; i < x.size(); i++) { Obj t = x; t[i] ^= 2; go(z, t, y); go(z, x, y); if (op.flags & ZX && !(op.flags & INOUT)) { doStep(op, ZX, &z[0], &t[0], &y[0]); doStep(op, ZX, &z[0], &x[0], &y[0]); } }
		if (op.ty != TNONE) for (size_t i = 0; i < y.size(); i++) { Obj t = y; t[i] ^= 2; go(z, x, t); go(z, x, y); if (op.ty == op.tx) { go(z, t, x); go(z, y, x); } }
		if (op.flags & INOUT) for (size_t i = 0; i < z.size(); i++) { Obj t = z; t[i] ^= 2; go(t, x, y); go(z, x, y); }
		mc::trace();
	}
}
/*
	breadth-first search over operation sequences: state = (r0, r1) concrete
	objects of one type; every operation of the table with (r0, r1) in every
	operand order and aliasing, the result replacing r0 or r1
*/
inline void bfs(int t, const std::vector<Op>& table, const std::vector<Obj>& init, int depth)
{
	typedef std::pair<Obj, Obj> St;
	std::vector<St> frontier;
	for (size_t i = 0; i < init.size(); i++) for (size_t j = 0; j < init.size(); j++) frontier.push_back(St(init[i], init[j]));
	for (int d = 0; d < depth; d++) {
		std::vector<St> next;
		for (size_t i = 0; i < frontier.size(); i++) {
			const St& s = frontier[i];
			uint64_t h = mc::hashBytes(&s.first[0], s.first.size() * 8); h = mc::hashBytes(&s.second[0], s.second.size() * 8, h);
			// the first level is sharded, the successors belong to the shard that found them
			if (!mc::state(d == 0 ? h : mc::mix(h, d), d == 0 && !mc::ctx().onlySet)) { if (!mc::ctx().onlySet) continue; }
			for (size_t k = 0; k < table.size(); k++) {
				const Op& op = table[k];
				if (op.tz != t || op.tx != t || (op.ty != t && op.ty != TNONE)) continue;
				mc::what(op.name);
				for (int sw = 0; sw < 2; sw++) {
					const Obj& a = sw ? s.second : s.first; const Obj& b = sw ? s.first : s.second;
					if (!pre(op, &a[0], &b[0])) continue;
					bool bin = op.ty != TNONE, inout = (op.flags & INOUT) != 0;
					Obj r(a.size());
					doStep(op, 0, &b[0], &a[0], &b[0], &r[0]);
					if (!inout && (op.flags & ZX)) doStep(op, ZX, &a[0], &a[0], &b[0], &r[0]);
					if (bin && (op.flags & ZY)) doStep(op, ZY, &b[0], &a[0], &b[0], &r[0]);
					if (d + 1 < depth) { next.push_back(sw ? St(s.first, r) : St(r, s.second)); }
					mc::trace();
				}
			}
		}
		frontier.swap(next);
	}
}

} // ops
