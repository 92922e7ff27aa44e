From c3c7f3d2f7c68fcaf105b617c9c7bc517bb65103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 01/37] fix: negation of a zero double-width element

in_FpDbl_neg tested the destination pointer instead of the lowest limb, so
-0 was the unreduced value pN.
---
 src/zm2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zm2.cpp b/src/zm2.cpp
index 0371043..6628703 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -1550,12 +1550,12 @@ L("@@");
 		mov(rdx, gt4);
 		or_(rdx, gt3);
 		or_(rdx, gt2);
-		or_(rdx, gp1);
+		or_(rdx, gt1);
 		load_rm(gt4, gt3, gt2, gt1, mx + 32);
 		or_(rdx, gt4);
 		or_(rdx, gt3);
 		or_(rdx, gt2);
-		or_(rdx, gp1);
+		or_(rdx, gt1);
 #ifdef DEBUG_COUNT
 		jnz(".neg", T_NEAR);
 #else
-- 
2.43.0


From 005d4c94ceba3f15edd8a4e8418c5842107c7a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 02/37] fix: Compress::square_n for n <= 0

The generated loop tested the counter only at its end and read the int n as
a 64-bit value, so n = 0 never ended.
---
 src/zm2.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/zm2.cpp b/src/zm2.cpp
index 6628703..0d959a1 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -2365,11 +2365,14 @@ L("@@");
 		const int g3 = sizeof(Fp2) * 2;
 		const int g4 = sizeof(Fp2) * 1;
 		const int g5 = sizeof(Fp2) * 5;
+		inLocalLabel();
+		movsxd(gp2, gp2.cvt32()); // n is int
+		cmp(gp2, 0);
+		jle(".exit", T_NEAR);
 		mov(z, ptr [gp1]);
 		mov(ptr [rsp + nsave], gp2);
 		movq(zsave, z);
 
-		inLocalLabel();
 	L(".lp");
 
 		// Fp2Dbl::square(T0, z.g4_);
@@ -2528,6 +2531,7 @@ L("@@");
 
 		sub(qword [rsp + nsave], 1);
 		jnz(".lp", T_NEAR);
+	L(".exit");
 		outLocalLabel();
 	}
 	/*
-- 
2.43.0


From b8aa35ca810d985a7c62da3063af03e67119d4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 03/37] fix: fast_modp for the SNARK prime

The quotient estimate (top three bits) holds only for a prime just above
2^253; with BN_SUPPORT_SNARK the compressed squaring was wrong.
---
 include/zm2.h | 3 +++
 src/zm2.cpp   | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/include/zm2.h b/include/zm2.h
index 90e9ec6..c50d315 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -231,6 +231,9 @@ public:
 	static inline void fast_modp(Fp &z)
 	{
 		uint64_t t = z.v_[3] >> 61;
+#ifdef BN_SUPPORT_SNARK
+		t = (t * 11 + 5) >> 4; // because 3/2 < p / 2^253 < 2
+#endif
 		z -= getDirectP((int)t);
 	}
 
diff --git a/src/zm2.cpp b/src/zm2.cpp
index 0d959a1..8bf8920 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -1682,6 +1682,7 @@ L("@@");
 		destroy rax, rdx, t0, t1, t2, t3
 		(i*p) >> 253 = 0,1,2,3,4,5,6 for i = 0, .., 6
 		t = (i * p) >> 253
+		input [x3:x2:x1:x0] < 5p if BN_SUPPORT_SNARK
 	*/
 	void fast_modp(
 		const Reg64& x3, const Reg64& x2, const Reg64& x1, const Reg64& x0,
@@ -1690,6 +1691,12 @@ L("@@");
 		const Reg64& a = rax;
 		mov(rdx, x3);
 		shr(rdx, 61); // rdx = [0:x3_63:x3_62:x3_61]
+#ifdef BN_SUPPORT_SNARK
+		// 3/2 < p / 2^253 < 2, then (11 * t + 5) >> 4 approximates x / p
+		imul(rdx, rdx, 11);
+		add(rdx, 5);
+		shr(rdx, 4);
+#endif
 
 		shl(rdx, 5); // sizeof(Fp) = 32
 		mov(a, (uint64_t)&s_pTbl[0]);
-- 
2.43.0


From 321010e0b8014022e4ad6e28ad1ed80c1c460ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 04/37] fix: Fp6Dbl::mul range with BN_SUPPORT_SNARK

The last coefficient reaches 6p^2, which exceeds pN for the SNARK prime, so
products of near-maximal elements were not reduced.
---
 include/bn.h | 4 ++++
 src/zm2.cpp  | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/include/bn.h b/include/bn.h
index a0b6c22..0297714 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -1323,7 +1323,11 @@ struct Fp6T : public mie::local::addsubmul<Fp6T<T>,
 			// # 21
 			FpDbl::subNC(z.c_.b_, z.c_.b_, T2.b_);
 			// # 23
+#ifdef BN_SUPPORT_SNARK
+			FpDbl::add(z.c_.b_, z.c_.b_, T1.b_); // 6p^2 > pN
+#else
 			FpDbl::addNC(z.c_.b_, z.c_.b_, T1.b_);
+#endif
 		}
 		static void mod(Fp6T& z, const Dbl& x)
 		{
diff --git a/src/zm2.cpp b/src/zm2.cpp
index 8bf8920..22a7f42 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -2259,8 +2259,13 @@ L("@@");
 		// FpDbl::subNC(z.c_.b_, z.c_.b_, T2.b_);
 		in_FpDbl_subNC(z.c_.b_, z.c_.b_, T2.b_);
 
+#ifdef BN_SUPPORT_SNARK
+		// FpDbl::add(z.c_.b_, z.c_.b_, T1.b_); // 6p^2 > pN
+		in_FpDbl_add(z.c_.b_, z.c_.b_, T1.b_);
+#else
 		// FpDbl::addNC(z.c_.b_, z.c_.b_, T1.b_);
 		in_FpDbl_addNC(z.c_.b_, z.c_.b_, T1.b_);
+#endif
 #endif
 		add(rsp, SS);
 		ret();
-- 
2.43.0


From d406e3f17548516234c3cc5524026530bb01a430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 05/37] fix: Fp from the smallest int

-x overflows for INT_MIN and was sign-extended into the limb.
---
 include/zm2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zm2.h b/include/zm2.h
index c50d315..a2e6a4a 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -57,7 +57,7 @@ public:
 			std::fill(v_ + 1, v_ + N, 0);
 			mul(*this, *this, montgomeryR2_);
 		} else {
-			v_[0] = -x;
+			v_[0] = 0U - (unsigned int)x;
 			std::fill(v_ + 1, v_ + N, 0);
 			mul(*this, *this, montgomeryR2_);
 			neg(*this, *this);
-- 
2.43.0


From 76b1a2ea32695cdaf777f414c2b5d38be2b80354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 06/37] fix: Vuint::bitLen of a top limb that rounds up

The conversion to double rounds 2^64 - 1 to 2^64, one bit too long.
---
 include/zm.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 3763b45..2497d0f 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -528,11 +528,10 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 		if (isZero()) return 0;
 
 		size_t size = this->size();
-		T v = (*this)[size - 1];
-		union di t;
-		t.f = (double)v;
-		size_t ret = 1 + (size_t(t.i >> 52) - (1 << 10) + 1) +
-			(size - 1) * sizeof(T) * 8;
+		size_t ret = (size - 1) * sizeof(T) * 8;
+		for (T v = (*this)[size - 1]; v; v >>= 1) {
+			ret++;
+		}
 		return ret;
 	}
 
-- 
2.43.0


From a3e9352ff67b198f234559ad303cea999b979953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 07/37] fix: Vuint += of an integer above 32 bits

operator+=(N) reached add(.., uint32_t), which dropped the upper half.
---
 include/zm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zm.h b/include/zm.h
index 2497d0f..bb0a3ee 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -570,7 +570,7 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 			out.trim();
 		}
 	}
-	static inline void add(VuintT& out, const VuintT& x, uint32_t y)
+	static inline void add(VuintT& out, const VuintT& x, T y)
 	{
 		const size_t n = x.size();
 		out.alloc(n);
-- 
2.43.0


From a811ec859160bf56ffccaed157f311de6f85874e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 08/37] fix: Vsint from the smallest int

abs(INT_MIN) is negative and was sign-extended.
---
 include/zm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zm.h b/include/zm.h
index bb0a3ee..93c5119 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -965,7 +965,7 @@ class VsintT : public local::addsubmul<VsintT<V>,
 public:
 	typedef typename V::value_type value_type;
 	VsintT(int x = 0)
-		: v_(::abs(x))
+		: v_(x < 0 ? (value_type)0 - (value_type)x : (value_type)x)
 		, isNeg_(x < 0)
 	{
 	}
-- 
2.43.0


From 1988889bc7c8613ceeb56e014bfb0bd4ff4716ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 09/37] fix: Vsint prints zero as -0

Results such as -x of zero or 0 * -1 keep the sign flag.
---
 include/zm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 93c5119..5d10ec5 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -998,7 +998,7 @@ public:
 	void clear() { v_.set((value_type)0); isNeg_ = false; }
 	std::string toString(int base = 10) const
 	{
-		if (isNeg_) return "-" + v_.toString(base);
+		if (isNegative()) return "-" + v_.toString(base);
 		return v_.toString(base);
 	}
 	void set(const std::string& str, int base = 10)
@@ -1111,7 +1111,7 @@ public:
 	}
 	inline friend std::ostream& operator<<(std::ostream& os, const VsintT& x)
 	{
-		if (x.isNeg_) os << "-";
+		if (x.isNegative()) os << "-";
 		return os << x.v_;
 	}
 	inline friend std::istream& operator>>(std::istream& is, VsintT& x)
-- 
2.43.0


From 43482f2aabd90f1ed7a2c12c0322e017a791da88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 10/37] fix: Vsint::set of an unsigned value kept the old sign

---
 include/zm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/zm.h b/include/zm.h
index 5d10ec5..dd66427 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -980,6 +980,7 @@ public:
 	}
 	void set(value_type x)
 	{
+		isNeg_ = false;
 		v_.set(x);
 	}
 	void set(int64_t x)
@@ -992,7 +993,7 @@ public:
 		v_ = x;
 		isNeg_ = false;
 	}
-	void set(const uint64_t *ptr, size_t size) { v_.set(ptr, size); }
+	void set(const uint64_t *ptr, size_t size) { isNeg_ = false; v_.set(ptr, size); }
 	const V& get() const { return v_; }
 	V& get() { return v_; }
 	void clear() { v_.set((value_type)0); isNeg_ = false; }
-- 
2.43.0


From 192986750c92fe2a8041552f7e21a2750a4a733e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:49 +0000
Subject: [PATCH 11/37] fix: Vuint division by a value of full capacity

The scratch product is one limb longer than the divisor and did not fit the
fixed buffer, so dividing two 9-limb values ended the process.
---
 include/zm.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index dd66427..a4d6cbc 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -928,8 +928,7 @@ public:
 		if (q) {
 			std::fill(q, q + xn - yn + 1, 0);
 		}
-		Buffer t;
-		t.alloc(yn + 1);
+		T *t = (T*)MIE_ALLOCA_(sizeof(T) * (yn + 1));
 		double yt = GetApp(y, yn, true);
 		while (F::compare(x, xn, y, yn) >= 0) {
 			size_t len = yn;
-- 
2.43.0


From 6f432edaf738e5c47517c6128e00a5117853ed63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:49 +0000
Subject: [PATCH 12/37] fix: ZmZ from an int outside [-m, m)

A positive int was not reduced and a negative one below -m ended the process.
---
 include/zm.h | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index a4d6cbc..80cc367 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -1196,17 +1196,10 @@ public:
 	void set(const ZmZ &x) { v_ = x.v_; }
 	void set(int x)
 	{
-		if (x == 0) {
-			v_.clear();
-		} else if (x > 0) {
-			v_.set(x);
-		} else {
-			if (x == -2147483647 - 1 || m_ < -x) {
-				local::errExit("x is too small");
-			}
-			v_ = m_;
-			v_ -= -x;
-		}
+		const bool isNeg = x < 0;
+		v_.set(isNeg ? 0U - (unsigned int)x : (unsigned int)x);
+		modulo();
+		if (isNeg) neg(*this, *this);
 	}
 	void set(const std::string& str)
 	{
-- 
2.43.0


From b9e55a1f50e19de5d027caa64050dc25145c6348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:49 +0000
Subject: [PATCH 13/37] fix: comparing, printing and pairing points changed
 const operands

They normalized their arguments in place, a data race when threads share
read-only points.
---
 include/bn.h | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/bn.h b/include/bn.h
index 0297714..208a026 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -2841,6 +2841,16 @@ public:
 		p[2] = 1;
 	}
 
+	/*
+		normalized copy, const objects may be shared by threads
+	*/
+	EcT normalized() const
+	{
+		EcT P(*this);
+		P.normalize();
+		return P;
+	}
+
 	bool isValid() const;
 
 	void set(const T& x, const T& y, bool verify = true)
@@ -2899,14 +2909,13 @@ public:
 	EcT operator*(const N& y) const { EcT c; mul(c, *this, y); return c; }
 	bool operator==(const EcT& rhs) const
 	{
-		normalize();
-		rhs.normalize();
 		if (isZero()) {
 			if (rhs.isZero()) return true;
 			return false;
 		}
 		if (rhs.isZero()) return false;
-		return p[0] == rhs.p[0] && p[1] == rhs.p[1];
+		const EcT a = normalized(), b = rhs.normalized();
+		return a.p[0] == b.p[0] && a.p[1] == b.p[1];
 	}
 	bool operator!=(const EcT& rhs) const
 	{
@@ -2921,8 +2930,8 @@ public:
 		if (self.isZero()) {
 			return os << '0';
 		} else {
-			self.normalize();
-			return os << self.p[0].toString(16) << '_' << self.p[1].toString(16);
+			const EcT P = self.normalized();
+			return os << P.p[0].toString(16) << '_' << P.p[1].toString(16);
 		}
 	}
 	friend inline std::istream& operator>>(std::istream& is, EcT& self)
@@ -2969,13 +2978,11 @@ typedef EcT<Fp> Ec1;
 
 inline void opt_atePairing(Fp12& f, const Ec2& Q, const Ec1& P)
 {
-	Q.normalize();
-	P.normalize();
 	if (Q.isZero() || P.isZero()) {
 		f = 1;
 		return;
 	}
-	opt_atePairing<Fp>(f, Q.p, P.p);
+	opt_atePairing<Fp>(f, Q.normalized().p, P.normalized().p);
 }
 
 template<>
-- 
2.43.0


From 94c04e10f3e94e9f841a1d485ccedb1c35d743e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:11 +0000
Subject: [PATCH 14/37] fix: negative scalars and exponents

The words of a negative int or mpz_class were read as a huge unsigned value
or not bounded at all. A point times -k is now the negative of k times the
point; power() has no inverse and refuses a negative exponent.
---
 include/bn.h  | 4 +++-
 include/zm.h  | 8 ++++++--
 include/zm2.h | 1 +
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/bn.h b/include/bn.h
index 208a026..59f2974 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -24,7 +24,7 @@ inline size_t M_bitLen(const mpz_class& x)
 }
 inline size_t M_blockSize(const mpz_class& x)
 {
-	return x.get_mpz_t()->_mp_size;
+	return mpz_size(x.get_mpz_t());
 }
 inline mp_limb_t M_block(const mpz_class& x, size_t i)
 {
@@ -47,6 +47,7 @@ struct IntTag<mpz_class> {
 	{
 		return M_blockSize(x);
 	}
+	static inline bool isNegative(const mpz_class& x) { return sgn(x) < 0; }
 };
 } } // mie::util
 #endif
@@ -2648,6 +2649,7 @@ inline void ScalarMult(FF* out, const FF* in, const INT& m)
 			}
 		}
 	}
+	if (Tag::isNegative(m)) FF::neg(out[1], out[1]);
 }
 
 template<class Fp>
diff --git a/include/zm.h b/include/zm.h
index 80cc367..6c70ce9 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -1345,19 +1345,21 @@ struct IntTag {
 	{
 		return x.size();
 	}
+	static inline bool isNegative(const T&) { return false; }
 };
 
 template<>
 struct IntTag<int> {
-	typedef int value_type;
+	typedef unsigned int value_type;
 	static inline value_type getBlock(const int& x, size_t)
 	{
-		return x;
+		return x < 0 ? 0U - (unsigned int)x : (unsigned int)x; // absolute value
 	}
 	static inline size_t getBlockSize(const int&)
 	{
 		return 1;
 	}
+	static inline bool isNegative(const int& x) { return x < 0; }
 };
 template<>
 struct IntTag<size_t> {
@@ -1370,6 +1372,7 @@ struct IntTag<size_t> {
 	{
 		return 1;
 	}
+	static inline bool isNegative(const size_t&) { return false; }
 };
 
 } // util
@@ -1382,6 +1385,7 @@ T power(const T& x, const S& y)
 {
 	typedef typename mie::util::IntTag<S> Tag;
 	typedef typename Tag::value_type value_type;
+	if (Tag::isNegative(y)) throw std::invalid_argument("power: negative exponent");
 	T t(x);
 	T out = 1;
 	for (size_t i = 0, n = Tag::getBlockSize(y); i < n; i++) {
diff --git a/include/zm2.h b/include/zm2.h
index a2e6a4a..35e0b64 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -423,6 +423,7 @@ struct IntTag<mie::Fp> {
 		err();
 		return 0;
 	}
+	static inline bool isNegative(const mie::Fp&) { return false; }
 	static inline void err()
 	{
 		printf("Use mie::Vuint intead of Fp for the 3rd parameter for ScalarMulti\n");
-- 
2.43.0


From 2889ca43b94ccb77795b5313235e51eab540a1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:11 +0000
Subject: [PATCH 15/37] fix: negative powers in the Java interface

---
 java/bn254_if.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/java/bn254_if.hpp b/java/bn254_if.hpp
index 3bfad73..a4d2ecd 100644
--- a/java/bn254_if.hpp
+++ b/java/bn254_if.hpp
@@ -21,6 +21,15 @@ class Fp12;
 class Ec1;
 class Ec2;
 
+template<class T>
+inline T powerMpz(const T& x, const mpz_class& y)
+{
+	if (y >= 0) return mie::power(x, y);
+	T t(x);
+	t.inverse();
+	return mie::power(t, mpz_class(-y));
+}
+
 class Mpz {
 	mpz_class self_;
 	friend class Fp;
@@ -80,7 +89,7 @@ public:
 	void mul(const Fp& rhs) throw(std::exception) { self_ *= rhs.self_; }
 	void power(const Mpz& x)
 	{
-		self_ = mie::power(self_, x.self_);
+		self_ = powerMpz(self_, x.self_);
 	}
 };
 
@@ -116,7 +125,7 @@ public:
 	void mul(const Fp2& rhs) throw(std::exception) { self_ *= rhs.self_; }
 	void power(const Mpz& x)
 	{
-		self_ = mie::power(self_, x.self_);
+		self_ = powerMpz(self_, x.self_);
 	}
 };
 
@@ -144,7 +153,7 @@ public:
 	void pairing(const Ec2& ec2, const Ec1& ec1);
 	void power(const Mpz& x)
 	{
-		self_ = mie::power(self_, x.self_);
+		self_ = powerMpz(self_, x.self_);
 	}
 };
 
-- 
2.43.0


From ca520f874a26cc0cfc9e48492e718993df706930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:11 +0000
Subject: [PATCH 16/37] fix: the Java interface ignored text that is no number

---
 java/bn254_if.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/java/bn254_if.hpp b/java/bn254_if.hpp
index a4d2ecd..918ff41 100644
--- a/java/bn254_if.hpp
+++ b/java/bn254_if.hpp
@@ -48,7 +48,9 @@ public:
 	void set(int x) throw(std::exception) { self_ = x; }
 	void set(const std::string& str) throw(std::exception)
 	{
-		self_.set_str(str, 0);
+		mpz_class t;
+		if (t.set_str(str, 0) != 0) throw std::invalid_argument("Mpz::set:bad format");
+		self_ = t;
 	}
 	std::string toString() const throw(std::exception)
 	{
-- 
2.43.0


From 3be4e50a341683ad28c034fb0a2c22000842846b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:11 +0000
Subject: [PATCH 17/37] fix: pairing after switching the SNARK curve

The line evaluation is generated by the first initialization only and had
the coefficient b of that curve built in.
---
 src/zm2.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/zm2.cpp b/src/zm2.cpp
index 22a7f42..6b600bd 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -3087,16 +3087,21 @@ L("@@");
 
 #ifdef BN_SUPPORT_SNARK
 		// (a + bu) * binv_xi
-		if (ParamT<Fp2>::b == 82) {
+		inLocalLabel();
+		mov(rax, (size_t)&ParamT<Fp2>::b); // this code is shared by all curves
+		cmp(dword [rax], 82);
+		jne(".mul", T_NEAR);
 			// (a + bu) * (9 - u) = (9a + b) + (9b - a)u
 			in_Fp_mul_xi_addsub(t2, t0, t0 + 32, true);
 			in_Fp_mul_xi_addsub(t2 + 32, t0 + 32, t0, false);
-		} else {
+		jmp(".end", T_NEAR);
+	L(".mul");
 			lea(gp1, ptr [t2]);
 			lea(gp2, ptr [t0]);
 			mov(gp3, (size_t)&ParamT<Fp2>::b_invxi);
 			call(p_Fp2_mul);
-		}
+	L(".end");
+		outLocalLabel();
 #else
 		// Fp::add(t2.a_, t0.a_, t0.b_);
 		in_Fp_add(t2.a_, t0.a_, t0.b_);
-- 
2.43.0


From 5dc3e1816a869ff366ff8996f00eedd3bb07fac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 18/37] fix: Vuint from malformed or long text

Spaces, signs, an empty string and an embedded NUL were read as some number,
a leading zero or too many digits ended the process, and a decimal number of
full capacity was refused. All malformed text throws invalid_argument now.
---
 include/zm.h | 78 +++++++++++++++++++++++++---------------------------
 1 file changed, 37 insertions(+), 41 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 6c70ce9..1b0b0eb 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -233,6 +233,7 @@ public:
 	}
 	void clear() { v_.clear(); }
 
+	static bool canAlloc(size_t) { return true; }
 	/*
 		@note extended buffer may be not cleared
 	*/
@@ -283,6 +284,7 @@ public:
 		return *this;
 	}
 	void clear() { size_ = 0; }
+	static bool canAlloc(size_t n) { return n <= N; }
 	void alloc(size_t n)
 	{
 		verify(n);
@@ -451,61 +453,51 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 	*/
 	void set(const std::string& str, int base = 0)
 	{
-		std::string t;
+		std::string t = str;
 		if (str.size() >= 2 && str[0] == '0') {
 			switch (str[1]) {
 			case 'x':
-				if (base != 0 && base != 16) local::errExit("bad base in set(str)");
+				if (base != 0 && base != 16) throwBadStr(str);
 				base = 16;
 				t = str.substr(2);
 				break;
 			default:
-				local::errExit("not support base in set(str) 0x");
+				throwBadStr(str);
 			}
 		}
-		if (base == 0) {
-			base = 10;
+		const bool isHex = base == 16;
+		if (t.empty()) throwBadStr(str);
+		for (size_t i = 0; i < t.size(); i++) {
+			const char c = t[i];
+			if ('0' <= c && c <= '9') continue;
+			if (isHex && (('a' <= c && c <= 'f') || ('A' <= c && c <= 'F'))) continue;
+			throwBadStr(str);
 		}
-		if (t.empty()) t = str;
-
-		switch (base) {
-		case 16:
-			{
-				std::vector<uint32_t> x;
-				while (!t.empty()) {
-					size_t remain = (std::min)((int)t.size(), 8);
-					char *endp;
-					uint32_t v = strtoul(&t[t.size() - remain], &endp, 16);
-					if (*endp) goto ERR;
-					x.push_back(v);
-					t = t.substr(0, t.size() - remain);
-				}
-				set(&x[0], x.size());
+		std::vector<uint32_t> x; // little endian
+		if (isHex) {
+			while (!t.empty()) {
+				size_t remain = (std::min)((int)t.size(), 8);
+				x.push_back((uint32_t)strtoul(&t[t.size() - remain], 0, 16));
+				t = t.substr(0, t.size() - remain);
 			}
-			break;
-		default:
-		case 10:
-			{
-				std::vector<uint32_t> x;
-				while (!t.empty()) {
-					size_t remain = (std::min)((int)t.size(), 9);
-					char *endp;
-					uint32_t v = strtol(&t[t.size() - remain], &endp, 10);
-					if (*endp) goto ERR;
-					x.push_back(v);
-					t = t.substr(0, t.size() - remain);
-				}
-				clear();
-				for (size_t i = 0, n = x.size(); i < n; i++) {
-					(*this) *= 1000000000;
-					(*this) += x[n - 1 - i];
+		} else {
+			for (size_t i = 0; i < t.size(); i++) {
+				uint32_t c = uint32_t(t[i] - '0');
+				for (size_t j = 0; j < x.size(); j++) {
+					uint64_t v = uint64_t(x[j]) * 10 + c;
+					x[j] = (uint32_t)v;
+					c = (uint32_t)(v >> 32);
 				}
+				if (c) x.push_back(c);
 			}
-			break;
 		}
-		return;
-	ERR:
-		throw std::invalid_argument(std::string("bad digit `") + str + "`");
+		while (!x.empty() && x.back() == 0) x.pop_back();
+		if (!Buffer::canAlloc((x.size() * sizeof(uint32_t) + sizeof(T) - 1) / sizeof(T))) throwBadStr(str);
+		if (x.empty()) {
+			clear();
+		} else {
+			set(&x[0], x.size());
+		}
 	}
 	void fromStr(const std::string& str, int base = 10)
 	{
@@ -846,6 +838,10 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 		}
 	}
 private:
+	static void throwBadStr(const std::string& str)
+	{
+		throw std::invalid_argument(std::string("bad digit `") + str + "`");
+	}
 	union di {
 		double f;
 		uint64_t i;
-- 
2.43.0


From e1f83e5296e82fef3030bba8bbeb8371a711c2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 19/37] fix: Vsint from hexadecimal text

The default base 10 made set("0x.."), and so reading back a value written in
hexadecimal, end the process.
---
 include/zm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 1b0b0eb..f19e49a 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -997,12 +997,12 @@ public:
 		if (isNegative()) return "-" + v_.toString(base);
 		return v_.toString(base);
 	}
-	void set(const std::string& str, int base = 10)
+	void set(const std::string& str, int base = 0)
 	{
 		isNeg_ = false;
 		if (str.size() > 0 && str[0] == '-') {
 			isNeg_ = true;
-			v_.set(&str[1], base);
+			v_.set(str.substr(1), base);
 		} else {
 			v_.set(str, base);
 		}
-- 
2.43.0


From 07df1a3ee8d9252b3fe14e7eeaf23519e2017be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 20/37] fix: reading integers from a stream

A number at the end of the stream left it failed, no number at all was read
as 0 without failure, and the x of "-0x" was not consumed.
---
 include/zm.h  | 29 +++++++++++------------------
 include/zm2.h |  3 +--
 2 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index f19e49a..1d25d1d 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -83,26 +83,21 @@ namespace local {
 
 inline std::istream& getDigits(std::istream& is, std::string& str, bool allowNegative = false)
 {
-	std::ios_base::fmtflags keep = is.flags();
-	size_t pos = 0;
-	char c;
-	while (is >> c) {
+	if (is.flags() & std::ios_base::skipws) is >> std::ws;
+	size_t pos = 0; // number of characters except the sign
+	while (is.good()) {
+		const int c = is.peek(); // eof after a number is not a failure
 		if (('0' <= c && c <= '9') /* digits */
-		  || (pos == 1 && (str[0] == '0' && c == 'x')) /* 0x.. */
+		  || (pos == 1 && (str[str.size() - 1] == '0' && c == 'x')) /* 0x.. */
 		  || ('a' <= c && c <= 'f') /* lowercase hex */
-		  || ('A' <= c && c <= 'F') /* uppercase hex */
-		  || (allowNegative && pos == 0 && c == '-')) { /* -digits */
-			str.push_back(c);
-			if (pos == 0) {
-				is >> std::noskipws;
-			}
+		  || ('A' <= c && c <= 'F')) { /* uppercase hex */
 			pos++;
-		} else {
-			is.unget();
+		} else if (!(allowNegative && str.empty() && c == '-')) { /* -digits */
 			break;
 		}
+		str.push_back((char)is.get());
 	}
-	is.flags(keep);
+	if (pos == 0) is.setstate(std::ios_base::failbit);
 	return is;
 }
 
@@ -723,8 +718,7 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 	inline friend std::istream& operator>>(std::istream& is, VuintT& x)
 	{
 		std::string str;
-		local::getDigits(is, str);
-		x.set(str);
+		if (local::getDigits(is, str)) x.set(str);
 		return is;
 	}
 
@@ -1113,8 +1107,7 @@ public:
 	inline friend std::istream& operator>>(std::istream& is, VsintT& x)
 	{
 		std::string str;
-		local::getDigits(is, str, true);
-		x.set(str);
+		if (local::getDigits(is, str, true)) x.set(str);
 		return is;
 	}
 	static inline void shl(VsintT& out, const VsintT& x, size_t n)
diff --git a/include/zm2.h b/include/zm2.h
index 35e0b64..62dabed 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -120,8 +120,7 @@ public:
 	inline friend std::istream& operator>>(std::istream& is, Fp& x)
 	{
 		std::string str;
-		mie::local::getDigits(is, str);
-		x.set(str);
+		if (mie::local::getDigits(is, str)) x.set(str);
 		return is;
 	}
 	MIE_FORCE_INLINE bool isZero() const
-- 
2.43.0


From 1286cf7c3476cc36e55668d48f58cdc110eb781a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 21/37] fix: Fp from text of a large integer

Multiplying the unreduced value by the Montgomery factor exceeded the capacity
of Vuint and ended the process.
---
 include/zm2.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/zm2.h b/include/zm2.h
index 62dabed..d184372 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -65,7 +65,9 @@ public:
 	}
 	void set(const std::string& str)
 	{
-		set(mie::Vuint(str));
+		mie::Vuint x(str);
+		x %= getModulo(); // set(x) is for x < p only
+		set(x);
 	}
 	void set(const mie::Vuint& x)
 	{
-- 
2.43.0


From 47bcc11e1c82a73c3cadc7c02750db0dedc28bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 22/37] fix: truncated or overlong text of extension field
 elements

The delimiters were compared uninitialized when the text ended early, and
Fp2::set ignored what follows the closing bracket.
---
 include/bn.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/bn.h b/include/bn.h
index 59f2974..dae917a 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -529,7 +529,7 @@ struct Fp2T : public mie::local::addsubmul<Fp2T<T>
 	}
 	friend std::istream& operator>>(std::istream& is, Fp2T& x)
 	{
-		char cl, cm, cr;
+		char cl = 0, cm = 0, cr = 0;
 		is >> cl >> x.a_ >> cm >> x.b_ >> cr;
 		if (cl == '[' && cm == ',' && cr == ']') return is;
 		throw std::ios_base::failure("bad Fp2");
@@ -544,6 +544,8 @@ struct Fp2T : public mie::local::addsubmul<Fp2T<T>
 	{
 		std::istringstream iss(str);
 		iss >> *this;
+		char c;
+		if (iss >> c) throw std::ios_base::failure("bad Fp2");
 	}
 
 	// z = x * b
@@ -974,7 +976,7 @@ struct Fp6T : public mie::local::addsubmul<Fp6T<T>,
 	}
 	friend std::istream& operator>>(std::istream& is, Fp6T& x)
 	{
-		char c1, c2, c3, c4;
+		char c1 = 0, c2 = 0, c3 = 0, c4 = 0;
 		is >> c1 >> x.a_ >> c2 >> x.b_ >> c3 >> x.c_ >> c4;
 		if (c1 == '[' && c2 == ',' && c3 == ',' && c4 == ']') return is;
 		throw std::ios_base::failure("bad Fp6");
@@ -1429,7 +1431,7 @@ struct Fp12T : public mie::local::addsubmul<Fp12T<T> > {
 	}
 	friend std::istream& operator>>(std::istream& is, Fp12T& x)
 	{
-		char c1, c2, c3;
+		char c1 = 0, c2 = 0, c3 = 0;
 		is >> c1 >> x.a_ >> c2 >> x.b_ >> c3;
 		if (c1 == '[' && c2 == ',' && c3 == ']') return is;
 		throw std::ios_base::failure("bad Fp12");
-- 
2.43.0


From 5c6618a4ef2c8de54c5011a9e3070cd4062756e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 23/37] fix: points read from text are verified

Coordinates that are not on the curve, an embedded NUL or anything behind the
value in the Java interface were accepted.
---
 include/bn.h      | 8 ++++----
 java/bn254_if.hpp | 6 ++++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/bn.h b/include/bn.h
index dae917a..3fccf5b 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -2945,14 +2945,14 @@ public:
 		if (str == "0") {
 			self.clear();
 		} else {
-			self.p[2] = 1;
 			size_t pos = str.find('_');
 			if (pos == std::string::npos) {
 				throw std::runtime_error("operator>>:bad format");
 			}
-			str[pos] = '\0';
-			self.p[0].set(&str[0]);
-			self.p[1].set(&str[pos + 1]);
+			T x, y;
+			x.set(str.substr(0, pos));
+			y.set(str.substr(pos + 1));
+			self = EcT(x, y); // verified
 		}
 		return is;
 	}
diff --git a/java/bn254_if.hpp b/java/bn254_if.hpp
index 918ff41..190db55 100644
--- a/java/bn254_if.hpp
+++ b/java/bn254_if.hpp
@@ -141,6 +141,8 @@ public:
 	{
 		std::istringstream iss(str);
 		iss >> self_;
+		char c;
+		if (iss >> c) throw std::invalid_argument("set:bad format");
 	}
 	std::string toString() const throw(std::exception)
 	{
@@ -186,6 +188,8 @@ public:
 	{
 		std::istringstream iss(str);
 		iss >> self_;
+		char c;
+		if (iss >> c) throw std::invalid_argument("set:bad format");
 	}
 	std::string toString() const throw(std::exception)
 	{
@@ -233,6 +237,8 @@ public:
 	{
 		std::istringstream iss(str);
 		iss >> self_;
+		char c;
+		if (iss >> c) throw std::invalid_argument("set:bad format");
 	}
 	std::string toString() const throw(std::exception)
 	{
-- 
2.43.0


From bbc9c4c3e7de2fb8af96ad829ba19925a8f69645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:54 +0000
Subject: [PATCH 24/37] fix: Fp2::squareC computed (a - b)(a + a)

---
 include/bn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bn.h b/include/bn.h
index 3fccf5b..b618df9 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -494,7 +494,7 @@ struct Fp2T : public mie::local::addsubmul<Fp2T<T>
 		Fp::addNC(t, x.b_, x.b_); // 2b
 		t *= x.a_; // 2ab
 		Fp::sub(tt, x.a_, x.b_); // a - b
-		Fp::addNC(z.a_, x.a_, x.a_); // a + b
+		Fp::addNC(z.a_, x.a_, x.b_); // a + b
 		z.a_ *= tt; // (a - b)(a + b)
 		z.b_ = t;
 #endif
-- 
2.43.0


From 6c8dd8ef939b366df3adc56fc1a354e0f9212639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 25/37] fix: Vuint from text in an unsupported base

Any base other than 16 was read as decimal.
---
 include/zm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/zm.h b/include/zm.h
index 1d25d1d..2da43e9 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -449,6 +449,7 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 	void set(const std::string& str, int base = 0)
 	{
 		std::string t = str;
+		if (base != 0 && base != 10 && base != 16) throwBadStr(str);
 		if (str.size() >= 2 && str[0] == '0') {
 			switch (str[1]) {
 			case 'x':
-- 
2.43.0


From 60e98cf171f6814c39f143cb10f0196f75860f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:49 +0000
Subject: [PATCH 26/37] fix: signed digits of 0 and 1

---
 include/bn.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bn.h b/include/bn.h
index b618df9..8a84875 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -122,6 +122,7 @@ template<class Vec>
 void convertToNAF(Vec& v, const Vec& in)
 {
 	v = in;
+	if (v.size() < 2) return;
 	size_t pos = v.size() - 1;
 	for (;;) {
 		size_t p = getContinuousVal(v, pos, 0);
-- 
2.43.0


From b6d047190feaebf8dc67cfe5e8a680c1cbd959ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:15 +0000
Subject: [PATCH 27/37] fix: testBit of a bit above the highest limb is 0, not
 what an earlier value left there

---
 include/zm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/zm.h b/include/zm.h
index 2da43e9..f3a1c1b 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -527,6 +527,7 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 	{
 		size_t unit_pos = i / (sizeof(T) * 8);
 		size_t bit_pos  = i % (sizeof(T) * 8);
+		if (unit_pos >= size()) return false;
 		T mask = T(1) << bit_pos;
 		return ((*this)[unit_pos] & mask) != 0;
 	}
-- 
2.43.0


From 8d593f3837795c26d3830fcd2b3e0660f19a8239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:44 +0000
Subject: [PATCH 28/37] fix: Fp2::mul_Fp_0 by a component of the result

---
 include/bn.h | 5 +++--
 src/zm2.cpp  | 9 ++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/bn.h b/include/bn.h
index 8a84875..81e4ced 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -552,8 +552,9 @@ struct Fp2T : public mie::local::addsubmul<Fp2T<T>
 	// z = x * b
 	static inline void mul_Fp_0C(Fp2T& z, const Fp2T& x, const Fp& b)
 	{
-		Fp::mul(z.a_, x.a_, b);
-		Fp::mul(z.b_, x.b_, b);
+		const Fp t = b; // b may be a part of z
+		Fp::mul(z.a_, x.a_, t);
+		Fp::mul(z.b_, x.b_, t);
 	}
 
 	/*
diff --git a/src/zm2.cpp b/src/zm2.cpp
index 6b600bd..45f7078 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -1287,10 +1287,13 @@ L("@@");
 	// call:32
 	void make_Fp2_mul_Fp_0()
 	{
-		MakeStackFrame<> sf(this, 10);
-		movq(xm2, gp3);
+		const Ext1<Fp> b(rsp);
+		MakeStackFrame<> sf(this, 10, b.next / 8);
+		// b may be a part of z
+		load_rm(gt4, gt3, gt2, gt1, gp3);
+		store_mr(b, gt4, gt3, gt2, gt1);
 		call(p_Fp_mul); // mul(z.a_, x.a_, b);
-		movq(gp3, xm2);
+		lea(gp3, ptr [b]);
 		add(gp1, sizeof(Fp));
 		add(gp2, sizeof(Fp));
 		call(p_Fp_mul); // mul(z.b_, x.b_, b);
-- 
2.43.0


From 200dae26b16fca03337dc2b8a1cfc17db70378a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:44 +0000
Subject: [PATCH 29/37] fix: _3z_add_2xC and _2z_add_3x in place

---
 include/zm2.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/zm2.h b/include/zm2.h
index d184372..dd768ad 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -99,9 +99,10 @@ public:
 	*/
 	static inline void _3z_add_2xC(Fp& z, const Fp& x)
 	{
-		addNC(z, z, x);
-		addNC(z, z, z);
-		addNC(z, z, x);
+		Fp t; // x may be z
+		addNC(t, z, x);
+		addNC(t, t, t);
+		addNC(z, t, x);
 		fast_modp(z);
 	}
 	/*
@@ -109,9 +110,10 @@ public:
 	*/
 	static inline void _2z_add_3x(Fp& z, const Fp& x)
 	{
-		addNC(z, x, z);
-		addNC(z, z, z);
-		addNC(z, z, x);
+		Fp t; // x may be z
+		addNC(t, x, z);
+		addNC(t, t, t);
+		addNC(z, t, x);
 		fast_modp(z);
 	}
 
-- 
2.43.0


From 498bd9cc3200a657f143250ed33abaccdad5a2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 30/37] fix: precomputed coefficients of the point at infinity

---
 include/bn.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bn.h b/include/bn.h
index 81e4ced..194464d 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -3069,6 +3069,10 @@ inline void precomputeG2(std::vector<Fp6>& coeff, Fp2 Q[3], const Fp2 inQ[3])
 
 	Fp6::pointAddLineEvalWithoutP(e, T, Q2);
 	coeff.push_back(e);
+	if (Q[2] == 0) {
+		// the pairing with the point at infinity is 1
+		for (size_t i = 0; i < coeff.size(); i++) coeff[i] = 1;
+	}
 }
 
 /*
-- 
2.43.0


From cd69f0dd10f1f10130c94d858b6c3de184c9a833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:07 +0000
Subject: [PATCH 31/37] fix: Fp6::set and Fp12::set from coefficients of the
 object itself

---
 include/bn.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/bn.h b/include/bn.h
index 194464d..b5d60fa 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -877,9 +877,10 @@ struct Fp6T : public mie::local::addsubmul<Fp6T<T>,
 	const Fp2* getFp2() const { return &a_; }
 	void set(const Fp2& v0, const Fp2& v1, const Fp2& v2)
 	{
+		const Fp2 t1 = v1, t2 = v2; // v1 and v2 may be parts of *this
 		a_ = v0;
-		b_ = v1;
-		c_ = v2;
+		b_ = t1;
+		c_ = t2;
 	}
 	bool isZero() const
 	{
@@ -1414,8 +1415,9 @@ struct Fp12T : public mie::local::addsubmul<Fp12T<T> > {
 	const Fp2* getFp2() const { return a_.getFp2(); }
 	void set(const Fp2& v0, const Fp2& v1, const Fp2& v2, const Fp2& v3, const Fp2& v4, const Fp2& v5)
 	{
+		const Fp6 t(v3, v4, v5); // v3, v4 and v5 may be parts of *this
 		a_.set(v0, v1, v2);
-		b_.set(v3, v4, v5);
+		b_ = t;
 	}
 
 	bool isZero() const
-- 
2.43.0


From 9ccb61e529d88cb14f248d9497f9a25085b8c4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:07 +0000
Subject: [PATCH 32/37] fix: EcT::set from coordinates of the point itself

---
 include/bn.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/bn.h b/include/bn.h
index b5d60fa..7f635d5 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -2863,8 +2863,9 @@ public:
 
 	void set(const T& x, const T& y, bool verify = true)
 	{
+		const T ty = y; // y may be a coordinate of *this
 		p[0] = x;
-		p[1] = y;
+		p[1] = ty;
 		p[2] = 1;
 		if (verify && !isValid()) {
 			throw std::runtime_error("set(x, y) : bad point");
@@ -2872,9 +2873,10 @@ public:
 	}
 	void set(const T& x, const T& y, const T& z, bool verify = true)
 	{
+		const T ty = y, tz = z; // y and z may be coordinates of *this
 		p[0] = x;
-		p[1] = y;
-		p[2] = z;
+		p[1] = ty;
+		p[2] = tz;
 		if (verify && !isValid()) {
 			throw std::runtime_error("set(x, y, z) : bad point");
 		}
-- 
2.43.0


From 2889d4b783e7cccbffa939eb8de96e2e5d0c27b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:10 +0000
Subject: [PATCH 33/37] fix: quotient of Vuint::div was too large when the
 floating-point rounding mode is upward

---
 include/zm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zm.h b/include/zm.h
index f3a1c1b..aa61bc4 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -876,7 +876,7 @@ private:
 #endif
 		double t = di.f;
 		if (up) {
-			di.i = uint64_t(len + 1022 - 52 + 1) << 52;
+			di.i = uint64_t(len + 1022 - 52 + 2) << 52; // an overestimate in every rounding mode
 			t += di.f;
 		}
 		return t;
-- 
2.43.0


From ce6e0abd40c0133c7631415b3f511c9914617dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:10 +0000
Subject: [PATCH 34/37] fix: integers written with digit separators of the
 global locale

---
 include/zm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/zm.h b/include/zm.h
index aa61bc4..0cd5199 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -404,6 +404,7 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 	std::string toString(int base = 10) const
 	{
 		std::ostringstream os;
+		os.imbue(std::locale::classic()); // no grouping of digits
 		switch (base) {
 		case 10:
 			{
-- 
2.43.0


From d2200bdde43995731f8f16a20ffe754e93a7548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:10 +0000
Subject: [PATCH 35/37] fix: a field width separated the sign of Vsint from its
 digits

---
 include/zm.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 0cd5199..616f0d7 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -1104,8 +1104,7 @@ public:
 	}
 	inline friend std::ostream& operator<<(std::ostream& os, const VsintT& x)
 	{
-		if (x.isNegative()) os << "-";
-		return os << x.v_;
+		return os << x.toString(os.flags() & std::ios_base::hex ? 16 : 10);
 	}
 	inline friend std::istream& operator>>(std::istream& is, VsintT& x)
 	{
-- 
2.43.0


From a2215569323ca698d90b342fc40d9b01ea5d9d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:10 +0000
Subject: [PATCH 36/37] fix: a field width separated the coordinates of a point

---
 include/bn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bn.h b/include/bn.h
index 7f635d5..a5e1c19 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -2941,7 +2941,7 @@ public:
 			return os << '0';
 		} else {
 			const EcT P = self.normalized();
-			return os << P.p[0].toString(16) << '_' << P.p[1].toString(16);
+			return os << P.p[0].toString(16) + '_' + P.p[1].toString(16);
 		}
 	}
 	friend inline std::istream& operator>>(std::istream& is, EcT& self)
-- 
2.43.0


From 0d396f4679a13994d96178415ab4d6379625d6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:54 +0000
Subject: [PATCH 37/37] fix: portable Fp_subC subtracted the modulus instead of
 the second operand

---
 src/zm2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zm2.cpp b/src/zm2.cpp
index 45f7078..7ba45d2 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -92,7 +92,7 @@ static inline void Fp_subC(Fp& out, const Fp& x, const Fp& y)
 	if (a < b) {
 		a = a + p - b;
 	} else {
-		a -= p;
+		a -= b;
 	}
 	Fp::setDirect(out, a);
 }
-- 
2.43.0

