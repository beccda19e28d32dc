From 7a83e241520428bac967db90fe358a3c10245ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 01/55] fix: return *this from FactoredPolynomial assignment
 operators

---
 include/dspbb/Math/Polynomials.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dspbb/Math/Polynomials.hpp b/include/dspbb/Math/Polynomials.hpp
index bdcc2ef..544e15f 100644
--- a/include/dspbb/Math/Polynomials.hpp
+++ b/include/dspbb/Math/Polynomials.hpp
@@ -173,6 +173,7 @@ FactoredPolynomial<T>& FactoredPolynomial<T>::operator=(FactoredPolynomial&& rhs
 	m_complex = { reinterpret_cast<std::complex<T>*>(m_mem.data() + rhs.m_real.size()), rhs.m_complex.size() };
 	rhs.m_real = {};
 	rhs.m_complex = {};
+	return *this;
 }
 
 template <class T>
@@ -180,6 +181,7 @@ FactoredPolynomial<T>& FactoredPolynomial<T>::operator=(const FactoredPolynomial
 	m_mem = rhs.m_mem,
 	m_real = { m_mem.data(), rhs.m_real.size() },
 	m_complex = { reinterpret_cast<std::complex<T>*>(m_mem.data() + rhs.m_real.size()), rhs.m_complex.size() };
+	return *this;
 }
 
 
-- 
2.43.0


From b3fa0f4d406054a269936d8a931584f22ea763b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 02/55] fix: FactoredPolynomial::resize keeps the complex pairs
 when the number of real roots grows

---
 include/dspbb/Math/Polynomials.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Math/Polynomials.hpp b/include/dspbb/Math/Polynomials.hpp
index 544e15f..c64f893 100644
--- a/include/dspbb/Math/Polynomials.hpp
+++ b/include/dspbb/Math/Polynomials.hpp
@@ -222,7 +222,7 @@ void FactoredPolynomial<T>::resize(size_t numRealRoots, size_t numComplexPairs,
 	}
 	m_mem.resize(numCoeffs);
 	if (currentRealRoots < numRealRoots) {
-		std::move_backward(m_mem.begin() + currentRealRoots, m_mem.begin() + (numCoeffs - numRealRoots), m_mem.end());
+		std::move_backward(m_mem.begin() + currentRealRoots, m_mem.end() - (numRealRoots - currentRealRoots), m_mem.end());
 	}
 	m_real = { m_mem.data(), numRealRoots };
 	m_complex = { reinterpret_cast<std::complex<T>*>(m_mem.data() + numRealRoots), numComplexPairs };
-- 
2.43.0


From c2730b3992644533f330d62be3daf41a23760b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 03/55] fix: Interval equality compares the upper bounds

---
 include/dspbb/Utility/Interval.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Utility/Interval.hpp b/include/dspbb/Utility/Interval.hpp
index 8a6cfdf..1bc2422 100644
--- a/include/dspbb/Utility/Interval.hpp
+++ b/include/dspbb/Utility/Interval.hpp
@@ -37,7 +37,7 @@ Interval<T>& operator-=(Interval<T>& lhs, T rhs) {
 
 template <class T>
 bool operator==(const Interval<T>& lhs, const Interval<T>& rhs) {
-	return lhs.first == rhs.first && lhs.last && rhs.last;
+	return lhs.first == rhs.first && lhs.last == rhs.last;
 }
 
 template <class T>
-- 
2.43.0


From 19fb6ba0bc8e1d14c59e06d109417d6bf7a35c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 04/55] fix: Rational multiplied by a negative integer keeps a
 positive denominator

---
 include/dspbb/Math/Rational.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/Math/Rational.hpp b/include/dspbb/Math/Rational.hpp
index b87a102..2e43b60 100644
--- a/include/dspbb/Math/Rational.hpp
+++ b/include/dspbb/Math/Rational.hpp
@@ -61,9 +61,8 @@ constexpr Rational<T> operator-(const Rational<T>& lhs, T rhs) noexcept {
 template <class T>
 constexpr Rational<T> operator*(const Rational<T>& lhs, T rhs) noexcept {
 	const auto simplification = std::gcd(rhs, lhs.Denominator());
-	const auto sign = rhs < 0 ? T(-1) : T(1);
-	return { sign * lhs.Numerator() * (rhs / simplification),
-			 sign * lhs.Denominator() / simplification };
+	return { lhs.Numerator() * (rhs / simplification),
+			 lhs.Denominator() / simplification };
 }
 template <class T>
 constexpr Rational<T> operator/(const Rational<T>& lhs, T rhs) noexcept {
-- 
2.43.0


From 3cbb87289f9ff10527854fdbc604c9c4ebd3b85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 05/55] fix: floor, ceil and frac of negative rationals round
 towards the right infinity

---
 include/dspbb/Math/Rational.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Math/Rational.hpp b/include/dspbb/Math/Rational.hpp
index 2e43b60..16fc423 100644
--- a/include/dspbb/Math/Rational.hpp
+++ b/include/dspbb/Math/Rational.hpp
@@ -313,12 +313,14 @@ constexpr bool operator>=(S lhs, const Rational<T>& rhs) noexcept {
 
 template <class T>
 constexpr T ceil(const Rational<T>& rational) {
-	return (rational.Numerator() + rational.Denominator() - 1) / rational.Denominator();
+	const T quotient = rational.Numerator() / rational.Denominator();
+	return rational.Numerator() % rational.Denominator() > 0 ? quotient + 1 : quotient;
 }
 
 template <class T>
 constexpr T floor(const Rational<T>& rational) {
-	return rational.Numerator() / rational.Denominator();
+	const T quotient = rational.Numerator() / rational.Denominator();
+	return rational.Numerator() % rational.Denominator() < 0 ? quotient - 1 : quotient;
 }
 
 template <class T>
-- 
2.43.0


From 3d89a1519cf1965c75d20ec0444ab2200933f817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:29 +0000
Subject: [PATCH 06/55] fix: out-of-place ShiftResponse writes the centre tap
 of odd filters

---
 include/dspbb/Filtering/FIR/BandTransforms.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dspbb/Filtering/FIR/BandTransforms.hpp b/include/dspbb/Filtering/FIR/BandTransforms.hpp
index 7686214..a46272d 100644
--- a/include/dspbb/Filtering/FIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/FIR/BandTransforms.hpp
@@ -43,6 +43,9 @@ void ShiftResponse(SignalR&& moved, const SignalT& filter, U normalizedFrequency
 		moved[i] = c * filter[i];
 		moved[size - i - 1] = c * filter[size - i - 1];
 	}
+	if (size % 2 == 1) {
+		moved[size / 2] = filter[size / 2];
+	}
 	moved *= typename signal_traits<SignalT>::type(2);
 }
 
-- 
2.43.0


From 98086051e4e93d1e76968a766766e3bc8bed3120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:29 +0000
Subject: [PATCH 07/55] fix: Interpolate writes zero to outputs that no filter
 tap reaches

---
 include/dspbb/Filtering/Resample.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dspbb/Filtering/Resample.hpp b/include/dspbb/Filtering/Resample.hpp
index 8449a26..06f3d72 100644
--- a/include/dspbb/Filtering/Resample.hpp
+++ b/include/dspbb/Filtering/Resample.hpp
@@ -254,6 +254,10 @@ InterpolSuspensionPoint Interpolate(SignalR&& hrOutput,
 			const auto value = DotProduct(lrInputView, lrPhaseView);
 			hrOutput[hrOutputIdx - hrOffset] = value;
 		}
+		else {
+			using R = typename signal_traits<std::decay_t<SignalR>>::type;
+			hrOutput[hrOutputIdx - hrOffset] = R(remove_complex_t<R>(0));
+		}
 	}
 
 	return impl::FindInterpolSuspensionPoint(hrOutputIdx, polyphase.size_original(), polyphase.num_phases());
-- 
2.43.0


From e4378f3dcd114de5d16d7da6d69e2cb4a5c0198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:29 +0000
Subject: [PATCH 08/55] fix: even central moments above the fourth are not
 signed

---
 include/dspbb/Math/Statistics.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/dspbb/Math/Statistics.hpp b/include/dspbb/Math/Statistics.hpp
index 503636e..cf58b1c 100644
--- a/include/dspbb/Math/Statistics.hpp
+++ b/include/dspbb/Math/Statistics.hpp
@@ -87,9 +87,18 @@ auto CentralMoment(const SignalT& signal, size_t k, U mean) {
 		const auto d = a - mean;
 		return d * kernels::math_functions::pow(kernels::math_functions::abs(d), V(T(k) - T(1)));
 	};
+	const auto mgEven = [](const auto& a, auto mean, auto k) {
+		using T = decltype(mean); // Must be a scalar.
+		using V = std::decay_t<decltype(a)>; // May be SIMD vector type.
+		const auto d = a - mean;
+		return kernels::math_functions::pow(kernels::math_functions::abs(d), V(T(k)));
+	};
 
 	const T den = T(signal.size());
 
+	if (k > 4 && k % 2 == 0) {
+		return kernels::TransformReduce(signal.begin(), signal.end(), T(0), add, [mean, mgEven, k](const auto& a) { return mgEven(a, mean, k); }) / den;
+	}
 	switch (k) {
 		case 0: return T(0);
 		case 1: return T(0);
-- 
2.43.0


From 26a39c0606bcee138d8eac6a16fa5759e5094d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:29 +0000
Subject: [PATCH 09/55] fix: OverlapAdd accepts an empty operand, as the state
 of a single tap filter is

---
 include/dspbb/Math/OverlapAdd.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dspbb/Math/OverlapAdd.hpp b/include/dspbb/Math/OverlapAdd.hpp
index 4e18b82..0c3413e 100644
--- a/include/dspbb/Math/OverlapAdd.hpp
+++ b/include/dspbb/Math/OverlapAdd.hpp
@@ -122,6 +122,10 @@ void OverlapAdd(SignalR&& out, const SignalT& u, const SignalU& v, size_t offset
 	if (u.size() < v.size()) {
 		return OverlapAdd(out, v, u, offset, chunkSize, clearOut);
 	}
+	if (v.empty()) {
+		assert(offset + out.size() == 0 && "The convolution with an empty signal is empty.");
+		return;
+	}
 	if (chunkSize == 0) {
 		chunkSize = impl::ola::OptimalPracticalSize(u.size(), v.size());
 	}
-- 
2.43.0


From 98c7ecb4bbd5651177d9ea5adb5b2fbf608fd3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:29 +0000
Subject: [PATCH 10/55] fix: sawtooth, square and PWM waves are periodic for
 negative phases

---
 include/dspbb/Generators/Waveforms.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/dspbb/Generators/Waveforms.hpp b/include/dspbb/Generators/Waveforms.hpp
index 56c715f..94d7885 100644
--- a/include/dspbb/Generators/Waveforms.hpp
+++ b/include/dspbb/Generators/Waveforms.hpp
@@ -4,6 +4,7 @@
 #include "../Utility/Numbers.hpp"
 #include "../Utility/TypeTraits.hpp"
 
+#include <cmath>
 #include <cstdint>
 #include <type_traits>
 
@@ -44,8 +45,7 @@ namespace impl {
 
 	inline double Sawtooth(double phase, double tilt) {
 		constexpr auto pi2 = 2.0 * pi_v<double>;
-		double intpart;
-		const double unitPhase = modf(phase / pi2, &intpart);
+		const double unitPhase = phase / pi2 - std::floor(phase / pi2);
 		const double length = unitPhase > tilt ? (1.0 - tilt) : tilt + std::numeric_limits<double>::denorm_min();
 		const double distance = std::abs(unitPhase - tilt);
 		const double value = 1.0 - distance / length;
@@ -54,8 +54,7 @@ namespace impl {
 
 	inline double Pwm(double phase, double fill) {
 		constexpr auto pi2 = 2.0 * pi_v<double>;
-		double intpart;
-		const double unitPhase = modf(phase / pi2, &intpart);
+		const double unitPhase = phase / pi2 - std::floor(phase / pi2);
 		return double(unitPhase < fill || fill >= 1.0);
 	}
 
-- 
2.43.0


From 1f857524ee8fabea5d4441327e53089a37906d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:29 +0000
Subject: [PATCH 11/55] fix: the least squares grid is at least, not at most,
 as long as the filter

---
 include/dspbb/Filtering/FIR/LeastSquares.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/FIR/LeastSquares.hpp b/include/dspbb/Filtering/FIR/LeastSquares.hpp
index 21b6e39..15e7d0d 100644
--- a/include/dspbb/Filtering/FIR/LeastSquares.hpp
+++ b/include/dspbb/Filtering/FIR/LeastSquares.hpp
@@ -73,7 +73,7 @@ void KernelLeastSquares(SignalR&& coefficients, ResponseFunc responseFunc, Weigh
 	using T = remove_complex_t<R>;
 
 	const size_t filterLength = (coefficients.size() + 1) / 2;
-	gridSize = gridSize == 0 ? 4 * filterLength : std::min(filterLength, gridSize);
+	gridSize = gridSize == 0 ? 4 * filterLength : std::max(filterLength, gridSize);
 
 	const auto coefficientMatrix = impl::CoefficientMatrix<T>(filterLength, gridSize);
 	const auto weightMatrix = impl::WeightMatrix<T>(gridSize, weightFunc);
-- 
2.43.0


From d15a2131bbd4ef01284702979d65cac1e1e6855a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:29 +0000
Subject: [PATCH 12/55] fix: least squares design writes every coefficient of
 even length filters

---
 include/dspbb/Filtering/FIR/LeastSquares.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dspbb/Filtering/FIR/LeastSquares.hpp b/include/dspbb/Filtering/FIR/LeastSquares.hpp
index 15e7d0d..a2a34be 100644
--- a/include/dspbb/Filtering/FIR/LeastSquares.hpp
+++ b/include/dspbb/Filtering/FIR/LeastSquares.hpp
@@ -85,6 +85,9 @@ void KernelLeastSquares(SignalR&& coefficients, ResponseFunc responseFunc, Weigh
 		coefficients[i] = halfFilter(filterLength - i - 1);
 		coefficients[i + filterLength - 1] = halfFilter[i];
 	}
+	for (size_t i = 2 * filterLength - 1; i < coefficients.size(); ++i) {
+		coefficients[i] = R(T(0));
+	}
 }
 
 } // namespace dspbb::fir
\ No newline at end of file
-- 
2.43.0


From a688ed9e80f89a5ad7159c4e0a7f1ae5549fb1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:29 +0000
Subject: [PATCH 13/55] fix: least squares Hilbert design uses the requested
 grid

---
 include/dspbb/Filtering/FIR.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/FIR.hpp b/include/dspbb/Filtering/FIR.hpp
index 5d22050..50cf9a1 100644
--- a/include/dspbb/Filtering/FIR.hpp
+++ b/include/dspbb/Filtering/FIR.hpp
@@ -188,7 +188,7 @@ auto DesignFilter(SignalR&& out, const impl::windowed::HilbertDesc<WindowType>&
 template <class SignalR, class ParamType, std::enable_if_t<is_mutable_signal_v<SignalR>, int> = 0>
 auto DesignFilter(SignalR&& out, const impl::least_squares::HilbertDesc<ParamType>& desc) {
 	const ParamType transitionBand = desc.transitionWidth;
-	const auto halfband = Fir.Lowpass.LeastSquares.Cutoff(ParamType(0.5) - transitionBand, ParamType(0.5) + transitionBand).Weight(1, desc.transitionWeight, 1);
+	const auto halfband = Fir.Lowpass.LeastSquares.Cutoff(ParamType(0.5) - transitionBand, ParamType(0.5) + transitionBand).Weight(1, desc.transitionWeight, 1).Grid(desc.grid);
 	impl::FirFilterHilbert(out, halfband);
 }
 
-- 
2.43.0


From 7cfddf77e418090195b7776d0768d62d0fc89491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:29 +0000
Subject: [PATCH 14/55] fix: FftShift and IfftShift recognize in-place use
 through separate views

---
 include/dspbb/Math/FFT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Math/FFT.hpp b/include/dspbb/Math/FFT.hpp
index 60245a6..def5298 100644
--- a/include/dspbb/Math/FFT.hpp
+++ b/include/dspbb/Math/FFT.hpp
@@ -192,7 +192,7 @@ namespace impl {
 	template <class SignalR, class SignalT, std::enable_if_t<is_same_domain_v<SignalR, SignalT>, int> = 0>
 	void BasicShift(SignalR&& out, const SignalT& in, size_t shift) {
 		assert(out.size() == in.size());
-		if (static_cast<const void*>(std::addressof(out)) == static_cast<const void*>(std::addressof(in))) {
+		if (static_cast<const void*>(out.data()) == static_cast<const void*>(in.data())) {
 			const auto first = out.begin();
 			const auto mid = out.begin() + shift;
 			const auto last = out.end();
-- 
2.43.0


From d9f130d440c5145bf1b8a98250bd0ce7be15f59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:29 +0000
Subject: [PATCH 15/55] fix: IIR band transforms keep the gain of systems with
 more zeros than poles

---
 include/dspbb/Filtering/IIR/BandTransforms.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Filtering/IIR/BandTransforms.hpp b/include/dspbb/Filtering/IIR/BandTransforms.hpp
index 65ebd96..c7faaa7 100644
--- a/include/dspbb/Filtering/IIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/IIR/BandTransforms.hpp
@@ -39,7 +39,7 @@ namespace impl {
 		const auto rgain = [s, a1, a0](const T& p) {
 			return a1 * s - p * a0;
 		};
-		const size_t normGainExponent = system.poles.num_roots() - system.zeros.num_roots();
+		const ptrdiff_t normGainExponent = ptrdiff_t(system.poles.num_roots()) - ptrdiff_t(system.zeros.num_roots());
 		const T normGain = normGainExponent != 0 ? T(std::pow(a0, T(normGainExponent))) : T(1);
 
 		// Do transform
@@ -74,7 +74,7 @@ namespace impl {
 		const auto rgain = [s, a2, a0](const T& p) {
 			return a2 * s - p * a0;
 		};
-		const size_t normGainExponent = system.poles.num_roots() - system.zeros.num_roots();
+		const ptrdiff_t normGainExponent = ptrdiff_t(system.poles.num_roots()) - ptrdiff_t(system.zeros.num_roots());
 		const T normGain = normGainExponent != 0 ? T(std::pow(a0, T(normGainExponent))) : T(1);
 
 		// Do transform
-- 
2.43.0


From 7d63fb4f5f1b057d9956702b378fd6cfd527d709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:29 +0000
Subject: [PATCH 16/55] fix: EllipticArcSN is odd

---
 include/dspbb/Math/EllipticFunctions.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/dspbb/Math/EllipticFunctions.hpp b/include/dspbb/Math/EllipticFunctions.hpp
index 63e2829..2cfc98c 100644
--- a/include/dspbb/Math/EllipticFunctions.hpp
+++ b/include/dspbb/Math/EllipticFunctions.hpp
@@ -234,11 +234,10 @@ auto EllipticDN(T1 x, T2 k) {
 
 template <class T, std::enable_if_t<!is_complex_v<T>, int> = 0>
 T EllipticArcSN(T x, T k) {
-	const auto scale = x * x;
 	const auto a = T(1) - x * x;
 	const auto b = T(1) - k * k * x * x;
 	const auto c = T(1);
-	return std::sqrt(scale) * CarlsonRF(a, b, c);
+	return x * CarlsonRF(a, b, c);
 }
 
 template <class T, std::enable_if_t<!is_complex_v<T>, int> = 0>
@@ -261,11 +260,10 @@ T EllipticArcDN(T x, T k) {
 
 template <class T>
 std::complex<T> EllipticArcSN(std::complex<T> x, T k) {
-	const auto scale = x * x;
 	const auto a = T(1) - x * x;
 	const auto b = T(1) - k * k * x * x;
 	const auto c = T(1);
-	return std::sqrt(scale) * CarlsonRF(a, b, c);
+	return x * CarlsonRF(a, b, c);
 }
 
 template <class T>
-- 
2.43.0


From c87bd70eb420db842713b561ba8371e691272f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:29 +0000
Subject: [PATCH 17/55] fix: CascadedBiquad::order is the order of the system
 it was made from

---
 include/dspbb/LTISystems/Systems.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/LTISystems/Systems.hpp b/include/dspbb/LTISystems/Systems.hpp
index da11bd8..133789a 100644
--- a/include/dspbb/LTISystems/Systems.hpp
+++ b/include/dspbb/LTISystems/Systems.hpp
@@ -130,8 +130,8 @@ T CascadedBiquad<T>::operator()(const T& x) const {
 
 template <class T>
 size_t CascadedBiquad<T>::order() const {
-	size_t numOrder = 1;
-	size_t denOrder = 1;
+	size_t numOrder = 0;
+	size_t denOrder = 0;
 	for (auto& section : sections) {
 		numOrder += section.numOrder;
 		denOrder += section.denOrder;
-- 
2.43.0


From 7c1243fc884f0b912e5d1e199152c23776d441bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:29 +0000
Subject: [PATCH 18/55] fix: CascadedBiquad keeps the gain of systems without
 zeros and poles

---
 include/dspbb/Filtering/IIR/Realizations.hpp | 4 ++--
 include/dspbb/LTISystems/Systems.hpp         | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/Filtering/IIR/Realizations.hpp b/include/dspbb/Filtering/IIR/Realizations.hpp
index 9cbb372..6427400 100644
--- a/include/dspbb/Filtering/IIR/Realizations.hpp
+++ b/include/dspbb/Filtering/IIR/Realizations.hpp
@@ -203,13 +203,13 @@ private:
 
 template <class T>
 CascadedForm<T>::CascadedForm(size_t order) {
-	const size_t numSections = 1 + (order + 1) / 2;
+	const size_t numSections = 1 + std::max(size_t(1), (order + 1) / 2);
 	m_sections.resize(numSections, { T(0), T(0), T(0) });
 }
 
 template <class T>
 void CascadedForm<T>::order(size_t order) {
-	const size_t numSections = 1 + (order + 1) / 2;
+	const size_t numSections = 1 + std::max(size_t(1), (order + 1) / 2);
 	m_sections.resize(numSections, { T(0), T(0), T(0) });
 }
 
diff --git a/include/dspbb/LTISystems/Systems.hpp b/include/dspbb/LTISystems/Systems.hpp
index 133789a..1bd5791 100644
--- a/include/dspbb/LTISystems/Systems.hpp
+++ b/include/dspbb/LTISystems/Systems.hpp
@@ -97,7 +97,7 @@ CascadedBiquad<T>::CascadedBiquad(const ZeroPoleGain<T, eDiscretization::DISCRET
 	std::sort(zeroPolys.begin(), zeroPolys.end(), polyAscending);
 	std::sort(polePolys.begin(), polePolys.end(), polyAscending);
 
-	const size_t numSections = std::max(zeroPolys.size(), polePolys.size());
+	const size_t numSections = std::max({ zeroPolys.size(), polePolys.size(), size_t(1) }); // At least one for the gain.
 	sections.resize(numSections);
 	for (size_t i = 0; i < zeroPolys.size(); ++i) {
 		sections[i].numerator = zeroPolys[i].second;
-- 
2.43.0


From fc3f3884a2ac0e1c12d282d0212b92d1da7b0dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 19/55] fix: Arg of zero is zero in vectorized lanes too

---
 include/dspbb/Kernels/Math.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/dspbb/Kernels/Math.hpp b/include/dspbb/Kernels/Math.hpp
index 2cc1f25..99a5816 100644
--- a/include/dspbb/Kernels/Math.hpp
+++ b/include/dspbb/Kernels/Math.hpp
@@ -69,10 +69,17 @@ using std::imag;
 using std::real;
 
 using xsimd::abs;
-using xsimd::arg;
 using xsimd::imag;
 using xsimd::real;
 
+template <class T, class Arch>
+auto arg(const xsimd::batch<T, Arch>& v) {
+	// The phase of zero is zero, but xsimd's quadrant logic gives NaN for it.
+	const auto phase = xsimd::arg(v);
+	using R = std::decay_t<decltype(phase)>;
+	return xsimd::select(xsimd::real(v) == R(0) && xsimd::imag(v) == R(0), R(0), phase);
+}
+
 using std::conj;
 using xsimd::conj;
 
-- 
2.43.0


From 7c4ddcb228aed0de655c5e9627e75b31db75668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 20/55] fix: single precision LGamma does not depend on
 neighbouring samples

---
 include/dspbb/Kernels/Math.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/dspbb/Kernels/Math.hpp b/include/dspbb/Kernels/Math.hpp
index 99a5816..a0ee698 100644
--- a/include/dspbb/Kernels/Math.hpp
+++ b/include/dspbb/Kernels/Math.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <array>
 #include <cmath>
 #ifdef _MSC_VER
 	#pragma warning(push)
@@ -94,6 +95,17 @@ using xsimd::erfc;
 using xsimd::lgamma;
 using xsimd::tgamma;
 
+template <class Arch>
+auto lgamma(const xsimd::batch<float, Arch>& v) {
+	// xsimd's single precision lgamma gives wrong results for lanes when another lane is close to one.
+	alignas(alignof(xsimd::batch<float, Arch>)) std::array<float, xsimd::batch<float, Arch>::size> lanes;
+	v.store_aligned(lanes.data());
+	for (auto& lane : lanes) {
+		lane = std::lgamma(lane);
+	}
+	return xsimd::batch<float, Arch>::load_aligned(lanes.data());
+}
+
 // FMA
 namespace impl {
 	template <class V, std::enable_if_t<xsimd::is_batch<V>::value && std::is_scalar_v<typename xsimd::revert_simd_traits<V>::value_type>, int> = 0>
-- 
2.43.0


From 67ae66f7a5a9822fa49bb2913bf4f0db2d7a7a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 21/55] fix: DirectFormII normalizes the recursive part by the
 leading denominator coefficient

---
 include/dspbb/Filtering/IIR/Realizations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/IIR/Realizations.hpp b/include/dspbb/Filtering/IIR/Realizations.hpp
index 6427400..6cb1551 100644
--- a/include/dspbb/Filtering/IIR/Realizations.hpp
+++ b/include/dspbb/Filtering/IIR/Realizations.hpp
@@ -167,7 +167,7 @@ void DirectFormII<T>::feed(InIter first, InIter last, OutIter outFirst, const Di
 
 	while (first != last) {
 		const auto input = *first++;
-		const auto stateNext = input * normalization - std::inner_product(recSec.begin(), recSec.end(), stateRecView.begin(), T(0));
+		const auto stateNext = (static_cast<T>(input) - std::inner_product(recSec.begin(), recSec.end(), stateRecView.begin(), T(0))) * normalization;
 		std::move(++m_state.begin(), m_state.end(), m_state.begin());
 		*m_state.rbegin() = static_cast<T>(stateNext);
 		const auto output = static_cast<T>(std::inner_product(fwFull.begin(), fwFull.end(), stateFwView.begin(), T(0)));
-- 
2.43.0


From 00ceacabe9cf9b1c80699313810cbb0c6c319b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:36 +0000
Subject: [PATCH 22/55] fix: Carlson's integral takes square roots on the
 principal branch for complex arguments

---
 include/dspbb/Math/EllipticFunctions.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dspbb/Math/EllipticFunctions.hpp b/include/dspbb/Math/EllipticFunctions.hpp
index 2cfc98c..41dcb27 100644
--- a/include/dspbb/Math/EllipticFunctions.hpp
+++ b/include/dspbb/Math/EllipticFunctions.hpp
@@ -41,11 +41,11 @@ T CarlsonRF(T x, T y, T z) {
 	T lambdan = T(0);
 
 	while (Qn > std::abs(An)) {
-		const auto lambdan2 = lambdan * lambdan;
-		const auto l1 = std::sqrt(x * y + (x + y) * lambdan + lambdan2);
-		const auto l2 = std::sqrt(x * z + (x + z) * lambdan + lambdan2);
-		const auto l3 = std::sqrt(z * y + (z + y) * lambdan + lambdan2);
-		lambdan += l1 + l2 + l3;
+		// The product of the roots stays on the principal branch for complex arguments, the root of the product doesn't.
+		const auto xRoot = std::sqrt(x + lambdan);
+		const auto yRoot = std::sqrt(y + lambdan);
+		const auto zRoot = std::sqrt(z + lambdan);
+		lambdan += xRoot * yRoot + xRoot * zRoot + yRoot * zRoot;
 		x /= S(4);
 		y /= S(4);
 		z /= S(4);
-- 
2.43.0


From 8eafa8320c381cf2d7525a4809c220dc1c3621c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 23/55] fix: Halfband2Highpass is finite when the cutoff is
 half the Nyquist frequency

---
 include/dspbb/Filtering/IIR/BandTransforms.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Filtering/IIR/BandTransforms.hpp b/include/dspbb/Filtering/IIR/BandTransforms.hpp
index c7faaa7..7bcc553 100644
--- a/include/dspbb/Filtering/IIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/IIR/BandTransforms.hpp
@@ -104,8 +104,8 @@ DiscreteZeroPoleGain<T> Halfband2Highpass(const DiscreteZeroPoleGain<T>& system,
 	const T w = to * pi_v<T>;
 
 	const T s = -T(1);
-	const T a1 = std::cos(w) / (-1 + std::sin(w));
-	const T a0 = 1;
+	const T a1 = -(1 + std::sin(w));
+	const T a0 = std::cos(w);
 
 	return impl::MapZDomain(system, s, a0, a1);
 }
-- 
2.43.0


From 6b737accd657b7ea82bccf4ec0d37365ad7f3c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 24/55] fix: Halfband2Bandpass is finite when the band is half
 the Nyquist range wide

---
 include/dspbb/Filtering/IIR/BandTransforms.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/Filtering/IIR/BandTransforms.hpp b/include/dspbb/Filtering/IIR/BandTransforms.hpp
index 7bcc553..7fc53e7 100644
--- a/include/dspbb/Filtering/IIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/IIR/BandTransforms.hpp
@@ -116,9 +116,9 @@ DiscreteZeroPoleGain<T> Halfband2Bandpass(const DiscreteZeroPoleGain<T>& system,
 	const T w2 = to2 * pi_v<T>;
 
 	const T s = -T(1);
-	const T a2 = -1 + 2 / (1 + std::tan((w1 - w2) / 2));
-	const T a1 = -((std::cos(w1) + std::cos(w2) + std::sin(w1) - std::sin(w2)) / (1 + std::sin(w1 - w2)));
-	const T a0 = 1;
+	const T a2 = std::cos((w2 - w1) / 2) + std::sin((w2 - w1) / 2);
+	const T a1 = -2 * std::cos((w1 + w2) / 2);
+	const T a0 = std::cos((w2 - w1) / 2) - std::sin((w2 - w1) / 2);
 
 	return impl::MapZDomain(system, s, a0, a1, a2);
 }
-- 
2.43.0


From 6eac6c6afbfc953315f622e77533bed68962425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 25/55] fix: windowed FIR designs accept a zero cutoff or
 bandwidth

---
 include/dspbb/Filtering/FIR/Windowed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Filtering/FIR/Windowed.hpp b/include/dspbb/Filtering/FIR/Windowed.hpp
index c214d34..07f69d6 100644
--- a/include/dspbb/Filtering/FIR/Windowed.hpp
+++ b/include/dspbb/Filtering/FIR/Windowed.hpp
@@ -21,7 +21,7 @@ void KernelWindowedLowpass(SignalR&& coefficients, U cutoffNorm, WindowFunc wind
 	windowFunc(coefficients);
 	for (size_t i = 0; i < size / 2; ++i) {
 		const T x = (T(i) - offset) * scale;
-		const T sinc = std::sin(x) / x;
+		const T sinc = x != T(0) ? std::sin(x) / x : T(1);
 		coefficients[i] *= sinc;
 		coefficients[size - i - 1] *= sinc;
 	}
@@ -40,7 +40,7 @@ void KernelWindowedLowpass(SignalR&& coefficients, U cutoffNorm, const SignalW&
 	const size_t size = coefficients.size();
 	for (size_t i = 0; i < size / 2; ++i) {
 		const T x = (T(i) - offset) * scale;
-		const T sinc = std::sin(x) / x;
+		const T sinc = x != T(0) ? std::sin(x) / x : T(1);
 		coefficients[i] = sinc;
 		coefficients[size - i - 1] = sinc;
 	}
-- 
2.43.0


From eed37c2165aa6728c56a40275155246df8ac067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 26/55] fix: least squares FIR designs with zero-width
 transitions are not inverted

---
 include/dspbb/Filtering/FIR.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/Filtering/FIR.hpp b/include/dspbb/Filtering/FIR.hpp
index 50cf9a1..49fef63 100644
--- a/include/dspbb/Filtering/FIR.hpp
+++ b/include/dspbb/Filtering/FIR.hpp
@@ -65,6 +65,9 @@ namespace impl {
 
 	template <class T>
 	T LerpParam(T x, T lower, T upper) {
+		if (lower == upper) {
+			return x <= lower ? T(0) : T(1);
+		}
 		return (x - lower) / (upper - lower);
 	}
 
@@ -101,7 +104,7 @@ template <class SignalR, class ParamType, std::enable_if_t<is_mutable_signal_v<S
 auto DesignFilter(SignalR&& out, const impl::least_squares::LowpassDesc<ParamType>& desc) {
 	const auto response = [desc](auto f) {
 		using F = std::decay_t<decltype(f)>;
-		return impl::Smoothstep(impl::LerpParam(f, F(desc.cutoffEnd), F(desc.cutoffBegin)));
+		return F(1) - impl::Smoothstep(impl::LerpParam(f, F(desc.cutoffBegin), F(desc.cutoffEnd)));
 	};
 	const auto weight = [desc](auto f) {
 		return impl::LeastSquaresSplitWeight(f, desc);
@@ -127,7 +130,7 @@ auto DesignFilter(SignalR&& out, const impl::least_squares::BandpassDesc<ParamTy
 	const auto response = [desc, fmid](auto f) {
 		using F = std::decay_t<decltype(f)>;
 		return f < fmid ? impl::Smoothstep(impl::LerpParam(f, F(desc.lowerBegin), F(desc.lowerEnd)))
-						: impl::Smoothstep(impl::LerpParam(f, F(desc.upperEnd), F(desc.upperBegin)));
+						: F(1) - impl::Smoothstep(impl::LerpParam(f, F(desc.upperBegin), F(desc.upperEnd)));
 	};
 	const auto weight = [desc](auto f) {
 		return impl::LeastSquaresBandWeight(f, desc);
@@ -140,7 +143,7 @@ auto DesignFilter(SignalR&& out, const impl::least_squares::BandstopDesc<ParamTy
 	const ParamType fmid = (desc.lowerEnd + desc.upperBegin) / ParamType(2);
 	const auto response = [desc, fmid](auto f) {
 		using F = std::decay_t<decltype(f)>;
-		return f < fmid ? impl::Smoothstep(impl::LerpParam(f, F(desc.lowerEnd), F(desc.lowerBegin)))
+		return f < fmid ? F(1) - impl::Smoothstep(impl::LerpParam(f, F(desc.lowerBegin), F(desc.lowerEnd)))
 						: impl::Smoothstep(impl::LerpParam(f, F(desc.upperBegin), F(desc.upperEnd)));
 	};
 	const auto weight = [desc](auto f) {
-- 
2.43.0


From 9d829a78805d7ea85d8865683050d6a022efecfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 27/55] fix: Chebyshev I gain for orders above 32

The leading coefficient of the Chebyshev polynomial was shifted out of an
unsigned int.
---
 include/dspbb/Filtering/IIR/Chebyshev.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/IIR/Chebyshev.hpp b/include/dspbb/Filtering/IIR/Chebyshev.hpp
index 773cf08..fd258ab 100644
--- a/include/dspbb/Filtering/IIR/Chebyshev.hpp
+++ b/include/dspbb/Filtering/IIR/Chebyshev.hpp
@@ -34,7 +34,7 @@ namespace impl {
 template <class T>
 ZeroPoleGain<T, eDiscretization::CONTINUOUS> Chebyshev1(size_t order, T ripple) {
 	const T epsilon = std::sqrt(T(1) / std::pow(T(1) - ripple, T(2)) - 1);
-	const T gain = T(1) / (T(1u << (order - 1)) * epsilon);
+	const T gain = T(1) / (std::ldexp(T(1), int(order) - 1) * epsilon);
 
 	FactoredPolynomial<T> poles;
 	poles.resize(order % 2, order / 2);
-- 
2.43.0


From e71d65119056fffdf5a61b08c721f7c04cea15dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 28/55] fix: Hilbert designs compile when only FIR.hpp is
 included

---
 include/dspbb/Filtering/FIR.hpp       | 5 ++++-
 include/dspbb/Filtering/Polyphase.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/Filtering/FIR.hpp b/include/dspbb/Filtering/FIR.hpp
index 49fef63..e0a8ba3 100644
--- a/include/dspbb/Filtering/FIR.hpp
+++ b/include/dspbb/Filtering/FIR.hpp
@@ -208,4 +208,7 @@ auto DesignFilter(size_t taps, ResponseDesc responseDesc) {
 }
 
 
-} // namespace dspbb
\ No newline at end of file
+} // namespace dspbb
+
+// The Hilbert band transforms decimate, and resampling in turn uses this header: it has to come after the definitions above.
+#include "Resample.hpp"
diff --git a/include/dspbb/Filtering/Polyphase.hpp b/include/dspbb/Filtering/Polyphase.hpp
index 1cd85b6..12ad917 100644
--- a/include/dspbb/Filtering/Polyphase.hpp
+++ b/include/dspbb/Filtering/Polyphase.hpp
@@ -3,7 +3,6 @@
 #include "../Math/Statistics.hpp"
 #include "../Primitives/Signal.hpp"
 #include "../Primitives/SignalView.hpp"
-#include "FIR.hpp"
 
 
 namespace dspbb {
@@ -134,4 +133,7 @@ auto PolyphaseDecompose(const SignalT& filter, size_t numFilters) {
 }
 
 
-} // namespace dspbb
\ No newline at end of file
+} // namespace dspbb
+
+// FIR.hpp refers back to resampling, which uses the definitions above.
+#include "FIR.hpp"
-- 
2.43.0


From 0e81f72e2b67df31463f3ecc13f9c28fc6467b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 29/55] fix: Solvers.hpp includes what it uses

---
 include/dspbb/Math/Solvers.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dspbb/Math/Solvers.hpp b/include/dspbb/Math/Solvers.hpp
index 195b148..8622664 100644
--- a/include/dspbb/Math/Solvers.hpp
+++ b/include/dspbb/Math/Solvers.hpp
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <cmath>
+#include <limits>
+
 namespace dspbb {
 
 template <class Func, class T>
-- 
2.43.0


From 5cbaea8274ad14d6e00e2494c4ff56e0bea1d086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 30/55] fix: LeastSquares.hpp includes what it uses

---
 include/dspbb/Filtering/FIR/LeastSquares.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dspbb/Filtering/FIR/LeastSquares.hpp b/include/dspbb/Filtering/FIR/LeastSquares.hpp
index a2a34be..3e282e4 100644
--- a/include/dspbb/Filtering/FIR/LeastSquares.hpp
+++ b/include/dspbb/Filtering/FIR/LeastSquares.hpp
@@ -2,6 +2,7 @@
 
 #include "../../Primitives/SignalTraits.hpp"
 #include "../../Utility/Numbers.hpp"
+#include "../../Utility/TypeTraits.hpp"
 
 #include <Eigen/Dense>
 #include <Eigen/QR>
-- 
2.43.0


From 10f7144f5087a23a1aeaa64fbba7694e84003c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 31/55] fix: Pow of a view

---
 include/dspbb/Math/Functions.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dspbb/Math/Functions.hpp b/include/dspbb/Math/Functions.hpp
index 4ed4d44..eed114b 100644
--- a/include/dspbb/Math/Functions.hpp
+++ b/include/dspbb/Math/Functions.hpp
@@ -62,7 +62,9 @@ auto Pow(SignalT&& out, const SignalU& in, typename signal_traits<std::decay_t<S
 }
 template <class SignalT, std::enable_if_t<is_signal_like_v<std::decay_t<SignalT>>, int> = 0>
 auto Pow(const SignalT& signal, typename signal_traits<std::decay_t<SignalT>>::type power) {
-	SignalT r(signal.size());
+	using R = std::remove_const_t<typename signal_traits<std::decay_t<SignalT>>::type>;
+	constexpr auto domain = signal_traits<std::decay_t<SignalT>>::domain;
+	BasicSignal<R, domain> r(signal.size());
 	Pow(r, signal, power);
 	return r;
 }
-- 
2.43.0


From 7a8c07cf8e800e239e667ad4727b45343a3e4610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 32/55] fix: typed compensated addition does not assign to its
 constant operand

---
 include/dspbb/Kernels/Functors.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/dspbb/Kernels/Functors.hpp b/include/dspbb/Kernels/Functors.hpp
index 4eb3a05..ccd6190 100644
--- a/include/dspbb/Kernels/Functors.hpp
+++ b/include/dspbb/Kernels/Functors.hpp
@@ -40,8 +40,7 @@ struct plus_compensated : compensated_operator_tag {
 		const T y = item - carry;
 		const T t = sum + y;
 		carry = (t - sum) - y;
-		sum = t;
-		return sum;
+		return t;
 	}
 };
 
-- 
2.43.0


From d2e537a0a942bf7a8a426a20d33a3cac2884ce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 33/55] fix: FIR filtering compiles when IIR.hpp is included
 too

---
 include/dspbb/Filtering/IIR/Filter.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dspbb/Filtering/IIR/Filter.hpp b/include/dspbb/Filtering/IIR/Filter.hpp
index e29596f..6c7267d 100644
--- a/include/dspbb/Filtering/IIR/Filter.hpp
+++ b/include/dspbb/Filtering/IIR/Filter.hpp
@@ -8,7 +8,7 @@ namespace dspbb {
 
 namespace impl {
 	template <class SignalR, class SignalT, class System, class State, std::enable_if_t<is_mutable_signal_v<SignalR> && is_same_domain_v<SignalR, SignalT>, int> = 0>
-	auto Filter(SignalR&& out, const SignalT& signal, const System& filter, State& state) {
+	auto FeedFilter(SignalR&& out, const SignalT& signal, const System& filter, State& state) {
 		assert(out.size() == signal.size());
 		state.feed(signal.begin(), signal.end(), out.begin(), filter);
 	}
@@ -16,17 +16,17 @@ namespace impl {
 
 template <class SignalR, class SignalT, class T, class U, std::enable_if_t<is_mutable_signal_v<SignalR> && is_same_domain_v<SignalR, SignalT>, int> = 0>
 auto Filter(SignalR&& out, const SignalT& signal, const DiscreteTransferFunction<U>& filter, DirectFormI<T>& state) {
-	impl::Filter(out, signal, filter, state);
+	impl::FeedFilter(out, signal, filter, state);
 }
 
 template <class SignalR, class SignalT, class T, class U, std::enable_if_t<is_mutable_signal_v<SignalR> && is_same_domain_v<SignalR, SignalT>, int> = 0>
 auto Filter(SignalR&& out, const SignalT& signal, const DiscreteTransferFunction<U>& filter, DirectFormII<T>& state) {
-	impl::Filter(out, signal, filter, state);
+	impl::FeedFilter(out, signal, filter, state);
 }
 
 template <class SignalR, class SignalT, class T, class U, std::enable_if_t<is_mutable_signal_v<SignalR> && is_same_domain_v<SignalR, SignalT>, int> = 0>
 auto Filter(SignalR&& out, const SignalT& signal, const CascadedBiquad<U>& filter, CascadedForm<T>& state) {
-	impl::Filter(out, signal, filter, state);
+	impl::FeedFilter(out, signal, filter, state);
 }
 
 template <class SignalT, class T, class U>
-- 
2.43.0


From 75565d622981a81e0982aaa6d2c440ef16b1feb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 34/55] fix: IIR filtering of a view

---
 include/dspbb/Filtering/IIR/Filter.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/Filtering/IIR/Filter.hpp b/include/dspbb/Filtering/IIR/Filter.hpp
index 6c7267d..f80d098 100644
--- a/include/dspbb/Filtering/IIR/Filter.hpp
+++ b/include/dspbb/Filtering/IIR/Filter.hpp
@@ -31,21 +31,21 @@ auto Filter(SignalR&& out, const SignalT& signal, const CascadedBiquad<U>& filte
 
 template <class SignalT, class T, class U>
 auto Filter(const SignalT& signal, const DiscreteTransferFunction<U>& filter, DirectFormI<T>& state) {
-	SignalT out(signal.size());
+	BasicSignal<std::remove_const_t<typename signal_traits<SignalT>::type>, signal_traits<SignalT>::domain> out(signal.size());
 	Filter(out, signal, filter, state);
 	return out;
 }
 
 template <class SignalT, class T, class U>
 auto Filter(const SignalT& signal, const DiscreteTransferFunction<U>& filter, DirectFormII<T>& state) {
-	SignalT out(signal.size());
+	BasicSignal<std::remove_const_t<typename signal_traits<SignalT>::type>, signal_traits<SignalT>::domain> out(signal.size());
 	Filter(out, signal, filter, state);
 	return out;
 }
 
 template <class SignalT, class T, class U>
 auto Filter(const SignalT& signal, const CascadedBiquad<U>& filter, CascadedForm<T>& state) {
-	SignalT out(signal.size());
+	BasicSignal<std::remove_const_t<typename signal_traits<SignalT>::type>, signal_traits<SignalT>::domain> out(signal.size());
 	Filter(out, signal, filter, state);
 	return out;
 }
-- 
2.43.0


From 058035d684ad8a23967bdf3424e35f0c5b2f0a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 35/55] fix: Fourier transforms of mutable views

---
 include/dspbb/Math/FFT.hpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/dspbb/Math/FFT.hpp b/include/dspbb/Math/FFT.hpp
index def5298..56a2cb7 100644
--- a/include/dspbb/Math/FFT.hpp
+++ b/include/dspbb/Math/FFT.hpp
@@ -135,44 +135,44 @@ using impl::FFT_FULL;
 using impl::FFT_HALF;
 
 template <class SignalR, class SignalT>
-auto Fft(SignalR&& out, const SignalT& in) -> decltype(impl::Fft(AsView(out), AsView(in))) {
-	return impl::Fft(AsView(out), AsView(in));
+auto Fft(SignalR&& out, const SignalT& in) -> decltype(impl::Fft(AsView(out), AsConstView(in))) {
+	return impl::Fft(AsView(out), AsConstView(in));
 }
 
 template <class SignalR, class SignalT>
-auto Ifft(SignalR&& out, const SignalT& in) -> decltype(impl::Ifft(AsView(out), AsView(in))) {
-	return impl::Ifft(AsView(out), AsView(in));
+auto Ifft(SignalR&& out, const SignalT& in) -> decltype(impl::Ifft(AsView(out), AsConstView(in))) {
+	return impl::Ifft(AsView(out), AsConstView(in));
 }
 
 
 template <class SignalT>
-auto Fft(const SignalT& in, impl::FftFull) -> decltype(impl::Fft(AsView(in), FFT_FULL)) {
-	return impl::Fft(AsView(in), FFT_FULL);
+auto Fft(const SignalT& in, impl::FftFull) -> decltype(impl::Fft(AsConstView(in), FFT_FULL)) {
+	return impl::Fft(AsConstView(in), FFT_FULL);
 }
 
 template <class SignalT>
-auto Fft(const SignalT& in, impl::FftHalf) -> decltype(impl::Fft(AsView(in), FFT_HALF)) {
-	return impl::Fft(AsView(in), FFT_HALF);
+auto Fft(const SignalT& in, impl::FftHalf) -> decltype(impl::Fft(AsConstView(in), FFT_HALF)) {
+	return impl::Fft(AsConstView(in), FFT_HALF);
 }
 
 template <class SignalT>
-auto Fft(const SignalT& in) -> decltype(impl::Fft(AsView(in))) {
-	return impl::Fft(AsView(in));
+auto Fft(const SignalT& in) -> decltype(impl::Fft(AsConstView(in))) {
+	return impl::Fft(AsConstView(in));
 }
 
 template <class SignalT>
-auto Ifft(const SignalT& in, impl::FftFull) -> decltype(impl::Ifft(AsView(in), FFT_FULL)) {
-	return impl::Ifft(AsView(in), FFT_FULL);
+auto Ifft(const SignalT& in, impl::FftFull) -> decltype(impl::Ifft(AsConstView(in), FFT_FULL)) {
+	return impl::Ifft(AsConstView(in), FFT_FULL);
 }
 
 template <class SignalT>
-auto Ifft(const SignalT& in, impl::FftHalf, bool even) -> decltype(impl::Ifft(AsView(in), FFT_HALF, even)) {
-	return impl::Ifft(AsView(in), FFT_HALF, even);
+auto Ifft(const SignalT& in, impl::FftHalf, bool even) -> decltype(impl::Ifft(AsConstView(in), FFT_HALF, even)) {
+	return impl::Ifft(AsConstView(in), FFT_HALF, even);
 }
 
 template <class SignalT>
-auto Ifft(const SignalT& in) -> decltype(impl::Ifft(AsView(in))) {
-	return impl::Ifft(AsView(in));
+auto Ifft(const SignalT& in) -> decltype(impl::Ifft(AsConstView(in))) {
+	return impl::Ifft(AsConstView(in));
 }
 
 
-- 
2.43.0


From a8219cbfd5b1737b708736e17eb7b7234815bf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 36/55] fix: frequency response of a mutable view

---
 include/dspbb/Filtering/MeasureFilter.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/dspbb/Filtering/MeasureFilter.hpp b/include/dspbb/Filtering/MeasureFilter.hpp
index 50fb9b7..50d217e 100644
--- a/include/dspbb/Filtering/MeasureFilter.hpp
+++ b/include/dspbb/Filtering/MeasureFilter.hpp
@@ -462,6 +462,11 @@ auto FrequencyResponse(const BasicSignal<T, TIME_DOMAIN>& impulse, size_t gridSi
 	return FrequencyResponse(AsView(impulse), gridSizeHint);
 }
 
+template <class T>
+auto FrequencyResponse(const BasicSignalView<T, TIME_DOMAIN>& impulse, size_t gridSizeHint = 0) {
+	return FrequencyResponse(AsConstView(impulse), gridSizeHint);
+}
+
 
 namespace impl {
 
-- 
2.43.0


From 26c6ff05ee7c0e92bee66a77d6882812ace0dac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 37/55] fix: polyphase decomposition of a constant view

---
 include/dspbb/Filtering/Polyphase.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/Polyphase.hpp b/include/dspbb/Filtering/Polyphase.hpp
index 12ad917..9f1db70 100644
--- a/include/dspbb/Filtering/Polyphase.hpp
+++ b/include/dspbb/Filtering/Polyphase.hpp
@@ -123,7 +123,7 @@ auto PolyphaseDecompose(SignalR&& output, const SignalT& filter, size_t numFilte
 
 template <class SignalT>
 auto PolyphaseDecompose(const SignalT& filter, size_t numFilters) {
-	using R = typename signal_traits<std::decay_t<SignalT>>::type;
+	using R = std::remove_const_t<typename signal_traits<std::decay_t<SignalT>>::type>;
 	constexpr auto Domain = signal_traits<std::decay_t<SignalT>>::domain;
 	PolyphaseFilter<R, Domain> polyphase{ filter.size(), numFilters };
 
-- 
2.43.0


From b81ed0915d8adfb6816068ac888a014b2b872a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:10 +0000
Subject: [PATCH 38/55] fix: FIR band transforms of constant views and mixed
 sample types

---
 include/dspbb/Filtering/FIR/BandTransforms.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/Filtering/FIR/BandTransforms.hpp b/include/dspbb/Filtering/FIR/BandTransforms.hpp
index a46272d..302edad 100644
--- a/include/dspbb/Filtering/FIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/FIR/BandTransforms.hpp
@@ -15,7 +15,7 @@ template <class SignalR, class SignalT, std::enable_if_t<is_mutable_signal_v<Sig
 void MirrorResponse(SignalR&& mirrored, const SignalT& filter) {
 	assert(mirrored.size() == filter.size());
 	using R = typename signal_traits<std::decay_t<SignalR>>::type;
-	using T = typename signal_traits<std::decay_t<SignalT>>::type;
+	using T = std::remove_const_t<typename signal_traits<std::decay_t<SignalT>>::type>;
 	T sign = T(1);
 	for (size_t i = 0; i < filter.size(); ++i, sign *= T(-1)) {
 		mirrored[i] = R(sign * filter[i]);
@@ -109,7 +109,7 @@ void HalfbandToHilbertEven(SignalR& out, const SignalT& halfband) {
 
 	using impl::kernelSize;
 	using R = typename std::decay_t<SignalR>::value_type;
-	using T = typename std::decay_t<SignalT>::value_type;
+	using T = std::remove_const_t<typename std::decay_t<SignalT>::value_type>;
 	constexpr auto Domain = signal_traits<std::decay_t<SignalR>>::domain;
 	constexpr size_t kernelCenter = kernelSize / 2 - 1;
 	constexpr size_t maxSizeSingleStep = kernelSize - 1;
@@ -133,7 +133,7 @@ void HalfbandToHilbertEven(SignalR& out, const SignalT& halfband) {
 		Multiply(scratch.subsignal(0, tap),
 				 BasicSignalView<const T, Domain>{ halfband.data(), tap },
 				 kernel.subsignal(kernelSize - tap));
-		Decimate(BasicSignalView<T, Domain>(out.begin(), (tap + 1) / 2), scratch.subsignal(0, tap), 2);
+		Decimate(BasicSignalView<R, Domain>(out.begin(), (tap + 1) / 2), scratch.subsignal(0, tap), 2);
 
 		for (; tap + kernelSize < filterSize; tap += kernelSize) {
 			Multiply(scratch,
-- 
2.43.0


From 4b60b812ce3d091171759b309ec0b1d3529cfb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 39/55] fix: EllipticFunctions.hpp includes what it uses

---
 include/dspbb/Math/EllipticFunctions.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dspbb/Math/EllipticFunctions.hpp b/include/dspbb/Math/EllipticFunctions.hpp
index 41dcb27..ba4f7aa 100644
--- a/include/dspbb/Math/EllipticFunctions.hpp
+++ b/include/dspbb/Math/EllipticFunctions.hpp
@@ -4,7 +4,9 @@
 #include "../Utility/Numbers.hpp"
 #include "../Utility/TypeTraits.hpp"
 
+#include <algorithm>
 #include <array>
+#include <cassert>
 #include <cmath>
 #include <complex>
 #include <limits>
-- 
2.43.0


From 9fa3a94141d1bb430dc0b13e186a5ede7e9e4e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 40/55] fix: FftShift and IfftShift of a view

---
 include/dspbb/Math/FFT.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/dspbb/Math/FFT.hpp b/include/dspbb/Math/FFT.hpp
index 56a2cb7..6f23a79 100644
--- a/include/dspbb/Math/FFT.hpp
+++ b/include/dspbb/Math/FFT.hpp
@@ -215,8 +215,9 @@ void FftShift(SignalR&& out, const SignalT& in) {
 }
 
 template <class SignalT, std::enable_if_t<is_signal_like_v<SignalT>, int> = 0>
-SignalT FftShift(const SignalT& in) {
-	SignalT out(in.size());
+auto FftShift(const SignalT& in) {
+	using T = std::remove_const_t<typename signal_traits<SignalT>::type>;
+	BasicSignal<T, signal_traits<SignalT>::domain> out(in.size());
 	FftShift(out, in);
 	return out;
 }
@@ -228,8 +229,9 @@ void IfftShift(SignalR&& out, const SignalT& in) {
 }
 
 template <class SignalT, std::enable_if_t<is_signal_like_v<SignalT>, int> = 0>
-SignalT IfftShift(const SignalT& in) {
-	SignalT out(in.size());
+auto IfftShift(const SignalT& in) {
+	using T = std::remove_const_t<typename signal_traits<SignalT>::type>;
+	BasicSignal<T, signal_traits<SignalT>::domain> out(in.size());
 	IfftShift(out, in);
 	return out;
 }
-- 
2.43.0


From e56eb3d7a583204eafb558dc412328719cacba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 41/55] fix: measuring filters by a mutable view of the
 response

---
 include/dspbb/Filtering/MeasureFilter.hpp | 26 +++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/dspbb/Filtering/MeasureFilter.hpp b/include/dspbb/Filtering/MeasureFilter.hpp
index 50d217e..ceeb71b 100644
--- a/include/dspbb/Filtering/MeasureFilter.hpp
+++ b/include/dspbb/Filtering/MeasureFilter.hpp
@@ -409,6 +409,32 @@ FilterParameters<T> MeasureFilter(const SpectrumView<const T>& response) {
 }
 
 
+template <class T, std::enable_if_t<!std::is_const_v<T>, int> = 0>
+LowpassParameters<T> MeasureLowpassFilter(const SpectrumView<T>& response) {
+	return MeasureLowpassFilter(AsConstView(response));
+}
+
+template <class T, std::enable_if_t<!std::is_const_v<T>, int> = 0>
+HighpassParameters<T> MeasureHighpassFilter(const SpectrumView<T>& response) {
+	return MeasureHighpassFilter(AsConstView(response));
+}
+
+template <class T, std::enable_if_t<!std::is_const_v<T>, int> = 0>
+BandpassParameters<T> MeasureBandpassFilter(const SpectrumView<T>& response) {
+	return MeasureBandpassFilter(AsConstView(response));
+}
+
+template <class T, std::enable_if_t<!std::is_const_v<T>, int> = 0>
+BandstopParameters<T> MeasureBandstopFilter(const SpectrumView<T>& response) {
+	return MeasureBandstopFilter(AsConstView(response));
+}
+
+template <class T, std::enable_if_t<!std::is_const_v<T>, int> = 0>
+FilterParameters<T> MeasureFilter(const SpectrumView<T>& response) {
+	return MeasureFilter(AsConstView(response));
+}
+
+
 template <class T>
 LowpassParameters<T> MeasureLowpassFilter(const Spectrum<T>& response) {
 	return MeasureLowpassFilter(AsView(response));
-- 
2.43.0


From 2afa92245bf56a5afa71a77d68007dc892c3a9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 42/55] fix: Hilbert transforms write to, and FIR filters
 continue from, temporary views

---
 include/dspbb/Filtering/FIR/BandTransforms.hpp | 4 ++--
 include/dspbb/Filtering/FIR/Filter.hpp         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dspbb/Filtering/FIR/BandTransforms.hpp b/include/dspbb/Filtering/FIR/BandTransforms.hpp
index 302edad..3b589df 100644
--- a/include/dspbb/Filtering/FIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/FIR/BandTransforms.hpp
@@ -65,7 +65,7 @@ namespace impl {
 
 
 template <class SignalR, class SignalT, std::enable_if_t<is_mutable_signal_v<SignalR> && is_same_domain_v<SignalR, SignalT>, int> = 0>
-void HalfbandToHilbertOdd(SignalR& out, const SignalT& halfband) {
+void HalfbandToHilbertOdd(SignalR&& out, const SignalT& halfband) {
 	assert(halfband.size() % 2 == 1);
 	assert(out.size() == halfband.size());
 
@@ -103,7 +103,7 @@ void HalfbandToHilbertOdd(SignalR& out, const SignalT& halfband) {
 }
 
 template <class SignalR, class SignalT, std::enable_if_t<is_mutable_signal_v<SignalR>, int> = 0>
-void HalfbandToHilbertEven(SignalR& out, const SignalT& halfband) {
+void HalfbandToHilbertEven(SignalR&& out, const SignalT& halfband) {
 	assert(out.size() % 2 == 0);
 	assert(out.size() * 2 - 1 == halfband.size());
 
diff --git a/include/dspbb/Filtering/FIR/Filter.hpp b/include/dspbb/Filtering/FIR/Filter.hpp
index 0013883..e3c3149 100644
--- a/include/dspbb/Filtering/FIR/Filter.hpp
+++ b/include/dspbb/Filtering/FIR/Filter.hpp
@@ -58,7 +58,7 @@ template <class SignalR,
 		  class SignalV,
 		  class SignalS,
 		  std::enable_if_t<is_mutable_signal_v<SignalR> && is_mutable_signal_v<SignalS> && is_same_domain_v<SignalR, SignalU, SignalV, SignalS>, int> = 0>
-auto Filter(SignalR&& out, const SignalU& signal, const SignalV& filter, SignalS& state, impl::FilterOla, size_t chunkSize = 0) {
+auto Filter(SignalR&& out, const SignalU& signal, const SignalV& filter, SignalS&& state, impl::FilterOla, size_t chunkSize = 0) {
 	assert(state.size() == filter.size() - 1);
 	assert(out.size() == signal.size());
 
@@ -73,7 +73,7 @@ template <class SignalR,
 		  class SignalV,
 		  class SignalS,
 		  std::enable_if_t<is_mutable_signal_v<SignalR> && is_mutable_signal_v<SignalS> && is_same_domain_v<SignalR, SignalU, SignalV, SignalS>, int> = 0>
-auto Filter(SignalR&& out, const SignalU& signal, const SignalV& filter, SignalS& state, impl::FilterConv) {
+auto Filter(SignalR&& out, const SignalU& signal, const SignalV& filter, SignalS&& state, impl::FilterConv) {
 	assert(state.size() == filter.size() - 1);
 	assert(out.size() == signal.size());
 
-- 
2.43.0


From 860db4742f54e35755002c3bcfc74dda2a05c932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 43/55] fix: polyphase filters with complex coefficients

---
 include/dspbb/Filtering/Polyphase.hpp |  4 ++--
 include/dspbb/Filtering/Resample.hpp  | 18 ++++++++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/dspbb/Filtering/Polyphase.hpp b/include/dspbb/Filtering/Polyphase.hpp
index 9f1db70..7249c77 100644
--- a/include/dspbb/Filtering/Polyphase.hpp
+++ b/include/dspbb/Filtering/Polyphase.hpp
@@ -102,7 +102,7 @@ auto PolyphaseNormalized(PolyphaseFilter<T, Domain> polyphase) {
 template <class SignalR, class SignalT, std::enable_if_t<is_same_domain_v<SignalR, SignalT> && is_mutable_signal_v<SignalR>, int> = 0>
 auto PolyphaseDecompose(SignalR&& output, const SignalT& filter, size_t numFilters) {
 	assert(output.size() == filter.size());
-	assert(output.data() != filter.data());
+	assert(static_cast<const void*>(output.data()) != static_cast<const void*>(filter.data()));
 
 	using R = typename signal_traits<std::decay_t<SignalR>>::type;
 	constexpr auto Domain = signal_traits<std::decay_t<SignalR>>::domain;
@@ -115,7 +115,7 @@ auto PolyphaseDecompose(SignalR&& output, const SignalT& filter, size_t numFilte
 			*it = filter[phaseIdx + coeffIdx * numFilters];
 			++coeffIdx;
 		}
-		filterPhase *= numFilters;
+		filterPhase *= R(remove_complex_t<R>(numFilters));
 	}
 
 	return view;
diff --git a/include/dspbb/Filtering/Resample.hpp b/include/dspbb/Filtering/Resample.hpp
index 06f3d72..2a71af5 100644
--- a/include/dspbb/Filtering/Resample.hpp
+++ b/include/dspbb/Filtering/Resample.hpp
@@ -138,6 +138,20 @@ namespace impl {
 		};
 	}
 
+	// Unlike the dot product, convolution does not conjugate complex filter coefficients.
+	template <class SignalT, class SignalU>
+	auto ConvolutionSum(const SignalT& input, const SignalU& filter) {
+		assert(input.size() == filter.size());
+		using R = multiplies_result_t<typename SignalT::value_type, typename SignalU::value_type>;
+		return kernels::InnerProduct(
+			input.begin(),
+			input.end(),
+			filter.begin(),
+			R(remove_complex_t<R>(0)),
+			[](const auto& acc, const auto& x) -> plus_result_t<decltype(acc), decltype(x)> { return acc + x; },
+			[](const auto& a, const auto& b) -> multiplies_result_t<decltype(a), decltype(b)> { return a * b; });
+	}
+
 	template <class SignalT, class SignalU>
 	auto DotProductSample(const SignalT& input, const SignalU& filter, size_t inputReverseFirst) {
 		const ptrdiff_t desiredFirst = ptrdiff_t(inputReverseFirst) - filter.size() + 1;
@@ -150,7 +164,7 @@ namespace impl {
 
 		const auto inputView = AsConstView(input).subsignal(possibleFirst, count);
 		const auto filterView = AsConstView(filter).subsignal(offset, count);
-		return DotProduct(inputView, filterView);
+		return ConvolutionSum(inputView, filterView);
 	}
 
 
@@ -251,7 +265,7 @@ InterpolSuspensionPoint Interpolate(SignalR&& hrOutput,
 															   lrInputProductInterval.last - lrInputProductInterval.first);
 			const auto lrPhaseView = phase.subsignal(lrPhaseProductInterval.first - lrPhaseSize + ptrdiff_t(phase.size()),
 													 lrPhaseProductInterval.last - lrPhaseProductInterval.first);
-			const auto value = DotProduct(lrInputView, lrPhaseView);
+			const auto value = impl::ConvolutionSum(lrInputView, lrPhaseView);
 			hrOutput[hrOutputIdx - hrOffset] = value;
 		}
 		else {
-- 
2.43.0


From c860aca1853ddf5d58f2198fedf0a3270a553691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 44/55] fix: Hilbert designs of even length into a view

---
 include/dspbb/Filtering/FIR.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/FIR.hpp b/include/dspbb/Filtering/FIR.hpp
index e0a8ba3..4636c2e 100644
--- a/include/dspbb/Filtering/FIR.hpp
+++ b/include/dspbb/Filtering/FIR.hpp
@@ -170,7 +170,8 @@ namespace impl {
 	void FirFilterHilbert(SignalR&& out, const HalfbandDesc& halfbandDesc) {
 		if (out.size() % 2 == 0) {
 			const size_t halfbandSize = out.size() * 2 - 1;
-			std::decay_t<SignalR> halfband(halfbandSize);
+			using R = typename signal_traits<std::decay_t<SignalR>>::type;
+			BasicSignal<R, signal_traits<std::decay_t<SignalR>>::domain> halfband(halfbandSize);
 			DesignFilter(halfband, halfbandDesc);
 			fir::HalfbandToHilbertEven(out, halfband);
 		}
-- 
2.43.0


From e0f47d040f729cfbbf0371d0c51ec70f2dd661e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 45/55] fix: TGamma of large arguments returns

---
 include/dspbb/Kernels/Math.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/dspbb/Kernels/Math.hpp b/include/dspbb/Kernels/Math.hpp
index a0ee698..c4543b1 100644
--- a/include/dspbb/Kernels/Math.hpp
+++ b/include/dspbb/Kernels/Math.hpp
@@ -106,6 +106,24 @@ auto lgamma(const xsimd::batch<float, Arch>& v) {
 	return xsimd::batch<float, Arch>::load_aligned(lanes.data());
 }
 
+namespace impl {
+	template <class V>
+	V clamp_gamma_arg(const V& v) {
+		// xsimd reduces the argument in steps of one, which does not end for large ones. The function overflows well before.
+		return xsimd::select(v > V(1000), V(1000), v);
+	}
+} // namespace impl
+
+template <class Arch>
+auto tgamma(const xsimd::batch<float, Arch>& v) {
+	return xsimd::tgamma(impl::clamp_gamma_arg(v));
+}
+
+template <class Arch>
+auto tgamma(const xsimd::batch<double, Arch>& v) {
+	return xsimd::tgamma(impl::clamp_gamma_arg(v));
+}
+
 // FMA
 namespace impl {
 	template <class V, std::enable_if_t<xsimd::is_batch<V>::value && std::is_scalar_v<typename xsimd::revert_simd_traits<V>::value_type>, int> = 0>
-- 
2.43.0


From 7f9d1e91922661148e8d878ea771b98542f2eb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 46/55] fix: Pow of zero to the power of zero is one in
 vectorized lanes too

---
 include/dspbb/Kernels/Math.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/dspbb/Kernels/Math.hpp b/include/dspbb/Kernels/Math.hpp
index c4543b1..4f0ecf3 100644
--- a/include/dspbb/Kernels/Math.hpp
+++ b/include/dspbb/Kernels/Math.hpp
@@ -33,6 +33,24 @@ using xsimd::cbrt;
 using xsimd::pow;
 using xsimd::sqrt;
 
+namespace impl {
+	template <class V>
+	V pow_of_zero_exponent(const V& exponent, const V& power) {
+		// Anything to the power of zero is one, but xsimd gives zero or NaN for zero and infinite bases.
+		return xsimd::select(exponent == V(0), V(1), power);
+	}
+} // namespace impl
+
+template <class Arch>
+auto pow(const xsimd::batch<float, Arch>& base, const xsimd::batch<float, Arch>& exponent) {
+	return impl::pow_of_zero_exponent(exponent, xsimd::pow(base, exponent));
+}
+
+template <class Arch>
+auto pow(const xsimd::batch<double, Arch>& base, const xsimd::batch<double, Arch>& exponent) {
+	return impl::pow_of_zero_exponent(exponent, xsimd::pow(base, exponent));
+}
+
 // Trigonometric
 using std::acos;
 using std::asin;
-- 
2.43.0


From 1300402d84ef70edd81ae839a727e5a2413e5470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 47/55] fix: Tan and Tanh of complex numbers far from the axis

---
 include/dspbb/Kernels/Math.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/dspbb/Kernels/Math.hpp b/include/dspbb/Kernels/Math.hpp
index 4f0ecf3..44f911f 100644
--- a/include/dspbb/Kernels/Math.hpp
+++ b/include/dspbb/Kernels/Math.hpp
@@ -2,6 +2,8 @@
 
 #include <array>
 #include <cmath>
+#include <complex>
+#include <limits>
 #ifdef _MSC_VER
 	#pragma warning(push)
 	#pragma warning(disable : 4800 4244)
@@ -66,6 +68,20 @@ using xsimd::cos;
 using xsimd::sin;
 using xsimd::tan;
 
+namespace impl {
+	// The complex exponentials inside xsimd's formulas overflow to NaN where the tangents have long been constant.
+	template <class T, class Arch>
+	auto clamp_tangent_arg(const xsimd::batch<T, Arch>& v) {
+		const xsimd::batch<T, Arch> limit(std::log(std::numeric_limits<T>::max()) / T(2.5));
+		return xsimd::select(v > limit, limit, xsimd::select(v < -limit, -limit, v));
+	}
+} // namespace impl
+
+template <class T, class Arch>
+auto tan(const xsimd::batch<std::complex<T>, Arch>& v) {
+	return xsimd::tan(xsimd::batch<std::complex<T>, Arch>(v.real(), impl::clamp_tangent_arg(v.imag())));
+}
+
 // Hyperbolic
 using xsimd::acosh;
 using xsimd::asinh;
@@ -81,6 +97,11 @@ using std::cosh;
 using std::sinh;
 using std::tanh;
 
+template <class T, class Arch>
+auto tanh(const xsimd::batch<std::complex<T>, Arch>& v) {
+	return xsimd::tanh(xsimd::batch<std::complex<T>, Arch>(impl::clamp_tangent_arg(v.real()), v.imag()));
+}
+
 // Complex
 using std::abs;
 using std::arg;
-- 
2.43.0


From 31d754990f23e9c08fedfab024bd8412b91adb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 48/55] fix: inverse trigonometric and hyperbolic functions of
 complex signals

---
 include/dspbb/Kernels/Math.hpp | 41 ++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/include/dspbb/Kernels/Math.hpp b/include/dspbb/Kernels/Math.hpp
index 44f911f..9917fe0 100644
--- a/include/dspbb/Kernels/Math.hpp
+++ b/include/dspbb/Kernels/Math.hpp
@@ -75,8 +75,34 @@ namespace impl {
 		const xsimd::batch<T, Arch> limit(std::log(std::numeric_limits<T>::max()) / T(2.5));
 		return xsimd::select(v > limit, limit, xsimd::select(v < -limit, -limit, v));
 	}
+
+	template <class T, class Arch, class Func>
+	auto lane_by_lane(const xsimd::batch<std::complex<T>, Arch>& v, Func func) {
+		std::array<std::complex<T>, xsimd::batch<std::complex<T>, Arch>::size> lanes;
+		v.store_unaligned(lanes.data());
+		for (auto& lane : lanes) {
+			lane = func(lane);
+		}
+		return xsimd::batch<std::complex<T>, Arch>::load_unaligned(lanes.data());
+	}
 } // namespace impl
 
+// xsimd's complex inverse functions are on the wrong branch or lose all their digits in much of the plane.
+template <class T, class Arch>
+auto acos(const xsimd::batch<std::complex<T>, Arch>& v) {
+	return impl::lane_by_lane(v, [](const std::complex<T>& lane) { return std::acos(lane); });
+}
+
+template <class T, class Arch>
+auto asin(const xsimd::batch<std::complex<T>, Arch>& v) {
+	return impl::lane_by_lane(v, [](const std::complex<T>& lane) { return std::asin(lane); });
+}
+
+template <class T, class Arch>
+auto atan(const xsimd::batch<std::complex<T>, Arch>& v) {
+	return impl::lane_by_lane(v, [](const std::complex<T>& lane) { return std::atan(lane); });
+}
+
 template <class T, class Arch>
 auto tan(const xsimd::batch<std::complex<T>, Arch>& v) {
 	return xsimd::tan(xsimd::batch<std::complex<T>, Arch>(v.real(), impl::clamp_tangent_arg(v.imag())));
@@ -97,6 +123,21 @@ using std::cosh;
 using std::sinh;
 using std::tanh;
 
+template <class T, class Arch>
+auto acosh(const xsimd::batch<std::complex<T>, Arch>& v) {
+	return impl::lane_by_lane(v, [](const std::complex<T>& lane) { return std::acosh(lane); });
+}
+
+template <class T, class Arch>
+auto asinh(const xsimd::batch<std::complex<T>, Arch>& v) {
+	return impl::lane_by_lane(v, [](const std::complex<T>& lane) { return std::asinh(lane); });
+}
+
+template <class T, class Arch>
+auto atanh(const xsimd::batch<std::complex<T>, Arch>& v) {
+	return impl::lane_by_lane(v, [](const std::complex<T>& lane) { return std::atanh(lane); });
+}
+
 template <class T, class Arch>
 auto tanh(const xsimd::batch<std::complex<T>, Arch>& v) {
 	return xsimd::tanh(xsimd::batch<std::complex<T>, Arch>(impl::clamp_tangent_arg(v.real()), v.imag()));
-- 
2.43.0


From 6af8e79d54b5644e1c3e8fd6519daf6fe47287f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:28 +0000
Subject: [PATCH 49/55] fix: overlap-add of signals that are not in time domain

The working buffers took the domain of the operands, but only time domain
signals can be transformed, so anything else did not compile.
---
 include/dspbb/Math/OverlapAdd.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/dspbb/Math/OverlapAdd.hpp b/include/dspbb/Math/OverlapAdd.hpp
index 0c3413e..e3a7f78 100644
--- a/include/dspbb/Math/OverlapAdd.hpp
+++ b/include/dspbb/Math/OverlapAdd.hpp
@@ -139,11 +139,11 @@ void OverlapAdd(SignalR&& out, const SignalT& u, const SignalU& v, size_t offset
 
 	using T = std::remove_cv_t<typename signal_traits<std::decay_t<SignalT>>::type>;
 	using U = std::remove_cv_t<typename signal_traits<std::decay_t<SignalU>>::type>;
-	constexpr eSignalDomain Domain = signal_traits<std::decay_t<SignalT>>::domain;
 	constexpr auto is_complex_t = std::integral_constant<bool, is_complex_v<T>>{};
 	constexpr auto is_complex_u = std::integral_constant<bool, is_complex_v<U>>{};
 
-	BasicSignal<U, Domain> filter(chunkSize, U(0));
+	// The transforms are only a means to convolve: they work on chunks in time domain whatever the domain of the operands.
+	BasicSignal<U, eSignalDomain::TIME> filter(chunkSize, U(0));
 	std::copy(v.begin(), v.end(), filter.begin());
 	const auto filterFd = impl::ola::FftFilter(filter, is_complex_t, is_complex_u);
 
@@ -151,7 +151,8 @@ void OverlapAdd(SignalR&& out, const SignalT& u, const SignalU& v, size_t offset
 	const Interval uExtent{ intptr_t(0), intptr_t(u.size()) };
 	const Interval loopInterval = Intersection(uExtent, EncompassingUnion(outExtent, outExtent + intptr_t(1) - intptr_t(v.size())));
 
-	BasicSignal<T, Domain> workingChunk(chunkSize, T(0));
+	BasicSignal<T, eSignalDomain::TIME> workingChunk(chunkSize, T(0));
+	const auto outTd = AsView<eSignalDomain::TIME>(out.begin(), out.end());
 	Interval uInterval = { loopInterval.first, loopInterval.first + intptr_t(v.size()) };
 	Interval outInterval = { loopInterval.first, loopInterval.first + intptr_t(chunkSize) };
 	for (; !IsDisjoint(outInterval, outExtent); uInterval += intptr_t(v.size()), outInterval += intptr_t(v.size())) {
@@ -166,7 +167,7 @@ void OverlapAdd(SignalR&& out, const SignalT& u, const SignalU& v, size_t offset
 		Interval outValidInterval = Intersection(outInterval, outExtent) - intptr_t(offset);
 		Interval chunkValidInterval = Intersection(outInterval, outExtent) - uInterval.first;
 
-		AsView(out).subsignal(outValidInterval.first, outValidInterval.size()) += AsView(filteredChunk).subsignal(chunkValidInterval.first, chunkValidInterval.size());
+		outTd.subsignal(outValidInterval.first, outValidInterval.size()) += AsView(filteredChunk).subsignal(chunkValidInterval.first, chunkValidInterval.size());
 	}
 }
 
-- 
2.43.0


From aaef2e6ad37a97a644f2b903d368470dfb38110a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:41 +0000
Subject: [PATCH 50/55] fix: in-place design of recursive filters

It called functions of the filter that do not exist, so it never compiled.
---
 include/dspbb/Filtering/IIR.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/dspbb/Filtering/IIR.hpp b/include/dspbb/Filtering/IIR.hpp
index aed4319..266f6e0 100644
--- a/include/dspbb/Filtering/IIR.hpp
+++ b/include/dspbb/Filtering/IIR.hpp
@@ -194,11 +194,7 @@ void DesignFilter(DiscreteZeroPoleGain<T>& out, const ResponseDesc& desc) {
 	// TODO:
 	// This is kinda useless. I should maybe add view-like analogs to LTI systems.
 	assert(out.zeros.num_roots() == out.poles.num_roots());
-	const size_t order = out.poles.num_roots();
-	const auto filter = DesignFilter(order, desc);
-	out.regroup(filter.num_real_roots());
-	std::copy(filter.real_roots().begin(), filter.real_roots.end(), out.real_roots.begin());
-	std::copy(filter.complex_pairs().begin(), filter.complex_pairs.end(), out.complex_pairs.begin());
+	out = DesignFilter<T>(out.poles.num_roots(), desc);
 }
 
 } // namespace dspbb
\ No newline at end of file
-- 
2.43.0


From 39d6f4930c0ab648407397a62634081445827f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:01 +0000
Subject: [PATCH 51/55] fix: direct form I whose order cannot be raised for
 lack of memory

---
 include/dspbb/Filtering/IIR/Realizations.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dspbb/Filtering/IIR/Realizations.hpp b/include/dspbb/Filtering/IIR/Realizations.hpp
index 6cb1551..3d97bef 100644
--- a/include/dspbb/Filtering/IIR/Realizations.hpp
+++ b/include/dspbb/Filtering/IIR/Realizations.hpp
@@ -41,6 +41,9 @@ DirectFormI<T>::DirectFormI(size_t order) {
 
 template <class T>
 void DirectFormI<T>::order(size_t order) {
+	// Either both states change size, or none of them.
+	recursiveState.reserve(order);
+	forwardState.reserve(order + 1);
 	recursiveState.resize(order, T(0));
 	forwardState.resize(order + 1, T(0));
 }
-- 
2.43.0


From ce6d280d4984a4fd08bdbd04a3a8ee7d0ba32f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:41 +0000
Subject: [PATCH 52/55] fix: elliptic functions of a modulus beyond one are
 mixed up

---
 include/dspbb/Math/EllipticFunctions.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/dspbb/Math/EllipticFunctions.hpp b/include/dspbb/Math/EllipticFunctions.hpp
index ba4f7aa..f3d646f 100644
--- a/include/dspbb/Math/EllipticFunctions.hpp
+++ b/include/dspbb/Math/EllipticFunctions.hpp
@@ -166,9 +166,9 @@ std::tuple<T, T, T, T, T> EllipticReduceRange(const T x, const T k) {
 	}
 
 	if (xPrime > pi_v<T> / 2) {
-		const auto K = EllipticK(k);
+		const auto K = EllipticK(kPrime);
 		int octant = 0;
-		xPrime = std::remquo(x, T(2) * K, &octant);
+		xPrime = std::remquo(xPrime, T(2) * K, &octant);
 		if (octant % 2 == 1) {
 			factorSn *= T(-1);
 			factorCn *= T(-1);
@@ -183,10 +183,13 @@ std::tuple<T, T, T> EllipticSNCNDN(T x, T k) {
 	const auto [xPrime, kPrime, factorSn, factorCn, factorDn] = EllipticReduceRange(x, k);
 
 	const T am = EllipticAM(xPrime, kPrime);
-	const T sn = factorSn * std::sin(am);
+	const T sn = std::sin(am);
 	const T cn = factorCn * std::cos(am);
-	const T dn = factorDn * std::sqrt(T(1) - k * k * sn * sn);
-	return { sn, cn, dn };
+	const T dn = factorDn * std::sqrt(T(1) - kPrime * kPrime * sn * sn);
+	if (std::abs(k) > T(1)) {
+		return { factorSn * sn, dn, cn }; // The reciprocal modulus exchanges CN and DN.
+	}
+	return { factorSn * sn, cn, dn };
 }
 
 template <class T>
-- 
2.43.0


From e322ff07101fa2c0649a020a55f19b1cee128b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:15 +0000
Subject: [PATCH 53/55] fix: elliptic functions of mixed complex arguments
 don't compile

---
 include/dspbb/Math/EllipticFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Math/EllipticFunctions.hpp b/include/dspbb/Math/EllipticFunctions.hpp
index f3d646f..6952d86 100644
--- a/include/dspbb/Math/EllipticFunctions.hpp
+++ b/include/dspbb/Math/EllipticFunctions.hpp
@@ -210,7 +210,7 @@ auto EllipticSNCNDN(T1 x, T2 k) -> std::tuple<T, T, T> {
 }
 
 template <class T1, class T2, class T = std::common_type_t<T1, T2>, std::enable_if_t<!is_complex_v<T1> && !is_complex_v<T2>, int> = 0>
-auto EllipticSNCNDN(std::complex<T1> x, T2 k) -> std::tuple<T, T, T> {
+auto EllipticSNCNDN(std::complex<T1> x, T2 k) -> std::tuple<std::complex<T>, std::complex<T>, std::complex<T>> {
 	return EllipticSNCNDN(std::complex<T>(x), T(k));
 }
 
-- 
2.43.0


From 08436864ce1a38257be565c62660e6c9840f1437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:07 +0000
Subject: [PATCH 54/55] fix: pi has only double precision for wider types

---
 include/dspbb/Utility/Numbers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Utility/Numbers.hpp b/include/dspbb/Utility/Numbers.hpp
index 420ac31..2261f25 100644
--- a/include/dspbb/Utility/Numbers.hpp
+++ b/include/dspbb/Utility/Numbers.hpp
@@ -5,7 +5,7 @@
 namespace dspbb {
 
 template <class T>
-constexpr T pi_v = T(3.1415926535897932384626433);
+constexpr T pi_v = T(3.1415926535897932384626433L);
 
 template <class T>
 constexpr std::complex<T> i_v(T(0), T(1));
-- 
2.43.0


From c7e92bb4bfe2f2c5f2afb26735042ee70d5bd802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:07 +0000
Subject: [PATCH 55/55] fix: inverse transforms have only double precision for
 wider types

---
 include/dspbb/Math/FFT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Math/FFT.hpp b/include/dspbb/Math/FFT.hpp
index 6f23a79..86007a8 100644
--- a/include/dspbb/Math/FFT.hpp
+++ b/include/dspbb/Math/FFT.hpp
@@ -60,7 +60,7 @@ namespace impl {
 		pocketfft_dspbb::shape_t shape = { out.size() };
 		pocketfft_dspbb::stride_t stride_in = { sizeof(std::complex<T>) };
 		pocketfft_dspbb::stride_t stride_out = { sizeof(T) };
-		pocketfft_dspbb::c2r<T>(shape, stride_in, stride_out, 0, pocketfft_dspbb::BACKWARD, in.data(), out.data(), T(1.0 / double(out.size())));
+		pocketfft_dspbb::c2r<T>(shape, stride_in, stride_out, 0, pocketfft_dspbb::BACKWARD, in.data(), out.data(), T(1) / T(out.size()));
 	}
 
 	template <class T>
@@ -70,7 +70,7 @@ namespace impl {
 		pocketfft_dspbb::shape_t shape = { out.size() };
 		pocketfft_dspbb::stride_t stride = { sizeof(std::complex<T>) };
 		pocketfft_dspbb::shape_t axes = { 0 };
-		pocketfft_dspbb::c2c(shape, stride, stride, axes, pocketfft_dspbb::BACKWARD, in.data(), out.data(), T(1.0 / double(out.size())));
+		pocketfft_dspbb::c2c(shape, stride, stride, axes, pocketfft_dspbb::BACKWARD, in.data(), out.data(), T(1) / T(out.size()));
 	}
 
 
-- 
2.43.0

