// C21: the waveform generators sample the mathematical waveform at every phase, frequency and length.
#include "ref.hpp"
#include <dspbb/Generators/Waveforms.hpp>
#include <dspbb/Primitives/SignalArithmetic.hpp>
using namespace dspbb;
using namespace ref;
static const LD PI = acosl(-1.0L);

enum Shape { SINE, SAW, PWM, SQUARE };
// The waveform at a phase in turns. `jump` is how close the phase is to a discontinuity.
static LD Wave(Shape s, LD turns, LD param, LD& jump) {
	const LD u = turns - std::floor(turns);
	auto near = [&](LD p) { const LD d = std::abs(u - p); return std::min(d, 1 - d); };
	jump = 1;
	switch (s) {
		case SINE: return std::sin(2 * PI * u);
		case SAW:
			if (param <= 0 || param >= 1) jump = near(0);
			if (param <= 0) return 1 - 2 * u;
			if (param >= 1) return 2 * u - 1;
			return u <= param ? 2 * u / param - 1 : 1 - 2 * (u - param) / (1 - param);
		case PWM:
			if (param > 0 && param < 1) jump = std::min(near(0), near(param));
			return u < param || param >= 1 ? 1 : 0;
		case SQUARE: jump = std::min(near(0), near(0.5L)); return u < 0.5L ? 1 : -1;
	}
	return 0;
}
template <class S>
static void Compare(const S& got, size_t n, Shape shape, LD param, const std::function<LD(size_t)>& turns, LD eps) {
	mc::Eq(size_t(got.size()), n, "length");
	for (size_t i = 0; i < n && i < got.size(); ++i) {
		LD jump;
		const LD t = turns(i), w = Wave(shape, t, param, jump);
		const LD phaseErr = 1e-15L * (std::abs(t) + 1) * 8;
		if (jump < phaseErr) continue; // rounding decides which side of the jump this sample is on
		const LD slope = shape == SINE ? 2 * PI : shape == SAW ? 2 / std::max(LD(1e-3), std::min(param > 0 ? param : 1, param < 1 ? 1 - param : 1)) : 0;
		mc::Near(got[i], w, 4 * eps + slope * phaseErr, "sample", i);
	}
	mc::StateOf(got);
}

static const std::vector<double> PARAM = { 0.0, 0.1, 0.25, 0.5, 0.75, 1.0 };

template <class T>
static void Tones(const std::vector<size_t>& lengths) {
	const std::vector<uint64_t> rates = { 1, 8, 100, 44100 };
	const std::vector<double> freqs = { 0, 0.01, 0.125, 0.23, 0.5, 1.3, -0.2 }; // in turns per sample
	const std::vector<double> phases = { 0, 0.3, 1.7, 3.0, 6.5, 40.25, -0.3, -1.7, -6.5, -40.25 };
	for (size_t n : lengths)
		for (uint64_t rate : rates)
			for (double f : freqs)
				for (size_t ph = 0; ph < phases.size(); ++ph)
					for (int shape = 0; shape < 4; ++shape)
						for (size_t pi = 0; pi < (shape == SAW || shape == PWM ? PARAM.size() : 1); ++pi) {
							if (!mc::Case("tone", TypeName<T>(), n, rate, f, ph, shape, pi)) continue;
							mc::Step(2);
							const double freq = f * double(rate), phase = phases[ph], par = PARAM[pi];
							auto turns = [&](size_t i) { return LD(i) / LD(rate) * LD(freq) + LD(phase) / (2 * PI); };
							Guarded<T> out(n, n % 3);
							BasicSignal<T, TIME_DOMAIN> s;
							switch (shape) {
								case SINE: SineWave(out.view(), rate, freq, phase); s = SineWave<T, TIME_DOMAIN>(n, rate, freq, phase); break;
								case SAW: SawtoothWave(out.view(), rate, freq, phase, par); s = SawtoothWave<T, TIME_DOMAIN>(n, rate, freq, phase, par); break;
								case PWM: PwmWave(out.view(), rate, freq, phase, par); s = PwmWave<T, TIME_DOMAIN>(n, rate, freq, phase, par); break;
								case SQUARE: SquareWave(out.view(), rate, freq, phase); s = SquareWave<T, TIME_DOMAIN>(n, rate, freq, phase); break;
							}
							Compare(out.view(), n, Shape(shape), par, turns, Eps<T>());
							Compare(s, n, Shape(shape), par, turns, Eps<T>());
							out.CheckGuards();
							if (ph == 0) { // default phase and shape
								BasicSignal<T, TIME_DOMAIN> d;
								LD par2 = par;
								switch (shape) {
									case SINE: d = SineWave<T, TIME_DOMAIN>(n, rate, freq); break;
									case SAW: d = SawtoothWave<T, TIME_DOMAIN>(n, rate, freq); par2 = 1; break;
									case PWM: d = PwmWave<T, TIME_DOMAIN>(n, rate, freq); par2 = 0.5L; break;
									case SQUARE: d = SquareWave<T, TIME_DOMAIN>(n, rate, freq); break;
								}
								Compare(d, n, Shape(shape), par2, turns, Eps<T>());
							}
						}
}
template <class T>
static void Chirps(const std::vector<size_t>& lengths) {
	const std::vector<uint64_t> rates = { 1, 100, 48000 };
	const std::vector<std::pair<double, double>> freqs = { { 0, 0.5 }, { 0.4, 0.1 }, { 0.2, 0.2 }, { 0, -0.3 }, { 1.5, 0 } };
	const std::vector<double> phases = { 0, 0.9, 5.5, -0.9, -13.0 };
	for (size_t n : lengths)
		for (uint64_t rate : rates)
			for (size_t f = 0; f < freqs.size(); ++f)
				for (size_t ph = 0; ph < phases.size(); ++ph)
					for (int shape = 0; shape < 4; ++shape)
						for (size_t pi = 0; pi < (shape == SAW || shape == PWM ? PARAM.size() : 1); ++pi) {
							if (!mc::Case("chirp", TypeName<T>(), n, rate, f, ph, shape, pi)) continue;
							mc::Step(2);
							const double f0 = freqs[f].first * double(rate), f1 = freqs[f].second * double(rate), phase = phases[ph], par = PARAM[pi];
							// The instantaneous frequency goes linearly from f0 to f1 over the length of the signal.
							auto turns = [&](size_t i) {
								const LD t = LD(i) / LD(rate), len = LD(n) / LD(rate);
								return LD(f0) * t + (LD(f1) - LD(f0)) * t * t / (2 * len) + LD(phase) / (2 * PI);
							};
							Guarded<T> out(n, n % 3);
							BasicSignal<T, TIME_DOMAIN> s;
							switch (shape) {
								case SINE: SineChirp(out.view(), rate, f0, f1, phase); s = SineChirp<T, TIME_DOMAIN>(n, rate, f0, f1, phase); break;
								case SAW: SawtoothChirp(out.view(), rate, f0, f1, phase, par); s = SawtoothChirp<T, TIME_DOMAIN>(n, rate, f0, f1, phase, par); break;
								case PWM: PwmChirp(out.view(), rate, f0, f1, phase, par); s = PwmChirp<T, TIME_DOMAIN>(n, rate, f0, f1, phase, par); break;
								case SQUARE: SquareChirp(out.view(), rate, f0, f1, phase); s = SquareChirp<T, TIME_DOMAIN>(n, rate, f0, f1, phase); break;
							}
							Compare(out.view(), n, Shape(shape), par, turns, Eps<T>());
							Compare(s, n, Shape(shape), par, turns, Eps<T>());
							out.CheckGuards();
						}
}
// A tone generated in blocks with the phase carried over is the tone generated at once.
static void Continuation(size_t total) {
	for (int shape = 0; shape < 3; ++shape)
		for (size_t a = 0; a <= total; ++a)
			for (size_t b = a; b <= total; ++b) {
				if (!mc::Case("tone-blocks", shape, a, b)) continue;
				mc::Step(3);
				const uint64_t rate = 1000;
				const double f = 37.3, ph = -2.2, par = 0.4;
				auto gen = [&](size_t n, double phase) {
					switch (shape) {
						case SINE: return SineWave<double, TIME_DOMAIN>(n, rate, f, phase);
						case SAW: return SawtoothWave<double, TIME_DOMAIN>(n, rate, f, phase, par);
						default: return PwmWave<double, TIME_DOMAIN>(n, rate, f, phase, par);
					}
				};
				const auto all = gen(total, ph);
				size_t at = 0;
				for (size_t end : { a, b, total }) {
					const auto blk = gen(end - at, ph + 2 * double(PI) * f * double(at) / double(rate));
					for (size_t i = 0; i < blk.size(); ++i) mc::Near(blk[i], all[at + i], 1e-11, "continued tone", at + i);
					at = end;
				}
				mc::StateOf(all);
			}
}
// Long tones: the phase stays exact however many samples have passed.
static void LongTones() {
	for (int shape = 0; shape < 4; ++shape)
		for (size_t n : { 100003, 1000003 })
			for (double f : { 0.01, 0.23, 440.0 / 44100 })
				for (int chirp = 0; chirp < 2; ++chirp) {
					if (!mc::Case("long-tone", shape, n, f, chirp)) continue;
					mc::Step(2);
					const uint64_t rate = 44100;
					const double f0 = f * 44100, f1 = chirp ? 0.31 * 44100 : f0, ph = 0.7, par = 0.4;
					auto turns = [&](size_t i) {
						const LD t = LD(i) / LD(rate), len = LD(n) / LD(rate);
						return LD(f0) * t + (LD(f1) - LD(f0)) * t * t / (2 * len) + LD(ph) / (2 * PI);
					};
					BasicSignal<double, TIME_DOMAIN> s(n);
					BasicSignal<float, TIME_DOMAIN> g(n);
					switch (shape) {
						case SINE: chirp ? SineChirp(s, rate, f0, f1, ph) : SineWave(s, rate, f0, ph); chirp ? SineChirp(g, rate, f0, f1, ph) : SineWave(g, rate, f0, ph); break;
						case SAW: chirp ? SawtoothChirp(s, rate, f0, f1, ph, par) : SawtoothWave(s, rate, f0, ph, par); chirp ? SawtoothChirp(g, rate, f0, f1, ph, par) : SawtoothWave(g, rate, f0, ph, par); break;
						case PWM: chirp ? PwmChirp(s, rate, f0, f1, ph, par) : PwmWave(s, rate, f0, ph, par); chirp ? PwmChirp(g, rate, f0, f1, ph, par) : PwmWave(g, rate, f0, ph, par); break;
						case SQUARE: chirp ? SquareChirp(s, rate, f0, f1, ph) : SquareWave(s, rate, f0, ph); chirp ? SquareChirp(g, rate, f0, f1, ph) : SquareWave(g, rate, f0, ph); break;
					}
					Compare(s, n, Shape(shape), par, turns, Eps<double>());
					Compare(g, n, Shape(shape), par, turns, Eps<float>());
				}
}
static void Body() {
	Tones<double>(mc::Thorough() ? Lengths(40, { 100, 257, 1000 }) : std::vector<size_t>{ 0, 1, 2, 7, 33, 257 });
	Tones<double>({ 5000 });
	Tones<float>(mc::Thorough() ? Lengths(20, { 100, 257 }) : std::vector<size_t>{ 1, 33 });
	Tones<std::complex<float>>({ 5, 40 });
	Chirps<double>(mc::Thorough() ? Lengths(40, { 100, 257, 1000 }) : std::vector<size_t>{ 0, 1, 2, 7, 33, 257 });
	Chirps<double>({ 4097 });
	Chirps<float>({ 1, 33, 100 });
	LongTones();
	Chirps<std::complex<double>>({ 5, 40 });
	Continuation(mc::Tier(30, 70));
}
MC_MAIN(Body)
