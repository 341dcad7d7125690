// E06: the statistics, the histogram and the thresholds of the threshold calculation.  The random engine may choose
// any frames; the optimiser may return anything (shim/both/random, shim/eigen).
#include "stempy/electronthresholds.cpp"
#include "blocks.h"
using namespace stempy;
#ifdef NULLGAIN
typedef uint16_t FT;
#define DDEN 1  // samples are integers without a gain
#else
typedef float FT;
#define DDEN 2
#endif
static double dabs(double x) { return x < 0 ? -x : x; }
static bool near(double a, double b) { return a == b || dabs(a - b) <= 1e-6 * dabs(b) + 1e-9; }
extern "C" void sx_main()
{
  const uint32_t w = W, h = H, n = W * H;
  std::vector<uint16_t> px(n);
  std::vector<float> dk(n, 0), gn(n, 1);
  std::vector<double> s(n);
  for (uint32_t i = 0; i < n; ++i) {
    uint32_t v = i < NSYM ? (uint32_t)sx::range(PLO, PHI, "px") : REST;
    px[i] = (uint16_t)v;
    int64_t d = 0, g2 = 2;
    if (DARK && i < NSYM) { d = sx::range(0, DHI, "dark"); dk[i] = (float)d / DDEN; }
#ifndef NULLGAIN
    if (i < NSYM) { g2 = sx::range(1, 3, "gain"); gn[i] = (float)g2 / 2; }
#endif
    s[i] = ((double)v - (double)d / DDEN) * (double)g2 / 2;
  }
  // every frame of every block has the same pixels, so the statistics do not depend on the frames drawn
  std::vector<Block> blocks;
  static const uint32_t ipb[NB] = IPBS;
  for (int b = 0; b < NB; ++b) {
    Block bl = hb::make(w, h, 3, 3, std::vector<uint32_t>(ipb[b], 0));
    for (uint32_t i = 0; i < ipb[b]; ++i) std::copy(px.begin(), px.end(), bl.data.get() + i * n);
    blocks.push_back(bl);
  }
  const double bs = BSIGMA, xs = XSIGMA;
  sxlm::mode = 1;
  sxlm::g_state[0] = 5;
  sxlm::g_state[1] = (double)sx::range(-1, 6, "omean") / 2;
  sxlm::g_state[2] = (double)sx::range(-3, 3, "ostd") / 2;
  sxlm::g_fail = MAYFAIL && sx::chooseFlag("fail");
  sxlm::probeLo = LO;
  sxlm::probeHi = HI;
  CalculateThresholdsResults<FT> r;
  Image<float> dimg;
  dimg.data.reset(new float[n], std::default_delete<float[]>());
  dimg.dimensions = { w, h };
  for (uint32_t i = 0; i < n; ++i) dimg.data.get()[i] = dk[i];
  double lo = s[0], hi = s[0], sum = 0;
  for (uint32_t i = 0; i < n; ++i) { lo = s[i] < lo ? s[i] : lo; hi = s[i] > hi ? s[i] : hi; sum += s[i]; }
  try {
#ifdef NULLGAIN
    if (!DARK) r = calculateThresholds<Block>(blocks, SAMPLES, bs, xs);
    else if (ENTRY) r = calculateThresholds<Block>(blocks, dimg, SAMPLES, bs, xs);
    else r = calculateThresholds<Block>(blocks, dk.data(), SAMPLES, bs, xs);
#else
    if (!DARK) r = calculateThresholds<Block, float, false>(blocks, nullptr, SAMPLES, bs, xs, gn.data());
    else if (ENTRY) r = calculateThresholds<Block>(blocks, dimg, SAMPLES, bs, xs, gn.data());
    else r = calculateThresholds<Block, float, true>(blocks, dk.data(), SAMPLES, bs, xs, gn.data());
#endif
  } catch (const std::exception &) {
    sx::reach("error");
    // only without convergence, or without a bin to fit
#ifdef FULLRANGE
    const bool narrow = (int64_t)hi - (int64_t)lo < 1;
#else
    const bool narrow = true;
#endif
    sx::check(sxlm::g_fail || narrow, "threshold calculation fails although the fit converges");
    return;
  }
  sx::check(!sxlm::g_fail, "no thresholds without convergence");
  const double N = (double)(n * SAMPLES), mean = sum * SAMPLES / N;
  sx::check(r.numberOfSamples == SAMPLES, "number of samples");
  sx::check((double)r.minSample == lo, "minimum of the samples");
  sx::check((double)r.maxSample >= hi && (double)r.maxSample < hi + 1, "maximum of the samples");
  sx::check(near(r.mean, mean), "mean of the samples");
  double q = 0;
  for (uint32_t i = 0; i < n; ++i) q += (s[i] - mean) * (s[i] - mean) * SAMPLES;
  sx::check(near(r.variance, q / (N - 1)), "variance of the samples");
  sx::check(near(r.stdDev, sqrt(r.variance)), "standard deviation of the samples");
  sx::check(r.xRayThresholdNSigma == xs && r.backgroundThresholdNSigma == bs, "numbers of standard deviations");
  sx::check(near(r.xRayThreshold, r.mean + xs * r.stdDev), "X-ray threshold");
  sx::check(r.optimizedMean == sxlm::g_state[1] && r.optimizedStdDev == dabs(sxlm::g_state[2]), "result of the fit");
  sx::check(near(r.backgroundThreshold, sxlm::g_state[1] + bs * dabs(sxlm::g_state[2])), "background threshold");
  // histogram
  sx::check(r.numberOfBins == (int)sxlm::nbins && r.numberOfBins > 0, "number of bins");
  double top = 0;
  for (long b = 0; b < sxlm::nbins; ++b) {
#ifdef FEWBINS
    // only the bins at the ends, which are consecutive by the other configurations
    if (b >= 3 && b < sxlm::nbins - 3) continue;
    if (b) sxlm::bins[b] = sxlm::bins[0] + (int)b;
    else sx::check(sxlm::found[0] && (double)sxlm::bins[0] == lo, "the first bin is that of the smallest sample");
#else
    sx::check(sxlm::found[b], "bins are integers within the range of the samples");
    if (b) sx::check(sxlm::bins[b] == sxlm::bins[b - 1] + 1, "bins are one wide and consecutive");
#endif
    double c = 0;
    for (uint32_t i = 0; i < n; ++i) if (s[i] >= sxlm::bins[b] && s[i] < sxlm::bins[b] + 1) c += SAMPLES;
    sx::check(sxlm::hist[b] == c, "every sample is counted once in its bin");
    top = c > top ? c : top;
  }
#ifdef FULLRANGE
  // the limit of the histogram lies outside the range of the samples
  sx::check((double)sxlm::bins[0] <= lo && (double)sxlm::bins[sxlm::nbins - 1] + 1 >= hi, "the histogram covers the samples below the X-ray limit");
#endif
  sx::check(near(sxlm::initial[0], top) && near(sxlm::initial[1], r.mean) && near(sxlm::initial[2], r.stdDev), "the fit starts from the statistics of the samples");
  sx::reach("done");
}
