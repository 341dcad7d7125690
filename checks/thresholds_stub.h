// Cut: calculateThresholds (decided separately by E06) returns arbitrary
// thresholds chosen by the harness.
#pragma once
#include "stempy/electronthresholds.h"
namespace thr {
static double bg = 0, xray = 0, mean = 0;
static int calls = 0;
static size_t blocksSeen = 0;
template <typename F> stempy::CalculateThresholdsResults<F> get(std::vector<stempy::Block> &blocks)
{
  ++calls;
  blocksSeen = blocks.size();
  stempy::CalculateThresholdsResults<F> r;
  r.backgroundThreshold = bg;
  r.xRayThreshold = xray;
  r.optimizedMean = mean;
  r.numberOfSamples = 7; r.minSample = 1; r.maxSample = 2; r.mean = 3; r.variance = 4; r.stdDev = 5;
  r.numberOfBins = 6; r.xRayThresholdNSigma = 8; r.backgroundThresholdNSigma = 9; r.optimizedStdDev = 10;
  return r;
}
}
namespace stempy {
#define THR_STUB(F, D)                                                                                        \
  template <> CalculateThresholdsResults<F> calculateThresholds<Block, F, D>(                                  \
    std::vector<Block> & b, const float *, int, double, double, const float *) { return thr::get<F>(b); }
THR_STUB(uint16_t, true)
THR_STUB(uint16_t, false)
THR_STUB(float, true)
THR_STUB(float, false)
}
