// B02: a reader over a Python data set delivers every frame exactly once, in order, whatever the memory layout of
// the array a slice returns, and touches Python objects only while it holds the GIL.
#include "stempy/image.h"
#include "python/pyreader.cpp"
#include <cstring>
using namespace stempy;
namespace py = pybind11;
static const uint32_t N = NTOT;
static uint16_t pix[N ? N : 1][H][W];
struct DS : py::dataset_base
{
  int layout;
  py::array get(const py::slice &s) override
  {
    sx::check(s.c == 1 && s.a >= 0 && s.a <= s.b && s.b <= (ssize_t)N, "the slice lies in the data set");
    ssize_t n = s.b - s.a;
    py::array a;
    a.isz_ = 2;
    a.sh_ = { n, H, W };
    size_t cnt = (size_t)(n ? n : 1) * H * W;
    uint16_t *q = new uint16_t[cnt * 2];
    a.own_ = std::shared_ptr<void>((void *)q, [](void *x) { delete[](uint16_t *) x; });
    a.p_ = (char *)q;
    // 0: C order, 1: Fortran order, 2: transposed frames, 3: every second column, 4: rows backwards
    switch (layout) {
    case 0: a.st_ = { 2 * H * W, 2 * W, 2 }; break;
    case 1: a.st_ = { 2, 2 * n, 2 * n * H }; break;
    case 2: a.st_ = { 2 * H * W, 2, 2 * H }; break;
    case 3: a.st_ = { 4 * H * W, 4 * W, 4 }; break;
    default: a.st_ = { 2 * H * W, -2 * W, 2 }; a.p_ += 2 * W * (H - 1);
    }
    for (ssize_t i = 0; i < n; ++i)
      for (int r = 0; r < H; ++r)
        for (int c = 0; c < W; ++c) *(uint16_t *)(a.p_ + i * a.st_[0] + r * a.st_[1] + c * a.st_[2]) = pix[s.a + i][r][c];
    return a;
  }
};
static std::vector<uint32_t> nums;
static Dimensions2D scan;
static uint32_t pos;
static void one(PyBlock &b, uint32_t bs)
{
  uint32_t n = N - pos < bs ? N - pos : bs;
  sx::check(b.header.version != 0 && b.header.imagesInBlock == n && b.header.imageNumbers.size() == n, "the block holds the next frames");
  sx::check(b.header.frameDimensions.first == W && b.header.frameDimensions.second == H, "frame dimensions");
  sx::check(b.header.scanDimensions == scan, "scan dimensions");
  for (uint32_t i = 0; i < n; ++i) {
    sx::check(b.header.imageNumbers[i] == nums[pos + i], "image numbers");
    for (int k = 0; k < H * W; ++k) sx::check(b.data.get()[i * H * W + k] == pix[pos + i][k / W][k % W], "the pixels of every frame");
  }
  pos += n;
}
extern "C" void sx_main()
{
  if (N) sx::fill(&pix[0][0][0], N * H * W, "px");
  for (uint32_t i = 0; i < N; ++i) nums.push_back(sx::any<uint32_t>("num"));
  scan = { (uint32_t)sx::any<uint16_t>("sw"), (uint32_t)sx::any<uint16_t>("sh") };
  uint32_t bs = (uint32_t)sx::choose(1, N + 1, "blocksize");
  auto ds = std::make_shared<DS>();
  ds->layout = (int)sx::choose(0, 4, "layout");
  py::gil_state::get().checked = true;
  PyReader rd(py::object(ds), nums, scan, bs, N);
  {
    // some reads, then a reset
    uint32_t pre = (uint32_t)sx::choose(0, (N + bs - 1) / bs + 1, "pre");
    for (uint32_t i = 0; i < pre; ++i) { PyBlock b = rd.read(); if (pos < N) one(b, bs); else sx::check(b.header.version == 0, "at the end blocks are empty"); }
    rd.reset();
    pos = 0;
  }
  if (sx::chooseFlag("iterate")) {
    for (auto it = rd.begin(); it != rd.end(); ++it) { sx::check(pos < N, "no block beyond the last frame"); one(*it, bs); }
  } else {
    PyBlock b;
    while (pos < N) { b = rd.read(); one(b, bs); }
    b = rd.read();
    sx::check(b.header.version == 0 && !b.data.get(), "at the end blocks are empty");
  }
  sx::check(pos == N, "every frame was delivered");
  sx::check(py::gil_state::get().depth == 0, "the GIL is released again");
  sx::reach("done");
}
