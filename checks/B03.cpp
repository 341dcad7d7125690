// B03: counting options, metadata, counted data and sparse frames cross the binding unchanged.
#include "stempy/image.h"
#include <pybind11/numpy.h>
#include <pybind11/pybind11.h>
#include <functional>
namespace hb {
typedef std::vector<std::vector<pybind11::array>> Frames;
static std::vector<stempy::STEMImage> (*unused)();
static std::function<std::vector<stempy::STEMImage>(Frames &, const std::vector<int> &, const std::vector<int> &, stempy::Dimensions2D, stempy::Dimensions2D, stempy::Coordinates2D)> sparse;
}
namespace pybind11 {
template <class A> struct def_hook<std::vector<stempy::STEMImage> (*)(const std::vector<std::vector<A>> &, const std::vector<int> &, const std::vector<int> &, stempy::Dimensions2D, stempy::Dimensions2D, stempy::Coordinates2D)>
{
  typedef std::vector<stempy::STEMImage> (*F)(const std::vector<std::vector<A>> &, const std::vector<int> &, const std::vector<int> &, stempy::Dimensions2D, stempy::Dimensions2D, stempy::Coordinates2D);
  static void run(const char *n, F f)
  {
    if (std::string(n) != "create_stem_images") return;
    hb::sparse = [f](hb::Frames &fr, const std::vector<int> &a, const std::vector<int> &b, stempy::Dimensions2D s, stempy::Dimensions2D d, stempy::Coordinates2D c) {
      std::vector<std::vector<A>> v(fr.size()); // what the argument caster does
      for (size_t i = 0; i < fr.size(); ++i) for (auto &x : fr[i]) v[i].push_back(A(x));
      return f(v, a, b, s, d, c);
    };
  }
};
}
namespace hb {
// the patterns of a reader: a dark reference that is an image has to be what an average is
template <class It> struct Pat
{
  std::function<stempy::Image<double>(It, It)> average, maximum;
  std::function<stempy::Image<double>(It, It, stempy::Image<double> &)> dark;
  bool other = false;
};
template <class It> Pat<It> &pat() { static Pat<It> p; return p; }
template <class T> struct is_image : std::false_type {};
template <class T> struct is_image<stempy::Image<T>> : std::true_type {};
template <class It, class X> typename std::enable_if<std::is_convertible<stempy::Image<double> &, X>::value>::type setDark(stempy::Image<double> (*f)(It, It, X))
{
  pat<It>().dark = [f](It a, It b, stempy::Image<double> &d) { return f(a, b, d); };
}
template <class It, class X> typename std::enable_if<!std::is_convertible<stempy::Image<double> &, X>::value>::type setDark(stempy::Image<double> (*)(It, It, X))
{
  pat<It>().other = !is_image<typename std::decay<X>::type>::value;
}
}
namespace pybind11 {
template <class It> struct def_hook<stempy::Image<double> (*)(It, It)>
{
  static void run(const char *n, stempy::Image<double> (*f)(It, It))
  {
    if (std::string(n) == "calculate_average") hb::pat<It>().average = f;
    if (std::string(n) == "maximum_diffraction_pattern") hb::pat<It>().maximum = f;
  }
};
template <class It, class X> struct def_hook<stempy::Image<double> (*)(It, It, X)>
{
  static void run(const char *n, stempy::Image<double> (*f)(It, It, X)) { if (std::string(n) == "maximum_diffraction_pattern") hb::setDark(f); }
};
}
#include "python/image.cpp"
using namespace stempy;
template <class M, class T> static M &fld(T &o, const char *n)
{
  auto &f = py::info<T>().fields;
  sx::check(f.count(n) != 0, "the attribute exists");
  return *(M *)f[n](&o);
}
static py::array floats(std::vector<float> &v, const char *n)
{
  for (auto &x : v) x = (float)sx::range(0, 255, n);
  return py::array((ssize_t)v.size(), v.data(), py::capsule());
}
static void same(float *p, const std::vector<float> &v, bool given, const char *what)
{
  if (!given) { sx::check(p == nullptr, what); return; }
  sx::check(p != nullptr, what);
  for (size_t i = 0; i < v.size(); ++i) sx::check(p[i] == v[i], what);
}
#if MODE == 4
#include "sxfile.h"
#include <algorithm>
template <class It> static void patterns(It a, It b, const char *what)
{
  (void)a; (void)b;
  auto &p = hb::pat<It>();
  sx::check((bool)p.average && (bool)p.maximum, what);
  sx::check((bool)p.dark || p.other, "the average of a reader can be the dark reference");
}
#endif
extern "C" void sx_main()
{
  py::module_ m;
  pybind11_init__image(m);
  std::vector<float> dk(3), gn(3);
#if MODE == 0
  int d = (int)sx::choose(0, 2, "dark"), g = (int)sx::choose(0, 2, "gain"); // 0: untouched, 1: None, 2: an array
  py::array da = floats(dk, "d"), ga = floats(gn, "g");
  float nan1 = 0;
  py::array none((ssize_t)1, &nan1, py::capsule());
  double bg = (double)sx::range(-1000, 1000, "bg"), xr = (double)sx::range(-1000, 1000, "xr");
  uint32_t sw = sx::any<uint32_t>("sw"), sh = sx::any<uint32_t>("sh");
  bool rd = sx::flag("rd"), um = sx::flag("um");
#ifdef THREADED
  typedef ElectronCountOptionsPy O;
  O o;
  int nb = sx::any<int>("nb"), ns = sx::any<int>("ns");
  bool vb = sx::flag("vb");
  fld<int>(o, "threshold_number_of_blocks") = nb;
  fld<int>(o, "number_of_samples") = ns;
  fld<double>(o, "background_threshold_n_sigma") = bg;
  fld<double>(o, "x_ray_threshold_n_sigma") = xr;
  fld<bool>(o, "verbose") = vb;
#else
  typedef ElectronCountOptionsClassicPy O;
  O o;
  float om = (float)sx::range(0, 4095, "om");
  fld<double>(o, "background_threshold") = bg;
  fld<double>(o, "x_ray_threshold") = xr;
  fld<float>(o, "optimized_mean") = om;
#endif
  fld<Dimensions2D>(o, "scan_dimensions") = { sw, sh };
  fld<bool>(o, "apply_row_dark_subtraction") = rd;
  fld<bool>(o, "apply_row_dark_use_mean") = um;
  typedef decltype(o.darkReference) AT;
  if (d) fld<AT>(o, "dark_reference") = AT(d == 1 ? none : da);
  if (g) fld<AT>(o, "gain") = AT(g == 1 ? none : ga);
  auto c = o.toCpp();
  sx::check(c.scanDimensions.first == sw && c.scanDimensions.second == sh, "scan dimensions");
  sx::check(c.applyRowDarkSubtraction == rd && c.applyRowDarkUseMean == um, "row dark options");
  same(c.darkReference, dk, d == 2, "dark reference");
  same(c.gain, gn, g == 2, "gain");
#ifdef THREADED
  sx::check(c.thresholdNumberOfBlocks == nb && c.numberOfSamples == ns && c.verbose == vb, "sampling options");
  sx::check(c.backgroundThresholdNSigma == bg && c.xRayThresholdNSigma == xr, "thresholds");
#else
  sx::check(c.optimizedMean == om && c.backgroundThreshold == bg && c.xRayThreshold == xr, "thresholds");
#endif
#elif MODE == 1
  // counted data
  ElectronCountedData e;
  uint32_t np = (uint32_t)sx::choose(1, 2, "positions"), nf = (uint32_t)sx::choose(0, 2, "frames");
  std::vector<std::vector<std::vector<uint32_t>>> want(np);
  e.data.resize(np);
  for (uint32_t i = 0; i < np; ++i)
    for (uint32_t j = 0; j < nf; ++j) {
      std::vector<uint32_t> ev((size_t)sx::choose(0, 2, "n"));
      for (auto &x : ev) x = sx::any<uint32_t>("e");
      want[i].push_back(ev);
      e.data[i].push_back(ev);
    }
  e.scanDimensions = { sx::any<uint32_t>("sw"), sx::any<uint32_t>("sh") };
  e.frameDimensions = { sx::any<uint32_t>("fw"), sx::any<uint32_t>("fh") };
  Dimensions2D sd = e.scanDimensions, fd = e.frameDimensions;
  e.metadata.mean = (double)sx::range(0, 1000, "mean");
  double mean = e.metadata.mean;
  py::gil_state::get().checked = true;
  {
    ElectronCountedDataPyArray a(std::move(e));
    py::gil_scoped_acquire gil;
    auto &data = fld<decltype(a.data)>(a, "data");
    sx::check((fld<Dimensions2D>(a, "scan_dimensions")) == sd && (fld<Dimensions2D>(a, "frame_dimensions")) == fd, "dimensions");
    sx::check(fld<ElectronCountedMetadata>(a, "metadata").mean == mean, "metadata");
    sx::check(data.size() == np, "positions");
    for (uint32_t i = 0; i < np; ++i) {
      sx::check(data[i].size() == nf, "frames");
      for (uint32_t j = 0; j < nf; ++j) {
        sx::check(data[i][j].ndim() == 1 && data[i][j].size() == (ssize_t)want[i][j].size(), "electrons of the frame");
        for (size_t k = 0; k < want[i][j].size(); ++k) sx::check(*data[i][j].data(k) == want[i][j][k], "electron");
      }
    }
    std::vector<std::vector<typename std::decay<decltype(data[0][0])>::type>> gone; // Python frees its arrays with the GIL held
    gone.swap(data);
    gone.clear();
  }
#elif MODE == 2
  // sparse frames of any memory layout
  const uint32_t fw = 3, fh = 2;
  uint32_t buf[3][6];
  hb::Frames fr(3);
  uint64_t want[3] = { 0, 0, 0 };
  int in = (int)sx::choose(0, 1, "inner"), out = in + (int)sx::choose(1, 2, "span");
  Coordinates2D ctr{ (int)sx::choose(0, 2, "cx"), (int)sx::choose(0, 1, "cy") };
  int layout = (int)sx::choose(0, 2, "layout"); // contiguous, every second element, backwards
  for (int p = 0; p < 3; ++p) {
    for (auto &x : buf[p]) x = (uint32_t)sx::range(0, 5, "px");
    int n = p == 1 ? 3 : 2;
    py::array a((ssize_t)n, (const uint32_t *)buf[p], py::capsule());
    if (layout == 1) a.st_[0] = 8;
    if (layout == 2) { a.p_ += 4 * (n - 1); a.st_[0] = -4; }
    for (int k = 0; k < n; ++k) {
      uint32_t e = buf[p][layout == 1 ? 2 * k : layout == 2 ? n - 1 - k : k];
      for (uint32_t q = 0; q < fw * fh; ++q) {
        int dx = (int)(q % fw) - ctr.first, dy = (int)(q / fw) - ctr.second, r2 = dx * dx + dy * dy;
        want[p] += (e == q) & (r2 >= in * in && r2 < out * out);
      }
    }
    fr[p].push_back(a);
  }
  sx::check((bool)hb::sparse, "sparse frames can be passed");
  auto r = hb::sparse(fr, std::vector<int>{ in }, std::vector<int>{ out }, { 3, 1 }, { fw, fh }, ctr);
  sx::check(r.size() == 1, "one image");
  for (int p = 0; p < 3; ++p) sx::check(r[0].data.get()[p] == want[p] * 65535, "electrons inside the annulus");
#elif MODE == 4
  // a version 1 file of two blocks with one frame each
  const uint32_t w = 3, h = 2, n = w * h;
  uint16_t px[2][n];
  sxf::File file("a.dat");
  file.resize(2 * (4096 + 2 * n));
  for (int i = 0; i < 2; ++i) {
    uint32_t hd[1024] = { 1, h, w, 1, 5 };
    hd[10] = i + 1;
    sx::fill(px[i], n, "px");
    file.put(i * (4096 + 2 * n), hd, 4096);
    file.put(i * (4096 + 2 * n) + 4096, px[i], 2 * n);
  }
  file.close();
  StreamReader r(sxf::path("a.dat"));
  typedef decltype(r.begin()) It;
  patterns(r.begin(), r.end(), "patterns of stream files");
  patterns(SectorStreamReader::iterator(nullptr), SectorStreamReader::iterator(nullptr), "patterns of sector files");
  patterns(PyReader::iterator(nullptr), PyReader::iterator(nullptr), "patterns of Python readers");
  auto &p = hb::pat<It>();
  StreamReader r1(sxf::path("a.dat")), r2(sxf::path("a.dat")), r3(sxf::path("a.dat"));
  auto av = p.average(r1.begin(), r1.end());
  auto mx = p.maximum(r2.begin(), r2.end());
  if (p.dark) {
    auto dk = p.dark(r3.begin(), r3.end(), av);
    for (uint32_t i = 0; i < n; ++i) sx::check(dk.data.get()[i] == (double)(2 * std::max<int64_t>(px[0][i], px[1][i]) - px[0][i] - px[1][i]) / 2.0, "maximum less the average");
  }
  for (uint32_t i = 0; i < n; ++i) {
    sx::check(av.data.get()[i] == (double)(px[0][i] + px[1][i]) / 2.0, "average");
    sx::check(mx.data.get()[i] == (double)std::max(px[0][i], px[1][i]), "maximum");
  }
#else
  typedef ElectronCountedMetadata M;
  M x;
  typedef std::pair<const char *, const void *> E;
  for (auto &e : { E("threshold_calculated", &x.thresholdCalculated), E("background_threshold", &x.backgroundThreshold), E("x_ray_threshold", &x.xRayThreshold), E("number_of_samples", &x.numberOfSamples),
                   E("min_sample", &x.minSample), E("max_sample", &x.maxSample), E("mean", &x.mean), E("variance", &x.variance), E("std_dev", &x.stdDev), E("number_of_bins", &x.numberOfBins),
                   E("x_ray_threshold_n_sigma", &x.xRayThresholdNSigma), E("background_threshold_n_sigma", &x.backgroundThresholdNSigma), E("optimized_mean", &x.optimizedMean), E("optimized_std_dev", &x.optimizedStdDev) })
    sx::check((const void *)&fld<char>(x, e.first) == e.second, "metadata attribute");
  auto res = [](auto &y) {
    for (auto &e : { E("background_threshold", &y.backgroundThreshold), E("xray_threshold", &y.xRayThreshold), E("number_of_samples", &y.numberOfSamples),
                     E("min_sample", &y.minSample), E("max_sample", &y.maxSample), E("mean", &y.mean), E("variance", &y.variance), E("std_dev", &y.stdDev), E("number_of_bins", &y.numberOfBins),
                     E("xray_threshold_n_sigma", &y.xRayThresholdNSigma), E("background_threshold_n_sigma", &y.backgroundThresholdNSigma), E("optimized_mean", &y.optimizedMean), E("optimized_std_dev", &y.optimizedStdDev) })
      sx::check((const void *)&fld<char>(y, e.first) == e.second, "threshold result attribute");
  };
  CalculateThresholdsResults<uint16_t> ru;
  CalculateThresholdsResults<float> rf;
  res(ru);
  res(rf);
#endif
  sx::reach("done");
}
