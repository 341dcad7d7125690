// R10: export of sector files to HDF5, frame and data cube form, and the fraction of data captured.
#include "sector.h"
#ifdef SX_SYM
#include "h5sym.h"
#else
#include <hdf5.h>
#endif
using namespace stempy;
static std::vector<size_t> readBack(const std::string &path, const char *name, std::vector<uint16_t> &px)
{
  hid_t f = H5Fopen(path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
  sx::check(f >= 0, "the file is there");
  hid_t d = H5Dopen2(f, name, H5P_DEFAULT);
  sx::check(d >= 0, "the data set is there");
  std::vector<size_t> r;
  if (d < 0) return r;
  hid_t s = H5Dget_space(d);
  hsize_t dims[8];
  int n = H5Sget_simple_extent_dims(s, dims, nullptr);
  size_t total = 1;
  for (int i = 0; i < n; ++i) { r.push_back(dims[i]); total *= dims[i]; }
  if (total && total < 100 * FPX) {
    px.resize(total);
    sx::check(H5Dread(d, H5T_NATIVE_UINT16, H5S_ALL, H5S_ALL, H5P_DEFAULT, px.data()) >= 0, "the data are 16 bit unsigned");
  }
#if FORMAT == 0
  int sd[2] = { -1, -1 };
  hid_t a = H5Aopen_by_name(f, name, "scan_dimensions", H5P_DEFAULT, H5P_DEFAULT);
  sx::check(a >= 0, "scan_dimensions is there");
  if (a >= 0) { H5Aread(a, H5T_NATIVE_INT, sd); H5Aclose(a); }
  sx::check(sd[0] == SW && sd[1] == SH, "scan_dimensions as in the headers");
#endif
  H5Sclose(s); H5Dclose(d); H5Fclose(f);
  return r;
}
extern "C" void sx_main()
{
  Head h[NP];
  std::vector<Sector> files[4];
  bool have[NP][4];
  int total = 0;
#if FORMAT == 2
  uint16_t sw = sx::any<uint16_t>("sw"), sh = sx::any<uint16_t>("sh");
  sx::assume(sw > 0 && sh > 0);
#else
  uint16_t sw = SW, sh = SH;
#endif
  for (int p = 0; p < NP; ++p) {
    h[p].scan = sx::any<uint32_t>("scan"); h[p].frame = sx::any<uint32_t>("frame");
    h[p].sw = sw; h[p].sh = sh;
#if FORMAT == 2
    h[p].x = sx::any<uint16_t>("x"); h[p].y = sx::any<uint16_t>("y");
#else
    h[p].x = (uint16_t)sx::choose(0, SW - 1, "x"); h[p].y = (uint16_t)sx::choose(0, SH - 1, "y");
    for (int q = 0; q < p; ++q) sx::assume(h[p].x != h[q].x || h[p].y != h[q].y);
#endif
  }
  uint16_t v[NP][4][NSP];
  static const int order[4][NP] = ORDERS;
  static const int fixed[4] = FIXED;
  for (int m = 0; m < 4; ++m)
    for (int q = 0; q < NP; ++q) {
      int p = order[m][q];
      have[p][m] = fixed[m] || sx::chooseFlag("have");
      if (!have[p][m]) continue;
      ++total;
      Sector s;
      s.h = h[p]; s.module = m;
      sx::fill(s.v, NSP, "px");
      memcpy(v[p][m], s.v, sizeof(s.v));
      files[m].push_back(s);
    }
  std::vector<std::string> names;
  for (int m = 0; m < 4; ++m) {
    auto n = fileName(m, m);
    sxf::File f(n.c_str());
    if (files[m].size()) f.resize(files[m].size() * SEC);
    for (size_t i = 0; i < files[m].size(); ++i) putSector(f, i * SEC, files[m][i]);
    f.close();
    names.push_back(sxf::path(n.c_str()));
  }
  SectorStreamReader r(names, VER);
  sx::out("total", total);
#if FORMAT == 2
  float got = r.dataCaptured();
  Dimensions2D sd = { sw, sh };
  auto expected = static_cast<uint64_t>(sd.first) * sd.second * 4;
  float want = static_cast<float>((uint64_t)total) / expected;
  uint32_t gb, wb; // compared as bits: the same term on both sides
  memcpy(&gb, &got, 4); memcpy(&wb, &want, 4);
  sx::check(gb == wb, "sectors / (4 x positions)");
  sx::reach("done");
#else
  std::string path = sxf::path("out.h5");
  r.toHdf5(path, FORMAT ? SectorStreamReader::H5Format::DataCube : SectorStreamReader::H5Format::Frame);
  sx::check(total > 0, "something was written");
  std::vector<uint16_t> px;
#if FORMAT == 0
  auto dims = readBack(path, "/frames", px);
  sx::check(dims.size() == 3 && dims[0] == SW * SH && dims[1] == 576 && dims[2] == 576, "positions x rows x columns");
#else
  auto dims = readBack(path, "/datacube", px);
  sx::check(dims.size() == 4 && dims[0] == SW && dims[1] == SH && dims[2] == 576 && dims[3] == 576, "scan dimensions x rows x columns");
#endif
  if (px.size() != FPX * SW * SH) return;
  std::vector<uint16_t> want(FPX * SW * SH);
  for (int p = 0; p < NP; ++p)
    for (int m = 0; m < 4; ++m)
      if (have[p][m])
        for (int i = 0; i < NSP; ++i)
          want[(FORMAT ? (size_t)h[p].x * SH + h[p].y : (size_t)h[p].y * SW + h[p].x) * FPX + place(m, SPARSE[i])] = v[p][m][i];
  sx_assert_mem_raw(px.data(), want.data(), 2 * FPX * SW * SH, "every sector at its place, zero elsewhere");
  sx::reach("done");
#endif
}
