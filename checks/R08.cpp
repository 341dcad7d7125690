// R08: malformed sector files.  One frame position (two in the cut file); the
// cut file is cut at every listed byte, modules and headers may be wrong.
#include "sector.h"
using namespace stempy;
struct Got { uint32_t pos; Block b; };
static std::vector<Got> got;
static bool failed;
#ifdef TRUNC
static const int NPOS = 2;
#else
static const int NPOS = 1;
#endif
template <typename R> static void run(R &r)
{
#if MODE == 0
  for (;;) {
    Block b = r.read();
    if (!b.data) break;
    got.push_back(Got{ b.header.imageNumbers.at(0), b });
    if (got.size() > 8) break;
  }
#else
  auto f = [](Block &b) { got.push_back(Got{ b.header.imageNumbers.at(0), b }); };
  auto done = r.readAll(f);
  done.get();
#endif
}
extern "C" void sx_main()
{
  Head h[2];
  for (int p = 0; p < 2; ++p) {
    h[p].scan = sx::any<uint32_t>("scan");
    h[p].frame = (uint32_t)p + 5;
    h[p].sw = SW;
    h[p].sh = SH;
#ifdef ANYPOS
    h[p].x = sx::any<uint16_t>("x");
    h[p].y = sx::any<uint16_t>("y");
#else
    h[p].x = p;
    h[p].y = 0;
#endif
  }
  static const int mods[] = MODS;
  const int NFI = sizeof(mods) / sizeof(mods[0]);
  size_t cut = NPOS * SEC;
#ifdef TRUNC
  static const size_t at[] = { 0, 1, 4, 8, 9, 12, 15, 16, 17, 303, 304, 305, 165000, SEC - 1, SEC, SEC + 1, SEC + 8, SEC + 12, SEC + 15, SEC + 16, SEC + 17, SEC + 18, SEC + 304, SEC + 1200, 2 * SEC - 1, 2 * SEC };
  cut = at[sx::choose(0, sizeof(at) / sizeof(at[0]) - 1, "cut")];
#endif
  std::vector<std::string> names;
  uint16_t v[2][4][NSP];
  bool good = true;
  for (int k = 0; k < NFI; ++k) {
    std::string n = mods[k] < 0 ? std::string("d") + std::to_string(k) + ".data" : fileName(k, mods[k]);
    if (mods[k] < 0 || mods[k] > 3) good = false;
    sxf::File f(n.c_str());
    std::vector<char> img;
    Sector s[2];
    for (int q = 0; q < NPOS; ++q) {
      int p = k == 0 ? NPOS - 1 - q : q; // the cut file has its positions the other way round
      s[q].h = h[p];
      sx::fill(s[q].v, NSP, "px");
      memcpy(v[p][k], s[q].v, sizeof(s[q].v));
    }
    size_t size = k == 0 ? cut : NPOS * SEC;
    if (size) f.resize(size);
    for (int q = 0; q < NPOS; ++q) {
      size_t off = q * SEC;
      for (size_t i = 0; i < 16; ++i) if (off + i < size) f.put(off + i, (char *)&s[q].h + i, 1);
      for (int i = 0; i < NSP; ++i)
        for (size_t b = 0; b < 2; ++b) { size_t o = off + 16 + 2 * SPARSE[i] + b; if (o < size) f.put(o, (char *)&s[q].v[i] + b, 1); }
    }
    f.close();
    names.push_back(sxf::path(n.c_str()));
  }
  try {
#if MODE == 0
    SectorStreamReader r(names, VER);
#elif MODE == 1
    SectorStreamThreadedReader r(names, VER, NT);
#else
    SectorStreamMultiPassThreadedReader r(names, NT);
#endif
    run(r);
  } catch (const std::exception &) {
    failed = true;
  }
  sx::out("failed", failed);
  sx::out("n", got.size());
#ifdef TRUNC
  size_t rest = cut % SEC;
  if (rest == 0 && !(MODE == 2 && cut == 0)) sx::check(!failed, "whole sectors are read");
  if (failed) { sx::reach("rejected"); return; }
  // as far as complete: every other sector is in place, the cut one as far as it goes, zero elsewhere
  for (auto &g : got) {
    int p = g.pos == 0 ? 0 : 1;
    sx::check(g.pos <= 1 && g.b.header.imageNumbers.size() == 1, "a position of the files");
    size_t q = NPOS - 1 - p; // its place in the cut file
    std::vector<uint16_t> want(FPX);
    for (int k = 0; k < 4; ++k)
      for (int i = 0; i < NSP; ++i) {
        uint16_t w = v[p][k][i];
        if (k == 0) {
          size_t o = q * SEC + 16 + 2 * SPARSE[i];
          if (o >= cut) w = 0;
          else if (o + 1 >= cut) w = w & 0xff;
        }
        want[place(mods[k], SPARSE[i])] = w;
      }
    sx_assert_mem_raw(g.b.data.get(), want.data(), 2 * FPX, "what the files hold, zero elsewhere");
  }
#if MODE == 1
  sx::check(got.size() == (cut >= SEC + 16 ? 2u : cut >= 16 ? 1u : 0u), "complete frames are delivered");
#else
  sx::check(got.size() == 2, "every position is delivered");
#endif
  sx::reach("read");
#else
  if (!good) { sx::check(failed, "a sector of an unknown module is an error"); sx::reach("rejected"); }
  else {
    bool in = (uint64_t)h[0].y * h[0].sw + h[0].x < (uint64_t)SW * SH;
#if MODE == 2
    if (!in) { sx::check(failed, "a position outside the scan is an error"); sx::reach("rejected"); }
#endif
    if (!failed) {
      sx::check(MODE != 2 || in, "position within the scan");
      for (auto &g : got) sx::check(g.pos == posOf(h[0]), "position of the header");
      sx::check(got.size() == 1, "one frame");
      sx::reach("read");
    } else
      sx::check(MODE == 2 && !in, "no error for a position of the scan");
  }
#endif
}
