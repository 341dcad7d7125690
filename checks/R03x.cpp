// R03: missing files, no files, unsupported versions.
#include "stempy/reader.h"
#include "sxfile.h"
#include <stdexcept>
using namespace stempy;
extern "C" void sx_main()
{
  std::vector<char> d(8192, 1);
  sxf::write("a.dat", d.data(), d.size());
  int what = (int)sx::choose(0, 4, "what");
  bool err = false, other = false;
  try {
    if (what == 0) StreamReader r(std::vector<std::string>{}, 1);
    else if (what == 1) StreamReader r(sxf::path("none.dat"), 1);
    else if (what == 2) { // missing second file
      std::vector<char> h(4096, 0);
      sxf::write("b.dat", h.data(), h.size());
      StreamReader r(std::vector<std::string>{ sxf::path("b.dat"), sxf::path("none.dat") }, 1);
      r.read();
      r.read();
    } else if (what == 3) {
      uint8_t v = sx::any<uint8_t>("version");
      sx::assume(v < 1 || v > 3);
      StreamReader r(sxf::path("a.dat"), v);
      r.read();
    } else {
      uint8_t v = sx::any<uint8_t>("version");
      sx::assume(v < 4 || v > 5);
      SectorStreamReader r(sxf::path("a.dat"), v);
    }
  } catch (const std::invalid_argument &) {
    err = true;
  } catch (const std::exception &) {
    other = true;
  }
  sx::check(err && !other, "missing file or unsupported version is an invalid_argument error");
  sx::reach("done");
}
