// Sector files: 16 byte headers, each followed by one sector of 82944 pixels.
#pragma once
#include "stempy/reader.h"
#include "sxfile.h"
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>
#ifndef PREFIX
#define PREFIX ""
#endif
#ifndef VER
#define VER 5
#endif
static const size_t SPX = 144 * 576, SEC = 16 + 2 * SPX, FPX = 576 * 576;
struct Head { uint32_t scan, frame; uint16_t sw, sh, x, y; };
static_assert(sizeof(Head) == 16, "header layout");
inline uint32_t posOf(const Head &h) { return (uint32_t)h.y * h.sw + h.x; }
// where pixel i of a sector lies in the frame
inline size_t place(int module, size_t i)
{
#if VER == 4
  return (i / 144) * 576 + module * 144 + i % 144;
#else
  return module * SPX + i;
#endif
}
// a few symbolic pixels, the others zero
static const size_t SPARSE[] = { 0, 143, 144, 576, 41471, SPX - 1 };
static const int NSP = sizeof(SPARSE) / sizeof(SPARSE[0]);
struct Sector
{
  Head h;
  int module;
  uint16_t v[NSP];
};
inline void putSector(sxf::File &f, size_t off, const Sector &s)
{
  f.put(off, &s.h, 16);
  for (int i = 0; i < NSP; ++i) f.put(off + 16 + 2 * SPARSE[i], &s.v[i], 2);
}
inline std::string fileName(int k, int module) { return PREFIX "d" + std::to_string(k) + "_module" + std::to_string(module) + "_x.data"; }
