// Block construction helpers shared by the harnesses.
#pragma once
#include "sx.h"
#include "stempy/reader.h"
#include <vector>
namespace hb {
// A minimal input iterator over prepared blocks (the electronCount/STEM
// templates accept any iterator with header/data access).
struct BlockIt
{
  std::vector<stempy::Block> *v;
  size_t i;
  typedef stempy::Block value_type;
  typedef stempy::Block &reference;
  typedef stempy::Block *pointer;
  typedef std::input_iterator_tag iterator_category;
  typedef void difference_type;
  BlockIt(std::vector<stempy::Block> *v_, size_t i_) : v(v_), i(i_) {}
  BlockIt &operator++() { ++i; return *this; }
  stempy::Block &operator*() { return (*v)[i]; }
  stempy::Block *operator->() { return &(*v)[i]; }
  bool operator==(const BlockIt &o) const { return i == o.i; }
  bool operator!=(const BlockIt &o) const { return i != o.i; }
};
inline stempy::Block make(uint32_t w, uint32_t h, uint32_t sw, uint32_t sh, const std::vector<uint32_t> &nums)
{
  stempy::Header hd;
  hd.frameDimensions = { w, h };
  hd.scanDimensions = { sw, sh };
  hd.imagesInBlock = (uint32_t)nums.size();
  hd.imageNumbers = nums;
  hd.version = 5;
  hd.complete.resize(nums.size(), true);
  return stempy::Block(hd);
}
}
