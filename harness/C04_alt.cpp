// Morton encoding in the configuration without hardware bit deposit.
#include <um2/math/morton.hpp>

#define EXPORT extern "C" __attribute__((visibility("default")))

EXPORT auto
alt_enc2_32(uint32_t x, uint32_t y) -> uint32_t
{
  return um2::mortonEncode(x, y);
}
EXPORT auto
alt_enc3_32(uint32_t x, uint32_t y, uint32_t z) -> uint32_t
{
  return um2::mortonEncode(x, y, z);
}
EXPORT auto
alt_enc2_64(uint64_t x, uint64_t y) -> uint64_t
{
  return um2::mortonEncode(x, y);
}
EXPORT auto
alt_enc3_64(uint64_t x, uint64_t y, uint64_t z) -> uint64_t
{
  return um2::mortonEncode(x, y, z);
}
EXPORT void
alt_dec2_32(uint32_t m, uint32_t * r)
{
  um2::mortonDecode(m, r[0], r[1]);
}
EXPORT void
alt_dec3_32(uint32_t m, uint32_t * r)
{
  um2::mortonDecode(m, r[0], r[1], r[2]);
}
EXPORT void
alt_dec2_64(uint64_t m, uint64_t * r)
{
  um2::mortonDecode(m, r[0], r[1]);
}
EXPORT void
alt_dec3_64(uint64_t m, uint64_t * r)
{
  um2::mortonDecode(m, r[0], r[1], r[2]);
}
EXPORT auto
alt_encr2(double x, double y) -> uint64_t
{
  return um2::mortonEncode<uint64_t>(x, y);
}
EXPORT auto
alt_encr3(double x, double y, double z) -> uint64_t
{
  return um2::mortonEncode<uint64_t>(x, y, z);
}
