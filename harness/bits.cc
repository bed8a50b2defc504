#include "opaque.h"
#include "utl/for_each_bit_set.h"
extern "C" {
void bs8(std::uint8_t levels) { utl::for_each_set_bit(levels, [](auto b) { evi(1, static_cast<long>(b)); }); }
void bs16(std::uint16_t levels) { utl::for_each_set_bit(levels, [](auto b) { evi(1, static_cast<long>(b)); }); }
void bs32(std::uint32_t levels) { utl::for_each_set_bit(levels, [](auto b) { evi(1, static_cast<long>(b)); }); }
void bs64(std::uint64_t levels) { utl::for_each_set_bit(levels, [](auto b) { evi(1, static_cast<long>(b)); }); }
bool hb8(std::uint8_t levels, unsigned bit) { return utl::has_bit_set(levels, bit); }
bool hb16(std::uint16_t levels, unsigned bit) { return utl::has_bit_set(levels, bit); }
bool hb32(std::uint32_t levels, unsigned bit) { return utl::has_bit_set(levels, bit); }
bool hb64(std::uint64_t levels, unsigned bit) { return utl::has_bit_set(levels, bit); }
}
