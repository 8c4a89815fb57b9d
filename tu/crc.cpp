// Instantiates the checksum templates for every supported width and both bit orders.
#include <cstdint>
#include <string_view>
#include "novatel_edie/common/crc.hpp"
#include "novatel_edie/decoders/oem/crc.hpp"

namespace novatel::edie {
#define INST(T, P, R)                                                                                                                                 \
    template void CalculateCharacterCrc<T, P, R>(T&, unsigned char);                                                                                  \
    template T CalculateBlockCrc<T, P, R>(const unsigned char*, uint32_t, T);                                                                         \
    template T CalculateBlockCrc<T, P, R>(std::string_view, T);
INST(uint8_t, 0x2F, false)
INST(uint8_t, 0xF4, true)
INST(uint16_t, 0x1021, false)
INST(uint16_t, 0x8408, true)
INST(uint32_t, 0xF4ACFB13UL, false)
INST(uint32_t, 0xC8DF352FUL, true)
INST(uint32_t, 0xEDB88320UL, true)
INST(uint64_t, 0x42F0E1EBA9EA3693UL, false)
INST(uint64_t, 0xC96C5795D7870F42UL, true)
template void CalculateCharacterCrc32<>(uint32_t&, unsigned char);
template uint32_t CalculateBlockCrc32<>(const unsigned char*, uint32_t, uint32_t);
template uint32_t CalculateBlockCrc32<>(std::string_view);
} // namespace novatel::edie
