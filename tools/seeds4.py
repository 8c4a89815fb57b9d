S="src/decoders/oem/src/rangecmp/channel_tracking_status.cpp"
R="include/novatel_edie/decoders/oem/rangecmp/common.hpp"
LF="-ffunction-sections -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all"
SEEDS=[
{"id":"S15_key_satellite_number","property":"C10","kind":"src","srcs":S,"flags":LF,
 "edits":[(S,"prn << 6 | static_cast<uint64_t>(eSignalType) << 1","(prn & 0x7FU) << 6 | static_cast<uint64_t>(eSignalType) << 1")],
 "needs":"two observations whose satellite numbers differ only in the highest bit",
 "breaks":"look-up keys of different satellites collide",
 "demo":'''#include "novatel_edie/decoders/oem/rangecmp/channel_tracking_status.hpp"
#include <set>
using namespace novatel::edie; using namespace novatel::edie::oem;
int main(){ std::set<uint64_t> k; ChannelTrackingStatus c(0x00050000U); unsigned n = 0;
 for (uint32_t p = 0; p < 256; p++) for (int s = 0; s < 2; s++) { k.insert(c.MakeKey(p, s ? MEASUREMENT_SOURCE::SECONDARY : MEASUREMENT_SOURCE::PRIMARY)); n++; }
 return k.size() == n ? 0 : 1; }
'''},
{"id":"S16_filtering_bit_needs_lock","property":"C10","kind":"src","srcs":S,"flags":LF,
 "edits":[(S,"    if (bDigitalFilteringOnSignal) {","    if (bPhaseLocked && bDigitalFilteringOnSignal) {")],
 "needs":"digital filtering flagged on a signal without phase lock",
 "breaks":"the digital filtering bit is lost when the word is rebuilt",
 "demo":'''#include "novatel_edie/decoders/oem/rangecmp/channel_tracking_status.hpp"
using namespace novatel::edie; using namespace novatel::edie::oem;
int main(){ ChannelTrackingStatus base(0xFFFFFFFFU & ~(1U << 15)); uint32_t all = base.GetAsWord();
 for (uint32_t i = 0; i < 32; i++) for (uint32_t j = 0; j < 32; j++) { uint32_t w = all & ~(1U << i) & ~(1U << j); if (ChannelTrackingStatus(w).GetAsWord() != w) { return 1; } }
 return 0; }
'''},
{"id":"S17_ninth_byte_single_bit","property":"C11","kind":"log",
 "edits":[(R,"        if (extraBits > 0)\n        {\n","        if (extraBits > 1)\n        {\n")],
 "needs":"a field that reaches exactly one bit into a ninth byte",
 "breaks":"the highest bit of such a field reads as zero",
 "demo":'''#include <array>
#include "novatel_edie/decoders/oem/rangecmp/common.hpp"
using namespace novatel::edie::oem;
int main(){ unsigned char b[16]; for (auto& x : b) { x = 0xFF; }
 for (uint32_t o = 0; o < 8; o++) { unsigned char* p = b; uint32_t left = 16, off = o; if (ExtractBitfield<uint64_t, 64>(&p, left, off) != ~0ULL) { return 1; } }
 for (uint32_t o = 0; o < 8; o++) { unsigned char* p = b; uint32_t left = 16, off = o; if (ExtractBitfield<uint64_t>(&p, left, off, 64) != ~0ULL) { return 1; } }
 return 0; }
'''},
{"id":"S18_last_byte_offset_ignored","property":"C11","kind":"log",
 "edits":[(R,"    if (BitfieldBits > uiBytesLeft_ * 8 - uiBitOffset_)","    if (uiBytesLeft_ < (BitfieldBits + 7) / 8)")],
 "needs":"a truncated message whose last field starts inside the last byte",
 "breaks":"a field that runs over the end is read instead of refused",
 "demo":'''#include <array>
#include "novatel_edie/decoders/oem/rangecmp/common.hpp"
using namespace novatel::edie::oem;
int main(){ unsigned char b[16] = {}; int bad = 0;
 for (uint32_t o = 5; o < 8; o++) { unsigned char* p = b; uint32_t left = 1, off = o; try { ExtractBitfield<uint8_t, 4>(&p, left, off); bad = 1; } catch (const std::runtime_error&) {} }
 unsigned char* p = b; uint32_t left = 1, off = 4; try { ExtractBitfield<uint8_t, 4>(&p, left, off); } catch (const std::runtime_error&) { bad = 1; }
 return bad; }
'''},
]
