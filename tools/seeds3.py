T="include/novatel_edie/decoders/common/message_counts_tracker.hpp"
H="src/decoders/oem/src/header_decoder.cpp"
O="include/novatel_edie/decoders/oem/common.hpp"
C="src/decoders/common/src/common.cpp"
HD="src/decoders/oem/src/header_decoder.cpp src/decoders/common/src/message_database.cpp src/decoders/common/src/common.cpp src/common/src/common.cpp src/common/src/logger.cpp"
LF="-ffunction-sections -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all"
HH='#include "novatel_edie/decoders/oem/header_decoder.hpp"\n#include <cstdio>\n#include <cstring>\nusing namespace novatel::edie; using namespace novatel::edie::oem;\n'
SEEDS=[
{"id":"S11_counts_dropped_at_capacity","property":"C08","kind":"hdr",
 "edits":[(T,"    void Increment(const Key& key_) { mapMyCounts[key_]++; }","    void Increment(const Key& key_)\n    {\n        // Bound the memory a corrupt stream can make us use\n        if (mapMyCounts.size() >= 4096 && mapMyCounts.find(key_) == mapMyCounts.end()) { mapMyCounts.clear(); }\n        mapMyCounts[key_]++;\n    }")],
 "needs":"more than 4096 different keys counted before a new one",
 "breaks":"counting a new key drops the counts of all others",
 "demo":'''#include "novatel_edie/decoders/common/message_counts_tracker.hpp"
#include <cstdint>
using namespace novatel::edie;
int main(){ MessageCountsTracker<uint32_t> t; for (uint32_t i = 0; i < 10000; i++) { t.Increment(i); } return t.GetCounts().size() == 10000 ? 0 : 1; }
'''},
{"id":"S12_short_abbrev_counted_as_long","property":"C08","kind":"src","srcs":HD,"flags":LF,
 "edits":[(H,"    switch (stMetaData_.eFormat)\n    {\n    case HEADER_FORMAT::ASCII:\n        ++pcTempBuf","    const HEADER_FORMAT eFormat = stMetaData_.eFormat;\n    switch (eFormat)\n    {\n    case HEADER_FORMAT::ASCII:\n        ++pcTempBuf"),(H,"Increment({stInterHeader_.usMessageId, stMetaData_.eFormat,","Increment({stInterHeader_.usMessageId, eFormat,")],
 "needs":"a short abbreviated ASCII header, whose format is only known after the port field fails",
 "breaks":"short abbreviated ASCII messages are counted as abbreviated ASCII",
 "demo":HH+'''
int main(){ auto db = std::make_shared<MessageDatabase>(); auto def = std::make_shared<MessageDefinition>(); def->logID = 325; def->name = "RAWIMU"; db->AppendMessages({def});
  HeaderDecoder d(db); IntermediateHeader h; MetaDataStruct m; unsigned char buf[256] = {}; strcpy((char*)buf, "<RAWIMU 1923 205407.000\\r\\n<     1 2 3\\r\\n");
  if (d.Decode(buf, h, m) != STATUS::SUCCESS || m.eFormat != HEADER_FORMAT::SHORT_ABB_ASCII || m.usMessageId != 325) { printf("unexpected decode %d\\n", (int)m.eFormat); return 2; }
  for (auto& [k, n] : d.GetMessageCounts()) { if (std::get<1>(k) != m.eFormat) { return 1; } }
  return d.GetMessageCounts().size() == 1 ? 0 : 1; }
'''},
{"id":"S13_source_bits_packed","property":"C09","kind":"src","srcs":C,"flags":"-ffunction-sections -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all",
 "edits":[(C,"(static_cast<uint32_t>(MESSAGE_ID_MASK::MEASSRC) & (uiSiblingId_ << 16))","(static_cast<uint32_t>(MESSAGE_ID_MASK::MEASSRC) & (static_cast<uint32_t>(static_cast<uint8_t>(uiSiblingId_ << 4)) << 12))")],
 "needs":"a measurement source above 15",
 "breaks":"the highest source bit is lost when an identifier is packed",
 "demo":'''#include "novatel_edie/decoders/common/common.hpp"
using namespace novatel::edie;
int main(){ for (uint32_t s = 0; s < 32; s++) for (uint32_t f = 0; f < 4; f++) for (uint32_t r = 0; r < 2; r++) { uint16_t id; uint32_t s2, f2, r2; UnpackMsgId(CreateMsgId(65535 - s, s, f, r), id, s2, f2, r2);
  if (id != 65535 - s || s2 != s || f2 != f || r2 != r) { return 1; } } return 0; }
'''},
{"id":"S14_short_header_keeps_source","property":"C09","kind":"src","srcs":HD,"flags":LF,
 "edits":[(H,"        stInterHeader_.ucMessageType = 0;\n","        stInterHeader_.ucMessageType &= static_cast<uint8_t>(~static_cast<uint32_t>(MESSAGE_TYPE_MASK::RESPONSE));\n")],
 "needs":"a short binary header decoded into a structure that last held a message from another source",
 "breaks":"the source of the previous message is reported for the short one",
 "demo":HH+'''
int main(){ auto db = std::make_shared<MessageDatabase>(); HeaderDecoder d(db); IntermediateHeader h; MetaDataStruct m; Oem4BinaryHeader b; b.ucSync1 = 0xAA; b.ucSync2 = 0x44; b.ucSync3 = 0x12; b.ucHeaderLength = 28; b.usMsgNumber = 43; b.ucMsgType = 1;
  unsigned char buf[64] = {}; memcpy(buf, &b, sizeof b); if (d.Decode(buf, h, m) != STATUS::SUCCESS || m.ucSiblingId != 1) { return 2; }
  Oem4BinaryShortHeader s; s.ucSync1 = 0xAA; s.ucSync2 = 0x44; s.ucSync3 = 0x13; s.usMessageId = 325; memset(buf, 0, sizeof buf); memcpy(buf, &s, sizeof s);
  if (d.Decode(buf, h, m) != STATUS::SUCCESS) { return 2; } return m.ucSiblingId == 0 && !m.bResponse ? 0 : 1; }
'''},
]
