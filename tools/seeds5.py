P="src/decoders/oem/src/parser.cpp"
F="include/novatel_edie/decoders/common/file_parser.hpp"
ALL="$(find src/common/src src/decoders/common/src src/decoders/oem/src -name '*.cpp')"
SEEDS=[
{"id":"S19_filter_skipped_for_responses","property":"C12","kind":"src","srcs":ALL,"flags":"-O0",
 "edits":[(P,"if ((pclMyUserFilter != nullptr) && (!pclMyUserFilter->DoFiltering(stMetaData_))) { continue; }","if (pclMyUserFilter != nullptr && !stMetaData_.bResponse && !pclMyUserFilter->DoFiltering(stMetaData_)) { continue; }")],
 "needs":"a user filter that rejects a binary response message",
 "breaks":"messages the filter rejects are reported all the same",
 "demo":'''#include "novatel_edie/decoders/oem/parser.hpp"
#include <cstring>
#include <vector>
using namespace novatel::edie; using namespace novatel::edie::oem;
int main(){ int bad = 0;
 for (int type : {0x00, 0x80}) {
  auto db = std::make_shared<MessageDatabase>(); Parser p(db); p.SetReturnUnknownBytes(true);
  auto f = std::make_shared<Filter>(); f->IncludeMessageId(99, HEADER_FORMAT::ALL, 0); p.SetFilter(f);
  std::vector<unsigned char> b(28 + 8, 0); b[0] = 0xAA; b[1] = 0x44; b[2] = 0x12; b[3] = 28; b[4] = 42; b[6] = static_cast<unsigned char>(type); b[8] = 8;
  uint32_t c = CalculateBlockCrc32(b.data(), static_cast<uint32_t>(b.size())); for (int i = 0; i < 4; i++) { b.push_back((c >> (8 * i)) & 255); }
  p.Write(b.data(), b.size());
  MessageDataStruct md; MetaDataStruct m; IntermediateHeader h; CompositeField msg;
  STATUS s = p.ReadIntermediate(md, h, msg, m);
  if (s != STATUS::BUFFER_EMPTY) { bad = 1; } }
 return bad; }
'''},
{"id":"S20_new_stream_not_rewound","property":"C12","kind":"src","srcs":ALL,"flags":"-O0",
 "edits":[(F,"        pclMyInputStream = pclInputStream_;\n        Reset();","        Reset();\n        pclMyInputStream = pclInputStream_;")],
 "needs":"a stream that is not at its beginning when it is set",
 "breaks":"the beginning of the new stream is never parsed",
 "demo":'''#include "novatel_edie/decoders/oem/file_parser.hpp"
#include <sstream>
using namespace novatel::edie; using namespace novatel::edie::oem;
int main(){ auto db = std::make_shared<MessageDatabase>(); oem::FileParser p(db); p.SetReturnUnknownBytes(true);
 auto s = std::make_shared<std::istringstream>("0123456789abcdefghij0123456789abcdefghij"); s->seekg(10);
 if (!p.SetStream(s)) { return 2; }
 MessageDataStruct md; MetaDataStruct m; std::string got;
 for (int i = 0; i < 100; i++) { STATUS st = p.Read(md, m); if (st != STATUS::UNKNOWN) { break; } got.append(reinterpret_cast<char*>(md.pucMessage), md.uiMessageLength); }
 return got.substr(0, 10) == "0123456789" ? 0 : 1; }
'''},
]
