FB="include/novatel_edie/common/fixed_buffer.hpp"
CRC="include/novatel_edie/common/crc.hpp"
OCRC="include/novatel_edie/decoders/oem/crc.hpp"
FR="src/decoders/common/src/framer.cpp"
FM="src/decoders/common/src/framer_manager.cpp"
OF="src/decoders/oem/src/framer.cpp"
AB="src/decoders/oem/src/framer_abb_ascii.cpp"
BYTES='''
#include <cstdio>
#include <cstring>
#include <vector>
#include <string>
#include <random>
#include <cstdint>
'''
FRH=BYTES+'''
#include "novatel_edie/decoders/oem/framer.hpp"
#include "novatel_edie/decoders/oem/framer_abb_ascii.hpp"
#include "novatel_edie/decoders/oem/framer_binary.hpp"
#include "novatel_edie/decoders/oem/framer_ascii.hpp"
#include "novatel_edie/decoders/oem/crc.hpp"
using namespace novatel::edie; using namespace novatel::edie::oem;
static std::vector<unsigned char> binary(unsigned n, unsigned char fill)
{
    std::vector<unsigned char> v(28 + n, fill);
    v[0]=0xAA; v[1]=0x44; v[2]=0x12; v[3]=28; v[8]=n&255; v[9]=n>>8;
    uint32_t c = 0; for (auto b : v) oem::CalculateCharacterCrc32(c, b);
    for (int i = 0; i < 4; i++) v.push_back(static_cast<unsigned char>(c >> (8*i)));
    return v;
}
'''
SEEDS=[
{"id":"S01_compaction_threshold","property":"C01","kind":"hdr","flags":"-fsanitize=address -g",
 "edits":[(FB,"if (head + sz + count > 2 * N)","if (head > N + N / 2)")],
 "needs":"writes and erases that leave the data between the middle and three quarters of the storage, then a write that fills the buffer",
 "breaks":"a write runs past the end of the buffer's storage",
 "demo":BYTES+'''
#include "novatel_edie/common/fixed_buffer.hpp"
int main(){ FixedBuffer<unsigned char> b(64); unsigned char x[64]; for(int i=0;i<64;i++) x[i]=i;
  if(b.write(x,64)!=64) return 2; b.erase_begin(60); if(b.write(x,60)!=60) return 3; b.erase_begin(30); 
  if(b.write(x,30)!=30) return 4; /* stored 64 */ b.erase_begin(1);
  for(int r=0;r<200;r++){ size_t n=(r*7)%23+1; if(b.available_space()<n) b.erase_begin(n+5); if(b.write(x,n)!=n) return 5; }
  return 0; }
'''},
{"id":"S02_copy_out_stale","property":"C01","kind":"hdr",
 "edits":[(FB,"        count = std::min(count, sz);\n        std::memcpy(destination","        count = std::min(count, N);\n        std::memcpy(destination")],
 "needs":"a copy of more bytes than are stored after earlier, longer content",
 "breaks":"bytes that were never in the stored content are handed out",
 "demo":BYTES+'''
#include "novatel_edie/common/fixed_buffer.hpp"
int main(){ FixedBuffer<unsigned char> b(32); unsigned char x[32]; memset(x,'A',32); if(b.write(x,32)!=32) return 2; b.erase_begin(32);
  unsigned char y[3]={1,2,3}; if(b.write(y,3)!=3) return 3; unsigned char o[32]; memset(o,0xEE,32); b.copy_out(o,32);
  for(int i=3;i<32;i++) if(o[i]!=0xEE) return 1; return 0; }
'''},
{"id":"S03_chorba_window","property":"C02","kind":"hdr",
 "edits":[(OCRC,"for (; i + CHORBA_WINDOW < uiCount_; i += 8)","for (; i + CHORBA_WINDOW - 8 <= uiCount_; i += 8)")],
 "needs":"block lengths whose remainder modulo eight leaves a short tail after the folding loop",
 "breaks":"the accelerated checksum differs from the plain one",
 "demo":BYTES+'''
#include "novatel_edie/decoders/oem/crc.hpp"
int main(){ std::mt19937 g(1); for(unsigned n=0;n<300;n++){ std::vector<unsigned char> v(n+1); for(auto&b:v) b=g(); uint32_t c=0; for(unsigned i=0;i<n;i++) novatel::edie::oem::CalculateCharacterCrc32(c,v[i]);
  if(novatel::edie::oem::CalculateBlockCrc32(v.data(),n)!=c){ printf("length %u\\n",n); return 1;} } return 0; }
'''},
{"id":"S04_string_crc_initial","property":"C02","kind":"hdr",
 "edits":[(CRC,"    CrcT uiCrc = uiInitialCrc_;\n    for (const char c","    CrcT uiCrc = static_cast<CrcT>(uiInitialCrc_ & 0xFF);\n    for (const char c")],
 "needs":"continuing the checksum of a text block from a previous value",
 "breaks":"the text checksum ignores most of its initial value",
 "demo":BYTES+'''
#include "novatel_edie/common/crc.hpp"
using namespace novatel::edie;
int main(){ std::string a="hello ",b="world, how are you"; uint32_t p=CalculateBlockCrc<uint32_t,0xEDB88320UL,true>(std::string_view(a));
  uint32_t q=CalculateBlockCrc<uint32_t,0xEDB88320UL,true>(std::string_view(b),p); uint32_t r=CalculateBlockCrc<uint32_t,0xEDB88320UL,true>(std::string_view(a+b)); return q==r?0:1; }
'''},
{"id":"S05_payload_crc_left","property":"C04","kind":"framer",
 "edits":[(OF,"pclMyBuffer->erase_begin(uiMyExpectedPayloadLength + OEM4_BINARY_CRC_LENGTH);","pclMyBuffer->erase_begin(stMetaData_.uiLength);")],
 "needs":"payload-only mode and a second call after a binary frame",
 "breaks":"the four checksum bytes of a delivered frame stay in the stream and are reported again as unknown bytes",
 "demo":FRH+'''
int main(){ Framer f; f.SetPayloadOnly(true); f.SetReportUnknownBytes(true); auto v=binary(20,7); f.Write(v.data(),v.size()); f.Write(v.data(),v.size());
  unsigned char o[512]; MetaDataStruct m; if(f.GetFrame(o,512,m)!=STATUS::SUCCESS) return 2; return f.GetFrame(o,512,m)==STATUS::SUCCESS ? 0 : 1; }
'''},
{"id":"S06_abbrev_lookahead","property":"C03","kind":"framer",
 "edits":[(AB,"clFrameBuffer.size() > uiCrlfIndex + 3 && IsBodyLine","clFrameBuffer.size() > uiCrlfIndex + 2 && IsBodyLine"),(AB,"    if (clFrameBuffer.size() <= uiCrlfIndex + 3) {","    if (clFrameBuffer.size() <= uiCrlfIndex + 2) {")],
 "needs":"a write boundary one byte into the line after an abbreviated ASCII body line",
 "breaks":"the framer reads a byte that has not been received yet (left over from earlier data) and decides the end of the message on it",
 "demo":FRH+'''
int main(){ for(int stale=0;stale<2;stale++){ FramerAbbAscii f; unsigned char o[4096]; MetaDataStruct m;
  std::string junk(300, stale?' ':'x'); f.Write((const unsigned char*)junk.data(),junk.size());
  while(f.GetFrame(o,4096,m)==STATUS::UNKNOWN) {}
  std::string s="<VER COM1 0\\r\\n<  line one\\r\\n<"; f.Write((const unsigned char*)s.data(),s.size());
  STATUS st=f.GetFrame(o,4096,m); if(st!=STATUS::INCOMPLETE){ printf("status %d\\n",(int)st); return 1;} }
  return 0; }
'''},
{"id":"S07_nmea_checksum_seven_bits","property":"C05","kind":"framer",
 "edits":[(OF,"                auto result = std::from_chars(acCrc, acCrc + NMEA_CRC_LENGTH, uiMessageCrc, 16);","                auto result = std::from_chars(acCrc, acCrc + NMEA_CRC_LENGTH, uiMessageCrc, 16);\n                uiMessageCrc &= 0x7F; // an XOR of ASCII characters has seven bits")],
 "needs":"an NMEA sentence whose transmitted checksum differs from the true one in the top bit only",
 "breaks":"a sentence with a wrong checksum is delivered as a valid frame",
 "demo":FRH+"""
int main(){ unsigned char o[1024]; MetaDataStruct m; std::string body="GPGGA,1,2,3"; unsigned c=0; for(char x:body) c^=(unsigned char)x;
  for(int bad=0;bad<2;bad++){ char t[64]; snprintf(t,64,"$%s*%02X\\r\\n",body.c_str(),bad?(c^0x80):c); Framer f; f.Write((unsigned char*)t,strlen(t));
    bool ok=f.GetFrame(o,1024,m)==STATUS::SUCCESS; if(ok!=(bad==0)) return 1; } return 0; }
"""},
{"id":"S08_manager_first_not_reset","property":"C06","kind":"framer",
 "edits":[(FM,"    for (const auto& framer : framerRegistry)\n    {\n        framer.framerInstance->InitAttributes();\n        framer.framerInstance->ResetState();\n    }","    bool first = true;\n    for (const auto& framer : framerRegistry)\n    {\n        // the framer at the front has just completed its frame\n        if (!first) { framer.framerInstance->InitAttributes(); }\n        framer.framerInstance->ResetState();\n        first = false;\n    }")],
 "needs":"a frame followed by a shorter one through the same framer of the manager",
 "breaks":"the front framer keeps a position inside bytes that are gone",
 "demo":FRH+"""
#include "novatel_edie/decoders/common/framer_manager.hpp"
static std::string ascii(const std::string& body){ uint32_t c=0; for(char x:body) oem::CalculateCharacterCrc32(c,(unsigned char)x); char t[16]; snprintf(t,16,"*%08x\\r\\n",c); return "#"+body+t; }
int main(){ FramerManager m({"OEM_ASCII"}); std::string s=ascii("BESTPOSA,COM1,0,70.0,FINESTEERING;"+std::string(200,'x'))+ascii("TIMEA,COM1;abc");
  m.GetFixedBuffer(); if(m.GetFixedBuffer()->write((const unsigned char*)s.data(),s.size())!=s.size()) return 2;
  unsigned char o[4096]; MetaDataBase* p=nullptr; for(int i=0;i<2;i++) if(m.GetFrame(o,4096,p)!=STATUS::SUCCESS) return 1; return 0; }
"""},
]
