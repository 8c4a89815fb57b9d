// Instantiates the header templates that no translation unit of the library instantiates by itself, so that every
// member function body is available for analysis.
#include "novatel_edie/common/common.hpp"
#include "novatel_edie/common/crc.hpp"
#include "novatel_edie/common/fixed_buffer.hpp"
#include "novatel_edie/common/logger.hpp"
#include "novatel_edie/decoders/common/file_parser.hpp"
#include "novatel_edie/decoders/common/framer_manager.hpp"
#include "novatel_edie/decoders/common/message_counts_tracker.hpp"
#include "novatel_edie/decoders/oem/commander.hpp"
#include "novatel_edie/decoders/oem/crc.hpp"
#include "novatel_edie/decoders/oem/file_parser.hpp"
#include "novatel_edie/decoders/oem/parser.hpp"
#include "novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp"
#include "novatel_edie/decoders/oem/rxconfig/rxconfig_handler.hpp"

template class novatel::edie::MessageCountsTracker<uint32_t>;
template class FixedBuffer<unsigned char>;
template class FixedBuffer<uint32_t>;

// The widest bit fields, which no caller in the library reads at present.
template uint64_t novatel::edie::oem::ExtractBitfield<uint64_t>(unsigned char**, uint32_t&, uint32_t&, uint32_t);
template uint64_t novatel::edie::oem::ExtractBitfield<uint64_t, 57>(unsigned char**, uint32_t&, uint32_t&);
template uint64_t novatel::edie::oem::ExtractBitfield<uint64_t, 61>(unsigned char**, uint32_t&, uint32_t&);
template uint32_t novatel::edie::oem::ExtractBitfield<uint32_t, 32>(unsigned char**, uint32_t&, uint32_t&);
template class novatel::edie::FileParserBase<novatel::edie::oem::Parser, novatel::edie::oem::Filter, novatel::edie::oem::MetaDataStruct, novatel::edie::oem::IntermediateHeader>;
