#ifndef VERIF_STUB_SPDLOG_SETUP_HPP
#define VERIF_STUB_SPDLOG_SETUP_HPP
#include <string>
namespace spdlog_setup {
inline void from_file(const std::string&) {}
} // namespace spdlog_setup
#endif
