// Offline stand-in for the spdlog_setup package (not installed here): the only entry point EDIE uses.
#pragma once
#include <stdexcept>
#include <string>
#include <fstream>
namespace spdlog_setup {
inline void from_file(const std::string& path)
{
    std::ifstream in(path);
    if (!in) { throw std::runtime_error("spdlog_setup stand-in: cannot open " + path); }
}
} // namespace spdlog_setup
