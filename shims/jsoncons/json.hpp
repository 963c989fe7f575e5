// Stand-in for jsoncons (not installed here): only what the CBOR stand-in needs.
#pragma once
#include <stdexcept>
#include <string>
namespace jsoncons {
class ser_error : public std::runtime_error {
public:
    explicit ser_error(const std::string& m) : std::runtime_error(m) {}
};
} // namespace jsoncons
