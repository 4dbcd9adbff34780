// What commands and status words mean: reference descriptions.
#pragma once
#include "core.hpp"

namespace apdu {
// false: not specified; empty text: has no description
bool command(const Bytes& c, std::string& text);
bool status(uint16_t sw, std::string& text);
}
