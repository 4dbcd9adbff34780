// What the elements of a transaction mean in words: reference descriptions.
#pragma once
#include "core.hpp"

namespace fields {
enum Known {
	OPEN,          // not specified here
	TEXT,          // exactly this text
	LINES,         // exactly these lines, in any order
	REFUSED        // not a value of this element: no text
};
Known describe(uint32_t tag, const Bytes& v, std::string& s, std::vector<std::string>& lines);
// 0x19F6E, 0x29F6E and 0x39F6E: tag 9F6E as used by Mastercard, Visa and American Express
std::vector<std::string> comparable(std::vector<std::string> lines);  // sorted, without names that come from code tables
bool quoted(uint32_t tag);   // characters, as opposed to numbers
std::vector<std::string> split(const std::string& s);
bool whole(uint32_t tag);    // a text that is refused rather than cut
// a value of the given element, mostly a proper one
Bytes gen(uint32_t tag, std::function<uint32_t(uint32_t)> pick);
}
