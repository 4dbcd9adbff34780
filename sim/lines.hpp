// What well-formed data must look like when it is printed element by element,
// and comparison with what was printed.
#pragma once
#include "core.hpp"
#include "atr.hpp"

namespace lines {
// whole: the line has nothing else; list: what must stand below it (2: in this order, 1: in any order, each with a bullet)
struct Line { unsigned depth; std::string text; int whole = 0; int list = 0; std::vector<std::string> below = {}; };
extern bool meanings;  // what values mean is also expected
extern bool unclear;   // indefinite lengths or very deep nesting were met
std::vector<std::string> lines_of(const std::string& s);
bool subsequence(const std::vector<std::string>& a, const std::vector<std::string>& of, std::string* missing = nullptr, bool prefix = false);
std::vector<std::string> stripped(const std::vector<std::string>& v);
// (padded: a rest that is shorter than the cipher block to which the data is aligned is padding)
bool expect(const uint8_t* p, size_t n, std::vector<Line>& o, bool ber, unsigned depth = 0, bool padded = false);
bool shown(const std::vector<Line>& a, const std::vector<std::string>& out, std::string& why);
// what follows the place where the data is malformed (after expect())
bool rest_shown(const uint8_t* p, const std::vector<std::string>& out, std::string& why, size_t n);
bool atr_shown(const std::vector<atr::TextLine>& want, const std::vector<std::string>& got, std::string& why);
size_t count_elements(const std::vector<std::string>& out, std::string& last);
}
