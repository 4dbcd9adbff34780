#include "lines.hpp"
#include "model.hpp"
#include "fields.hpp"
#include <algorithm>
#include <cstring>
#include <map>
using namespace sim;
namespace lines {
std::vector<std::string> lines_of(const std::string& s)
{
	std::vector<std::string> v;
	size_t p = 0;
	while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) { e = s.size(); } v.push_back(s.substr(p, e - p)); p = e + 1; }
	return v;
}
bool subsequence(const std::vector<std::string>& a, const std::vector<std::string>& of, std::string* missing, bool prefix)
{
	size_t k = 0;
	for (auto& l : a) {
		while (k < of.size() && !(prefix ? of[k].compare(0, l.size(), l) == 0 : of[k] == l)) { ++k; }
		if (k >= of.size()) { if (missing) { *missing = l; } return false; }
		++k;
	}
	return true;
}
std::vector<std::string> stripped(const std::vector<std::string>& v)
{
	std::vector<std::string> o;
	for (auto l : v) {
		size_t p = l.find_first_not_of(' ');
		l = p == std::string::npos ? "" : l.substr(p);
		// names are not judged here
		size_t a = l.find(" | "), b = l.find(" : [");
		if (a != std::string::npos && b != std::string::npos && a < b) { l = l.substr(0, a) + l.substr(b); }
		else if (a != std::string::npos && b == std::string::npos) { size_t c = l.rfind(" ["); l = l.substr(0, a) + (c != std::string::npos && c > a ? l.substr(c) : ""); }
		o.push_back(l);
	}
	return o;
}
// octets of the well-formed element at p, 0 if it is not well-formed or too
// deep to be judged
size_t element(const uint8_t* p, size_t n, bool& indef, size_t& off, size_t& len, unsigned depth)
{
	model::Dec d = model::ber(p, n);
	indef = d.indef;
	if (!d.indef) { off = d.off; len = d.len; return d.r > 0 ? (size_t)d.r : 0; }
	if (!d.constructed || depth > 40) { return 0; }
	size_t i = 1;
	if ((p[0] & 0x1F) == 0x1F) { while (p[i++] & 0x80) {} }
	off = ++i;
	for (;;) {
		if (n - i >= 2 && p[i] == 0 && p[i + 1] == 0) { len = i - off; return i + 2; }
		if (n - i >= 1 && p[i] == 0) { return 0; }
		bool x; size_t o, l;
		size_t k = element(p + i, n - i, x, o, l, depth + 1);
		if (!k) { return 0; }
		i += k;
	}
}
// what an object identifier reads as; -1 if that is not settled, 0 if it is not one
int oid(const uint8_t* p, size_t n, std::string& text)
{
	std::vector<uint64_t> v;
	bool ok = n > 0, open = false, settled = n > 0;
	uint64_t x = 0;
	for (size_t i = 0; i < n; ++i) {
		if (!open && p[i] == 0x80) { settled = false; } // not the shortest encoding
		x = x << 7 | (p[i] & 0x7F);
		if (x > 0xFFFFFFFF) { ok = false; x = 0xFFFFFFFF; }
		open = p[i] & 0x80;
		if (open) { continue; }
		if (v.empty()) {
			uint64_t a = x < 40 ? 0 : x < 80 ? 1 : 2;
			v.push_back(a);
			v.push_back(x - 40 * a);
		} else { v.push_back(x); }
		x = 0;
	}
	if (open) { ok = false; }
	if (!settled || v.size() > 10 || n >= 40) { return -1; }
	if (!ok) { return 0; }
	text = " {";
	for (size_t i = 0; i < v.size(); ++i) { text += (i ? " " : "") + std::to_string(v[i]); }
	text += "}";
	return 1;
}
bool unclear;
bool meanings = true;
// adds what the value of a primitive element means
static void meaning(Line& l, uint32_t tag, const Bytes& v)
{
	std::string text;
	std::vector<std::string> ls;
	char h[32];
	if (tag == 0x8C || tag == 0x8D || tag == 0x9F38 || tag == 0x9F49) {
		std::vector<model::DolEntry> d;
		if (v.empty() || !model::dol_parse(v, d)) { return; }
		probe("object_list_below_element");
		l.list = 2;
		l.below.push_back("Data Object List:");
		for (auto& e : d) { snprintf(h, sizeof(h), "%02X [%u]", e.tag, e.len); l.below.push_back(h); }
		return;
	}
	fields::Known known = fields::describe(tag, v, text, ls);
	size_t n = text.size();
	for (auto& x : ls) { n += x.size() + 1; }
	if (n > 1900) { return; }      // has not enough room
	if (known == fields::TEXT && !text.empty()) {
		bool quoted = fields::quoted(tag);
		l.text += (quoted ? " \"" : " (") + text + (quoted ? "\"" : ")");
		l.whole = 1;
		probe("meaning_beside_element");
	} else if (known == fields::LINES) {
		l.whole = l.list = 1;
		l.below = ls;
		probe("meaning_below_element");
	} else if (known == fields::REFUSED) {
		l.whole = l.list = 1;
		probe("improper_value_without_meaning");
	}
}
static const uint8_t* stop;   // where the data stops being well-formed
bool expect(const uint8_t* p, size_t n, std::vector<Line>& o, bool ber, unsigned depth, bool padded)
{
	if (!depth) { unclear = false; stop = nullptr; }
	const size_t all = n;
	while (n) {
		bool indef;
		size_t off, len;
		if (depth > 40) { unclear = true; return false; }
		size_t k = element(p, n, indef, off, len, depth);
		if (indef) { unclear = true; }
		char h[64];
		if (!k && padded && ((all % 8 == 0 && n < 8) || (all % 16 == 0 && n < 16))) {
			// the rest of a sequence of cipher blocks
			probe(n == 15 ? "padding_of_a_block_less_one" : depth ? "padding_within_template" : "padding");
			snprintf(h, sizeof(h), "Padding : [%zu]", n);
			std::string l = h;
			for (size_t i = 0; i < n; ++i) { snprintf(h, sizeof(h), " %02X", p[i]); l += h; }
			o.push_back({ depth, l, 1 });
			return true;
		}
		if (!k) { stop = p; return false; }
		model::Dec d = model::ber(p, n);
		snprintf(h, sizeof(h), "%02X : [", d.tag);
		std::string l = h;
		if (!indef) { snprintf(h, sizeof(h), "%zu]", len); l += h; }
		if (d.constructed) {
			o.push_back({ depth, l });
			if (!expect(p + off, len, o, ber, depth + 1, padded)) { return false; }
		} else {
			for (size_t i = 0; i < len; ++i) { snprintf(h, sizeof(h), " %02X", p[off + i]); l += h; }
			int whole = 0;
			if (ber && d.tag == 0x06) {
				std::string t;
				whole = oid(p + off, len, t);
				if (whole >= 0) { l += t; probe(whole ? "object_identifier" : "object_identifier_malformed"); whole = 1; } else { whole = 0; }
			}
			Line x{ depth, l, whole };
			if (!ber && meanings) { meaning(x, d.tag, Bytes(p + off, p + off + len)); }
			o.push_back(x);
		}
		p += k;
		n -= k;
	}
	return true;
}
// every line in order, and indented by its depth
bool shown(const std::vector<Line>& a, const std::vector<std::string>& out, std::string& why)
{
	std::vector<std::string> of = stripped(out);
	std::map<unsigned, size_t> indent;
	size_t k = 0;
	for (auto& l : a) {
		size_t in = 0;
		bool ok = false;
		for (;; ++k) {
			while (k < of.size() && of[k].compare(0, l.text.size(), l.text) != 0) { ++k; }
			if (k >= of.size()) { why = "the output does not show \"" + l.text.substr(0, 300) + "\" in its place"; return false; }
			in = std::min(out[k].find_first_not_of(' '), out[k].size());
			auto f = indent.find(l.depth);
			if (f != indent.end()) { ok = f->second == in; }
			else {
				auto n = indent.lower_bound(l.depth);
				ok = (n == indent.end() || n->second > in) && (n == indent.begin() || std::prev(n)->second < in);
				if (ok) { indent[l.depth] = in; }
			}
			if (ok || !unclear) { break; }   // the ends of indefinite lengths may be shown, too
		}
		if (!ok) { why = "\"" + l.text.substr(0, 300) + "\" is not shown at its depth"; return false; }
		if (l.whole && of[k] != l.text) { why = "shows \"" + of[k].substr(0, 300) + "\" where \"" + l.text.substr(0, 300) + "\" is expected"; return false; }
		++k;
		if (!l.list) { continue; }
		std::vector<std::string> got, due = l.below;
		size_t e = k;
		while (e < of.size() && (l.list == 1 ? of[e].compare(0, 2, "- ") == 0 : e - k < due.size())) {
			if (std::min(out[e].find_first_not_of(' '), out[e].size()) <= in) { break; }
			got.push_back(l.list == 1 ? of[e].substr(2) : of[e]);
			++e;
		}
		if (l.list == 1) { got = fields::comparable(got); due = fields::comparable(due); }
		if (got != due) {
			std::string a, b;
			for (auto& x : due) { a += x + " | "; }
			for (auto& x : got) { b += x + " | "; }
			why = "below \"" + l.text.substr(0, 300) + "\" stands \"" + b.substr(0, 900) + "\" instead of \"" + a.substr(0, 900) + "\"";
			return false;
		}
		k = e;
	}
	return true;
}

bool rest_shown(const uint8_t* p, const std::vector<std::string>& out, std::string& why, size_t n)
{
	if (!stop || unclear) { return true; }
	std::string w = " at offset " + std::to_string(stop - p) + "; remaining invalid data:";
	for (const uint8_t* q = stop; q < p + n; ++q) { char h[8]; snprintf(h, sizeof(h), " %02X", *q); w += h; }
	for (auto& l : out) { if (l.size() >= w.size() && l.compare(l.size() - w.size(), w.size(), w) == 0) { return true; } }
	why = "the output does not end with \"" + w.substr(0, 300) + "\" although the data is malformed there";
	return false;
}
bool atr_shown(const std::vector<atr::TextLine>& want, const std::vector<std::string>& got, std::string& why)
{
	size_t p = 0;
	for (auto& w : want) {
		bool ok = p < got.size() && (w.exact ? got[p] == w.text : got[p].compare(0, w.text.size(), w.text) == 0);
		if (ok) { ++p; continue; }
		if (w.optional) { continue; }
		why = "\"" + (p < got.size() ? got[p].substr(0, 300) : std::string("(nothing)")) + "\" is shown where \"" + w.text + "\" is due";
		return false;
	}
	if (p < got.size()) { why = "\"" + got[p].substr(0, 300) + "\" is shown although nothing is left"; return false; }
	return true;
}
static bool element_line(const std::string& l)
{
	size_t i = 0;
	while (i < l.size() && ((l[i] >= '0' && l[i] <= '9') || (l[i] >= 'A' && l[i] <= 'F'))) { ++i; }
	return i >= 2 && i <= 8 && l.compare(i, 4, " : [") == 0;
}
size_t count_elements(const std::vector<std::string>& out, std::string& last)
{
	size_t n = 0;
	for (auto& l : stripped(out)) { if (element_line(l)) { ++n; last = l; } }
	return n;
}
}
