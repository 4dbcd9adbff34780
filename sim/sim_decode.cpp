// The decoder program (P20): the whole of emv-decode with simulated standard
// input, memory and program surroundings.
#include "program.hpp"
#include "model.hpp"
#include "world.hpp"
#include "atr.hpp"
#include "lines.hpp"
#include "fields.hpp"
#include "apdu.hpp"
#include "iso7816.h"
#include "iso7816_strings.h"
#include <memory>
#include <algorithm>
using namespace sim;
using namespace lines;
using model::Tlv;

extern "C" {
int decode_main(int argc, char** argv);
int sim_strings_init(const char*, const char*) { return 0; }
}
static std::string num(long long v) { return std::to_string(v); }

struct Mode { const char* opt; int kind; };
enum { K_TLV, K_BER, K_DOL, K_TAGS, K_FIXED, K_TEXT, K_ATR };
static const Mode MODES[] = {
	{ "tlv", K_TLV }, { "ber", K_BER }, { "dol", K_DOL }, { "tag-list", K_TAGS }, { "atr", K_ATR }, { "sw1sw2", K_FIXED }, { "mcc", K_FIXED }, { "term-type", K_FIXED }, { "term-caps", K_FIXED },
	{ "addl-term-caps", K_FIXED }, { "cvm-list", K_FIXED }, { "cvm-results", K_FIXED }, { "tvr", K_FIXED }, { "tsi", K_FIXED }, { "issuer-app-data", K_FIXED }, { "ttq", K_FIXED }, { "ctq", K_FIXED },
	{ "amex-cl-reader-caps", K_FIXED }, { "mastercard-third-party-data", K_FIXED }, { "visa-ffi", K_FIXED }, { "amex-enh-cl-reader-caps", K_FIXED }, { "terminal-risk-management-data", K_FIXED },
	{ "iso8859-1", K_TEXT }, { "iso8859-2", K_TEXT }, { "iso8859-3", K_TEXT }, { "iso8859-4", K_TEXT }, { "iso8859-5", K_TEXT }, { "iso8859-6", K_TEXT }, { "iso8859-7", K_TEXT },
	{ "iso8859-8", K_TEXT }, { "iso8859-9", K_TEXT }, { "iso8859-10", K_TEXT }, { "iso8859-11", K_TEXT }, { "iso8859-13", K_TEXT }, { "iso8859-14", K_TEXT }, { "iso8859-15", K_TEXT },
};
static const unsigned NMODES = sizeof(MODES) / sizeof(MODES[0]);

static const uint32_t TAGS[] = { 0x4F, 0x50, 0x57, 0x5A, 0x61, 0x6F, 0x70, 0x73, 0x77, 0x80, 0x81, 0x82, 0x83, 0x84, 0x86, 0x87, 0x88, 0x8A, 0x8C, 0x8D, 0x8E, 0x90, 0x91, 0x94, 0x95, 0x97, 0x9A, 0x9B, 0x9C, 0x9D, 0xA5,
	0x42, 0x5F20, 0x5F24, 0x5F25, 0x5F28, 0x5F2A, 0x5F2D, 0x5F30, 0x5F34, 0x5F36, 0x5F50, 0x5F53, 0x5F55, 0x5F56, 0x5F57, 0xBF0C, 0x9F01, 0x9F02, 0x9F05, 0x9F06, 0x9F07, 0x9F08, 0x9F09, 0x9F0A, 0x9F0B, 0x9F0D, 0x9F10, 0x9F11, 0x9F12,
	0x9F15, 0x9F1A, 0x9F1C, 0x9F1D, 0x9F1F, 0x9F21, 0x9F26, 0x9F27, 0x9F33, 0x9F34, 0x9F35, 0x9F36, 0x9F38, 0x9F39, 0x9F3B, 0x9F40, 0x9F41, 0x9F42, 0x9F44, 0x9F49, 0x9F4A, 0x9F4D, 0x9F4E, 0x9F66, 0x9F6C, 0x9F6D, 0x9F6E, 0x9F7C,
	0x06, 0x0C, 0x13, 0x16, 0x1A, 0x30, 0x31, 0x02, 0x04, 0x5C, 0xDF01, 0xDF8101 };
// the element a mode describes
static uint32_t element_of(const char* opt)
{
	static const struct { const char* opt; uint32_t tag; } E[] = { { "term-type", 0x9F35 }, { "term-caps", 0x9F33 }, { "addl-term-caps", 0x9F40 }, { "cvm-list", 0x8E }, { "cvm-results", 0x9F34 }, { "tvr", 0x95 }, { "tsi", 0x9B }, { "issuer-app-data", 0x9F10 }, { "ttq", 0x9F66 }, { "ctq", 0x9F6C },
		{ "amex-cl-reader-caps", 0x9F6D }, { "mastercard-third-party-data", 0x19F6E }, { "visa-ffi", 0x29F6E }, { "amex-enh-cl-reader-caps", 0x39F6E }, { "terminal-risk-management-data", 0x9F1D } };
	for (auto& e : E) { if (std::string(e.opt) == opt) { return e.tag; } }
	return 0;
}
static bool constructed(uint32_t t) { while (t > 0xFF) { t >>= 8; } return t & 0x20; }

static Bytes gen_value(unsigned max)
{
	unsigned n = pick(8) == 7 ? pick(max + 1) : pick(std::min(max, 12u) + 1);
	Bytes v;
	switch (pick(4)) {
		case 0: v.assign(n, 0x41); break;
		case 1: for (unsigned i = 0; i < n; ++i) { v.push_back((uint8_t)(pick(10) << 4 | pick(10))); } break;
		case 2: v = rbytes(n); break;
		case 3: v.assign(n, pick(2) ? 0xFF : 0x00); break;
	}
	return v;
}
static Bytes gen_oid()
{
	Bytes v;
	unsigned n = 1 + pick(pick(4) ? 5 : 11);
	for (unsigned i = 0; i < n; ++i) {
		static const uint64_t edge[] = { 0, 39, 40, 79, 80, 119, 120, 127, 128, 129, 255, 16383, 16384, 0x7FFFFFFF, 0xFFFFFFFF, 0x100000000, 0x7FFFFFFFF };
		uint64_t x = pick(2) ? edge[pick(17)] : pick(200);
		unsigned k = 1;
		while (x >> (7 * k)) { ++k; }
		while (k--) { v.push_back((uint8_t)((x >> (7 * k) & 0x7F) | (k ? 0x80 : 0))); }
	}
	if (pick(12) == 11) { v.back() |= 0x80; }
	return v;
}
// sizes around those of buffers and length encodings
static const unsigned EDGES[] = { 126, 127, 128, 129, 255, 256, 257, 511, 512, 513, 682, 683, 1022, 1023, 1024, 1025, 2046, 2047, 2048, 2049 };
static unsigned edge() { return EDGES[pick(sizeof(EDGES) / sizeof(EDGES[0]))]; }
static bool indefinite;
static Bytes gen_tree(unsigned depth, unsigned max)
{
	Bytes b;
	unsigned n = 1 + pick(4);
	for (unsigned i = 0; i < n; ++i) {
		uint32_t t = TAGS[pick(sizeof(TAGS) / sizeof(TAGS[0]))];
		Bytes v;
		if (constructed(t)) { if (depth < 6) { v = gen_tree(depth + 1, max / 2); } }
		else if (t == 0x06 && pick(4)) { v = gen_oid(); }
		else if (pick(2) && max > 20) {
			if (t == 0x8C || t == 0x8D || t == 0x9F38 || t == 0x9F49) { for (unsigned k = 1 + pick(5); k; --k) { uint32_t x = TAGS[pick(sizeof(TAGS) / sizeof(TAGS[0]))]; for (int s = 16; s >= 0; s -= 8) { if (x >> s) { v.push_back((uint8_t)(x >> s)); } } v.push_back((uint8_t)pick(20)); } }
			else { v = fields::gen(t, [](uint32_t k) { return pick(k); }); }
			if (v.empty() || v.size() > max) { v = gen_value(max); }
		}
		else { v = gen_value(max); }
		if (b.size() + v.size() > max) { break; }
		if (indefinite && constructed(t) && pick(2)) {
			// indefinite length
			Bytes h = world::tlv(t, {});
			h.back() = 0x80;
			world::put(b, h);
			world::put(b, v);
			world::put(b, { 0, 0 });
			continue;
		}
		world::put(b, world::tlv(t, v, pick(6) == 5 ? 1 + (int)pick(2) : 0));
	}
	return b;
}
// nested as deep as the size allows
static Bytes gen_deep()
{
	unsigned bits = 1 + pick(16);
	unsigned depth = 1u + pick(1u << bits);
	static const uint8_t outer[] = { 0x30, 0x70, 0x6F, 0xA5, 0x31 };
	uint8_t t = outer[pick(5)];
	unsigned style = pick(3);
	if (style == 0) { depth = std::min(depth, 30000u); }
	Bytes inner = pick(2) ? world::tlv(0x50, gen_value(8)) : Bytes();
	Bytes rev(inner.rbegin(), inner.rend()), tail;
	for (unsigned i = 0; i < depth; ++i) {
		if (style == 1 || (style == 2 && pick(2))) {
			rev.push_back(0x80);
			rev.push_back(t);
			tail.push_back(0); tail.push_back(0);
			continue;
		}
		size_t n = rev.size() + tail.size();
		if (n < 128) { rev.push_back((uint8_t)n); }
		else {
			unsigned c = n < 256 ? 1 : n < 65536 ? 2 : 3;
			for (unsigned k = 0; k < c; ++k) { rev.push_back((uint8_t)(n >> (8 * k))); }
			rev.push_back((uint8_t)(0x80 | c));
		}
		rev.push_back(t);
	}
	Bytes b(rev.rbegin(), rev.rend());
	world::put(b, tail);
	if (depth > 256) { probe("nested_beyond_256"); }
	probe(style == 0 ? "nested_definite" : "nested_indefinite");
	return b;
}
static Bytes gen_data(int kind)
{
	Bytes b;
	switch (kind) {
		case K_TLV: case K_BER:
			indefinite = pick(6) == 5;
			if (indefinite) { probe("indefinite_lengths"); }
			if (pick(400) == 399) { b = gen_deep(); break; }
			switch (pick(7)) {
				default: b = gen_tree(0, 200); break;
				case 6: {
					unsigned n = 1 + pick(3);
					static const uint32_t t[] = { 0x0C, 0x13, 0x16, 0x1A, 0x04, 0x50, 0x5F20, 0x9F12, 0x8E, 0x5F50, 0x9F0B };
					if (pick(3) == 2) {
						while (n--) { world::put(b, pick(5) ? world::tlv(0x06, gen_oid()) : world::tlv(0x13, gen_value(20))); }
						break;
					}
					while (n--) {
						Bytes v;
						unsigned l = edge();
						if (pick(2)) { v.assign(l, 0x41); } else { v = rbytes(l); }
						v = world::tlv(pick(4) ? t[pick(11)] : TAGS[pick(sizeof(TAGS) / sizeof(TAGS[0]))], v);
						if (pick(4) == 3) { v = world::tlv(0x70, v); }
						world::put(b, v);
					}
					break;
				}
				case 3: {
					// around the sizes in which input is loaded
					static const unsigned edge[] = { 4096, 8192, 12288, 2048, 16384 };
					size_t want = edge[pick(5)] + pick(7) - 3;
					while (b.size() < want) {
						Bytes v = gen_value(200);
						size_t left = want - b.size();
						if (left < 4) { b.push_back(0x50); if (left > 1) { b.push_back((uint8_t)(left - 2)); for (size_t i = 2; i < left; ++i) { b.push_back(0x42); } } break; }
						if (v.size() + 4 > left) { v.assign(std::min<size_t>(left - 2, 100), 0x43); }
						world::put(b, world::tlv(TAGS[1 + pick(3)], v));
					}
					b.resize(want);
					break;
				}
				case 4: b = gen_tree(0, 2000); if (!b.empty() && pick(2)) { b.resize(pick((uint32_t)b.size())); } break;
				case 5: {
					// as deciphered messages have it: padded
					b = gen_tree(0, 100);
					unsigned levels = 1 + (pick(3) == 2) + (pick(9) == 8);
					bool odd = pick(3) == 2;     // what cannot be decoded at all
					for (unsigned q = 0; q < levels; ++q) {
						size_t bl = pick(2) ? 8 : 16;
						if (q) { b = world::tlv(0x70, b); }
						b.push_back(odd ? 0xFF : 0x80);
						while (b.size() % bl) { b.push_back(odd ? 0xFF : pick(3) ? 0 : (uint8_t)pick(256)); }
						if (pick(8) == 7) { b.resize(b.size() - pick(3)); }
					}
					break;
				}
			}
			if (pick(5) == 4 && !b.empty()) { unsigned n = 1 + pick(3); while (n--) { b[pick((uint32_t)b.size())] = (uint8_t)pick(256); } }
			break;
		case K_DOL: {
			unsigned n = 1 + pick(pick(4) ? 10 : 600);
			for (unsigned i = 0; i < n; ++i) {
				uint32_t t = TAGS[pick(sizeof(TAGS) / sizeof(TAGS[0]))];
				for (int s = 16; s >= 0; s -= 8) { if (t >> s) { b.push_back((uint8_t)(t >> s)); } }
				b.push_back((uint8_t)(pick(3) ? pick(20) : pick(256)));
			}
			if (pick(4) == 3) { b.pop_back(); }
			break;
		}
		case K_TAGS: {
			unsigned n = 1 + pick(pick(4) ? 10 : 1500);
			for (unsigned i = 0; i < n; ++i) { uint32_t t = TAGS[pick(sizeof(TAGS) / sizeof(TAGS[0]))]; for (int s = 16; s >= 0; s -= 8) { if (t >> s) { b.push_back((uint8_t)(t >> s)); } } }
			break;
		}
		case K_FIXED: { unsigned n = pick(6) == 5 ? pick(40) : 1 + pick(5); b = pick(2) ? rbytes(n) : gen_value(n); break; }
		case K_TEXT: { unsigned n = pick(4) ? pick(60) : pick(3) == 2 ? edge() : pick(pick(2) ? 2200 : 5000); for (unsigned i = 0; i < n; ++i) { b.push_back(pick(3) ? (uint8_t)(0x20 + pick(95)) : (uint8_t)pick(256)); } break; }
		case K_ATR: {
			static const Bytes a[] = { { 0x3B, 0x60, 0x00, 0x00 }, { 0x3B, 0x65, 0x00, 0x00, 0x20, 0x63, 0xCB, 0x68, 0x00 }, { 0x3B, 0xE0, 0x00, 0x00, 0x81, 0x31, 0x20, 0x45, 0x35 }, { 0x3B, 0x80, 0x80, 0x01, 0x01 } };
			b = a[pick(4)];
			if (pick(2)) { b[pick((uint32_t)b.size())] ^= (uint8_t)(1u << pick(8)); }
			if (pick(4) == 3) { b.resize(pick((uint32_t)b.size()) + 1); }
			break;
		}
	}
	return b;
}

struct Res { int code; bool exited, usage; std::string out, err; };
static Res go(const std::vector<std::string>& args, uint8_t rubbish = 0)
{
	stack_fill(rubbish);
	int code = prog::run(decode_main, args, "decode");
	Res r{ code, prog::exited || code != 0, prog::usage_error, prog::out, prog::err };
	trace("exit %d%s, output:\n%s", code, r.exited ? " (refused)" : "", r.out.substr(0, 4000).c_str());
	if (!r.err.empty()) { trace("errors:\n%s", r.err.c_str()); }
	return r;
}
static std::string hex_arg(const Bytes& b, bool spaces)
{
	std::string s;
	bool lower = pick(2);
	for (size_t i = 0; i < b.size(); ++i) {
		char h[8];
		snprintf(h, sizeof(h), lower ? "%02x" : "%02X", b[i]);
		s += h;
		if (spaces && i + 1 < b.size()) { s += " "; }
	}
	return s;
}
static void gen_chunks()
{
	unsigned style = pick(5);
	unsigned fix = 1 + pick(pick(2) ? 16 : 5000);
	prog::in.chunk = [style, fix](size_t k) -> size_t {
		switch (style) {
			default: return k;
			case 1: return 1;
			case 2: return fix;
			case 3: return 1 + pick((uint32_t)std::min<size_t>(k, 5000));
			case 4: return pick(8) ? k : 1 + pick(3);
		}
	};
}

static void run_p20()
{
	own_everything(true);
	const Mode& m = MODES[pick(3) ? pick(4) : pick(NMODES)];
	Bytes data = gen_data(m.kind);
	if (m.kind == K_FIXED && pick(5)) {
		if (uint32_t t = element_of(m.opt)) { data = fields::gen(t, [](uint32_t n) { return pick(n); }); }
		else if (!strcmp(m.opt, "sw1sw2")) { static const uint8_t SW1[] = { 0x90, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6A, 0x6B, 0x6C, 0x6D, 0x6E, 0x6F }; data = { pick(8) ? SW1[pick(16)] : (uint8_t)pick(256), (uint8_t)(pick(3) ? 0x80 + pick(12) : pick(256)) }; }
	}
	bool padding = pick((m.kind == K_TLV || m.kind == K_BER) ? 2 : 4) == 0;
	alloc_fill((uint8_t)pick(256));
	std::vector<std::string> args = { "emv-decode", std::string("--") + m.opt };
	if (padding) { args.push_back("--ignore-padding"); }
	trace("mode %s%s, %zu bytes %s", m.opt, padding ? " ignoring padding" : "", data.size(), hex(data).substr(0, 600).c_str());

	// malformed arguments
	if (pick(12) == 11) {
		std::string a = hex_arg(data, pick(2));
		switch (pick(5)) {
			case 0: a += "0123456789abcdefABCDEF"[pick(22)]; if (data.empty()) { a = "0"; } break;
			case 1: a.insert(pick((uint32_t)a.size() + 1), 1, "ghxZ-.,_:!"[pick(10)]); break;
			case 2: a = ""; break;
			case 3: a += "zz"; break;
			case 4: a.insert(pick((uint32_t)a.size() + 1), 1, (char)(0x80 + pick(128))); break;
		}
		if (!a.empty() && a[0] == '-') { return; }
		prog::reset();
		args.push_back(a);
		trace("argument %s", a.c_str());
		Res r = go(args);
		evaluated();
		nontrivial();
		probe("malformed_argument");
		ev(0xD1, (uint64_t)m.kind);
		if (!r.exited) { violation("P20", "malformed-accepted", "the argument \"" + a.substr(0, 200) + "\" is not refused"); }
		if (!r.out.empty()) { violation("P20", "malformed-decoded", "something is decoded although the argument is malformed"); }
		return;
	}

	Res ref{ 0, false, false, "", "" };
	bool have_ref = !data.empty();
	std::vector<std::string> a1 = args;
	if (have_ref) {
		prog::reset();
		a1.push_back(hex_arg(data, pick(2)));
		ref = go(a1, 0x25);
		evaluated();
		if (ref.exited) { violation("P20", "refused", "well-formed hexadecimal data is refused: " + ref.err); }
		if (alloc_live()) { violation("P20", "leak", num((long long)alloc_live()) + " memory blocks not released when the program ended"); }
		// what must have been printed
		std::vector<Line> want;
		bool whole = false;
		if (m.kind == K_TLV || m.kind == K_BER) { whole = expect(data.data(), data.size(), want, m.kind == K_BER, 0, padding); }
		else if (m.kind == K_DOL) {
			std::vector<model::DolEntry> d;
			whole = model::dol_parse(data, d);
			char h[64];
			for (auto& e : d) { snprintf(h, sizeof(h), "%02X [%u]", e.tag, e.len); want.push_back({ 0, h }); }
			if (!whole) { want.clear(); }
		}
		else if (m.kind == K_TAGS) {
			size_t p = 0;
			std::vector<std::string> tags;
			whole = true;
			while (p < data.size()) {
				size_t e = p + 1;
				if ((data[p] & 0x1F) == 0x1F) { while (e < data.size() && (data[e] & 0x80)) { ++e; } ++e; }
				if (e > data.size() || e - p > 4) { whole = false; break; }
				tags.push_back(hex(Bytes(data.begin() + (long)p, data.begin() + (long)e)));
				p = e;
			}
			std::vector<std::string> got;
			for (auto& l : lines_of(ref.out)) { if (l.compare(0, 9, "Tag List:") == 0 && got.empty()) { continue; } size_t a = l.find_first_not_of(' '); l = a == std::string::npos ? "" : l.substr(a); got.push_back(l.substr(0, l.find(" | "))); }
			bool ok = got.size() >= tags.size() && (!whole || got.size() == tags.size());
			for (size_t i = 0; ok && i < tags.size(); ++i) { ok = got[i] == tags[i]; }
			if (whole) { probe("tag_list_compared"); }
			if (!ok) { violation("P20", "element", "the tag list is not shown tag by tag"); }
		} else if (m.kind == K_TEXT) {
			std::string t(data.begin(), data.end());
			t = model::iso8859_utf8((unsigned)atoi(m.opt + 8), t.substr(0, t.find('\0'))) + "\n";
			probe("text_compared");
			if (t != ref.out) { violation("P20", "text", num((long long)data.size()) + " characters of text are shown as " + num((long long)ref.out.size()) + " bytes \"" + ref.out.substr(0, 200) + "\" instead of " + num((long long)t.size()) + " bytes \"" + t.substr(0, 200) + "\""); }
		}
		else if (m.kind == K_FIXED) {
			std::string text;
			std::vector<std::string> ls;
			fields::Known known = fields::OPEN;
			if (!strcmp(m.opt, "sw1sw2")) {
				if (data.size() != 2) { known = fields::REFUSED; }
				else if (apdu::status((uint16_t)(data[0] << 8 | data[1]), text)) { known = fields::TEXT; text = "SW1SW2: " + hex(data) + " (" + text + ")"; }
			} else if (uint32_t t = element_of(m.opt)) { known = fields::describe(t, data, text, ls); }
			auto wrong = [&](const std::string& w) { violation("P20", "meaning", std::string(m.opt) + " " + hex(data) + " is shown as \"" + ref.out.substr(0, 1500) + "\" instead of " + w.substr(0, 1500)); };
			if (known == fields::TEXT) {
				probe("single_element_compared");
				if (ref.out != text + "\n") { wrong("\"" + text + "\""); }
			} else if (known == fields::LINES) {
				probe("single_element_compared");
				if (fields::comparable(lines_of(ref.out)) != fields::comparable(ls)) { std::string j; for (auto& l : ls) { j += l + " | "; } wrong("\"" + j + "\""); }
			} else if (known == fields::REFUSED) {
				probe("improper_element_refused");
				if (!ref.out.empty() || ref.err.empty()) { wrong("being reported as improper"); }
			}
		}
		std::string missing;
		if ((m.kind == K_TLV || m.kind == K_BER) && !unclear) {
			// nothing that is not in the data
			std::string last;
			size_t n = count_elements(lines_of(ref.out), last), pads = 0;
			for (auto& l : want) { if (l.text.compare(0, 11, "Padding : [") == 0) { ++pads; } }
			for (auto& l : stripped(lines_of(ref.out))) { if (l.compare(0, 11, "Padding : [") == 0) { if (!pads) { violation("P20", "padding", "shows \"" + l.substr(0, 300) + "\" although there is no padding"); } --pads; } }
			probe("elements_counted");
			if (n > want.size()) { violation("P20", "element", "shows " + num((long long)n) + " elements, the last as \"" + last.substr(0, 300) + "\", although the data contains only " + num((long long)want.size()) + " that are complete"); }
		}
		if ((m.kind == K_TLV || m.kind == K_BER) && !whole) {
			probe("malformed_rest_compared");
			if (!rest_shown(data.data(), lines_of(ref.out), missing, data.size())) { violation("P20", "rest", missing); }
		}
		if (!want.empty()) {
			probe(whole ? "structure_compared" : "structure_prefix_compared");
			if (!whole && !want.empty()) { want.pop_back(); }
			if (!shown(want, lines_of(ref.out), missing)) { violation("P20", "element", missing); }
		}
		if (whole && (m.kind == K_TLV || m.kind == K_BER) && (ref.out.find("BER decoding") != std::string::npos || ref.out.find("Nesting is") != std::string::npos)) {
			bool text = false;
			for (uint8_t x : data) { if (x == 'B' || x == 'N') { text = true; } }
			if (!text) { violation("P20", "error", "well-formed data is reported as malformed"); }
		}
	}

	// the same data through the stream
	std::vector<std::string> a2 = args;
	a2.push_back("-");
	unsigned kind = pick(4);
	prog::reset();
	prog::in.data = data;
	gen_chunks();
	if (kind == 2) {
		// the stream fails somewhere
		prog::in.data.resize(pick(4) ? pick((uint32_t)data.size() + 1) : (data.size() / 4096) * 4096);
		prog::in.error_at_end = true;
		trace("stream fails after %zu bytes", prog::in.data.size());
	}
	if (kind == 3) { if (pick(2)) { alloc_fail_at(1 + (int)pick(12)); } else { alloc_fail_from(1 + (int)pick(12)); } }
	ev(0xD2, (uint64_t)m.kind, kind);
	ev(0xD3, data.size() / 64);
	Res r = go(a2, 0x5A);
	uint64_t failed = alloc_failed();
	alloc_fail_clear();
	if (failed) { fault("allocation_refused", failed); }
	evaluated();
	nontrivial();
	if (prog::in.reads > 1) { probe("several_reads"); }
	if (kind == 2) {
		if (!r.exited) { violation("P20", "error-ignored", "a read error after " + num((long long)prog::in.data.size()) + " of " + num((long long)data.size()) + " bytes is not reported"); }
		if (!r.out.empty()) { violation("P20", "partial", "data is decoded although reading it failed"); }
		return;
	}
	if (data.empty()) {
		probe("empty_stream");
		if (!r.exited) { violation("P20", "empty", "an empty stream is not refused"); }
		return;
	}
	if (failed) {
		probe(r.exited ? "memory_short_refused" : "memory_short_survived");
		if (r.exited) { if (!r.out.empty()) { violation("P20", "partial", "data is decoded although loading it failed"); } return; }
		std::string missing;
		if (!subsequence(lines_of(r.out), lines_of(ref.out), &missing)) { violation("P20", "wrong", "with memory short the program prints \"" + missing.substr(0, 300) + "\", which is not part of the decoding"); }
		return;
	}
	if (prog::in.pos != data.size()) { violation("P20", "left", "only " + num((long long)prog::in.pos) + " of " + num((long long)data.size()) + " bytes were read"); }
	if (r.exited) { violation("P20", "stream-refused", "data that is accepted as an argument is refused from the stream: " + r.err); }
	if (r.out != ref.out || r.err != ref.err || r.code != ref.code) {
		size_t i = 0;
		while (i < r.out.size() && i < ref.out.size() && r.out[i] == ref.out[i]) { ++i; }
		violation("P20", "differs", "decoding the stream (" + num((long long)data.size()) + " bytes in " + num((long long)prog::in.reads) + " reads) differs from decoding the argument at output position " + num((long long)i));
	}
	if (alloc_live()) { violation("P20", "leak", num((long long)alloc_live()) + " memory blocks not released when the program ended"); }
	if (run_index() < 6) { sample(std::string(m.opt) + ": " + num((long long)data.size()) + " bytes in " + num((long long)prog::in.reads) + " reads, " + num((long long)r.out.size()) + " bytes of output"); }
}

// ---------------------------------------------------------------- description of answers to reset
typedef const char* (*DescFn)(const iso7816_atr_info_t*, size_t, char*, size_t);
static void p26_direct(const Bytes& a, const atr::AtrModel& m, const iso7816_atr_info_t& info)
{
	// single descriptions into buffers of any size
	static const DescFn fn[4] = { iso7816_atr_TAi_get_string, iso7816_atr_TBi_get_string, iso7816_atr_TCi_get_string, iso7816_atr_TDi_get_string };
	unsigned n = 1 + pick(6);
	for (unsigned q = 0; q < n; ++q) {
		int k = (int)pick(9), i = 1 + (int)pick(4);
		std::string want;
		std::vector<std::string> list;
		Bytes v;
		if (k < 4) {
			if (!m.off[k][i] && (k == 3 || i > 2)) { continue; }
			want = atr::describe(m, a, k, i);
		} else if (k <= 6) {
			if (k == 6 && !m.K) { continue; }
			want = atr::describe(m, a, k, 0);
		} else {
			// lists of services and capabilities
			v = rbytes(k == 7 ? 1 : 1 + pick(4));
			if (pick(2)) { for (auto& b : v) { if (pick(2)) { b = 0; } } }
			if (k == 7) { list = atr::service_data(v[0]); }
			else if (!atr::capabilities(v, list)) { v.clear(); }
			if (v.empty()) { continue; }
			for (auto& l : list) { want += l + "\n"; }
		}
		size_t len = pick(3) == 0 ? want.size() + pick(4) : pick(3) ? 1 + pick((uint32_t)want.size() + 2) : 1 + pick(300);
		if (!len) { len = 1; }
		std::unique_ptr<char[]> b(new char[len]);
		memset(b.get(), 0x20 + (int)pick(90), len);
		std::unique_ptr<uint8_t[]> ex(new uint8_t[v.size() + 1]);
		if (!v.empty()) { memcpy(ex.get(), v.data(), v.size()); }
		stack_fill((uint8_t)(0x11 * pick(16)));
		const char* r = b.get();
		int rc = 0;
		op_begin("describe");
		if (k < 4) { r = fn[k](&info, (size_t)i, b.get(), len); }
		else if (k == 4) { r = iso7816_atr_T0_get_string(&info, b.get(), len); }
		else if (k == 5) { r = iso7816_atr_TS_get_string(&info); len = 1000; }
		else if (k == 6) { r = iso7816_atr_T1_get_string(&info); len = 1000; }
		else if (k == 7) { rc = iso7816_card_service_data_get_string_list(v[0], b.get(), len); }
		else { rc = iso7816_card_capabilities_get_string_list(ex.get(), v.size(), b.get(), len); }
		op_end();
		evaluated();
		std::string what = k < 4 ? std::string("T") + "ABCD"[k] + num(i) : k == 4 ? "T0" : k == 5 ? "TS" : k == 6 ? "T1" : (k == 7 ? "card service data " : "card capabilities ") + hex(v);
		if (!r) { violation("P26", "nothing", what + " of " + hex(a) + " has no description"); }
		if (k >= 7) {
			if (rc != 0) { violation("P26", "list-refused", what + " is not described: " + num(rc)); }
			if (!memchr(b.get(), 0, len)) { violation("P26", "unterminated", "the description of " + what + " in " + num((long long)len) + " bytes has no end"); }
			std::string missing, got(b.get());
			std::vector<std::string> gl = lines_of(got);
			if (len > want.size() ? got != want : !subsequence(gl, list, &missing)) { violation("P26", "list", what + " is described in " + num((long long)len) + " bytes as \"" + got + "\" instead of \"" + want + "\""); }
			probe(len > want.size() ? "list_complete" : "list_cut");
			continue;
		}
		if (want.empty()) { continue; }
		size_t e = strnlen(r, len);
		if (e >= len) { violation("P26", "unterminated", "the description of " + what + " in " + num((long long)len) + " bytes has no end"); }
		std::string got(r, e);
		if (got != want.substr(0, len - 1)) { violation("P26", "description", what + " of " + hex(a) + " is described in " + num((long long)len) + " bytes as \"" + got + "\" instead of \"" + want.substr(0, len - 1) + "\""); }
		probe(len > want.size() ? "description_complete" : "description_cut");
	}
}
static void p26_lines(const Bytes& a, const std::vector<atr::TextLine>& want, const std::vector<std::string>& got)
{
	std::string why;
	if (!atr_shown(want, got, why)) { violation("P26", "line", "answer " + hex(a) + ": " + why); }
}
static void run_p26()
{
	own_everything(true);
	bool wf;
	Bytes a = atr::gen_atr(&wf);
	if (pick(3) == 2) { a = atr::damage(a); }
	if (a.empty()) { a.push_back(0x3B); }
	atr::AtrModel m = atr::atr_model(a);
	bool open = m.iso_open || (!m.iso_ok && m.why == "bytes follow");
	alloc_fill((uint8_t)pick(256));
	trace("answer %s: %s", hex(a).c_str(), m.iso_ok ? open ? "open" : "well-formed" : m.why.c_str());
	ev(0xE1, m.iso_ok, a.size() > 1 ? a[1] >> 4 : 0);
	ev(0xE2, m.K, m.T1);
	ev_bytes(0xE3, a.data(), a.size());
	std::unique_ptr<uint8_t[]> exact(new uint8_t[a.size()]);
	memcpy(exact.get(), a.data(), a.size());
	std::unique_ptr<iso7816_atr_info_t> info(new iso7816_atr_info_t);
	memset(info.get(), 0x5A + (int)pick(3), sizeof(*info));
	op_begin("describe");
	int pr = iso7816_atr_parse(exact.get(), a.size(), info.get());
	op_end();
	exact.reset();
	if (pr == 0 && m.iso_ok && !open) { nontrivial(); p26_direct(a, m, *info); }
	std::vector<atr::TextLine> want;
	if (m.iso_ok && !open) { want = atr::text(m, a); }

	// the whole program, argument and stream
	std::vector<std::string> args = { "emv-decode", "--atr" };
	prog::reset();
	std::vector<std::string> a1 = args;
	a1.push_back(hex_arg(a, pick(2)));
	Res ref = go(a1, (uint8_t)(0x11 * pick(16)));
	evaluated();
	if (!open) {
		if (m.iso_ok) {
			if (ref.exited) { violation("P26", "refused", "the well-formed answer " + hex(a) + " is refused: " + ref.err); }
			p26_lines(a, want, lines_of(ref.out));
			probe("shown_as_argument");
		} else {
			if (!ref.out.empty()) { violation("P26", "malformed", "the malformed answer " + hex(a) + " (" + m.why + ") is described: " + ref.out.substr(0, 200)); }
			probe("malformed_refused");
		}
	}
	if (alloc_live()) { violation("P26", "leak", num((long long)alloc_live()) + " memory blocks not released when the program ended"); }
	std::vector<std::string> a2 = args;
	a2.push_back("-");
	prog::reset();
	prog::in.data = a;
	gen_chunks();
	unsigned kind = pick(4);
	size_t cut = 0;
	if (kind == 2) { cut = pick((uint32_t)a.size() + 1); prog::in.data.resize(cut); prog::in.error_at_end = true; fault("stream_error"); }
	if (kind == 3) { if (pick(2)) { alloc_fail_at(1 + (int)pick(12)); } else { alloc_fail_from(1 + (int)pick(12)); } }
	ev(0xE4, kind, cut);
	Res r = go(a2, (uint8_t)(0x11 * pick(16)));
	uint64_t failed = alloc_failed();
	alloc_fail_clear();
	if (failed) { fault("allocation_refused", failed); }
	evaluated();
	if (kind == 2) {
		if (!r.out.empty()) { violation("P26", "partial", "an answer is described although reading it failed"); }
		return;
	}
	if (failed) {
		std::string missing;
		if (!subsequence(lines_of(r.out), lines_of(ref.out), &missing)) { violation("P26", "wrong", "with memory short the program prints \"" + missing.substr(0, 300) + "\", which is not part of the description"); }
		return;
	}
	if (r.out != ref.out) { violation("P26", "differs", "the description of the answer from the stream differs from that of the argument"); }
	if (alloc_live()) { violation("P26", "leak", num((long long)alloc_live()) + " memory blocks not released when the program ended"); }
	if (run_index() < 6) { sample(hex(a) + ": " + num((long long)want.size()) + " lines"); }
}

int main(int argc, char** argv)
{
	return main_driver(argc, argv, { { "P20", run_p20, "decode" }, { "P26", run_p26, "decode,describe" } });
}
