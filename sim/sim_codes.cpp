// The code tables (P21): loading of the country, currency, language and
// merchant category files from a simulated disk, with I/O faults, damaged
// content, failing memory and any history of loads.
#include "core.hpp"
#include <algorithm>
#include <cerrno>
#include <new>
#include <fcntl.h>
#include <unistd.h>
#include "emv_strings.h"
#include "emv_tlv.h"
#include "isocodes_lookup.h"
#include "mcc_lookup.h"
using namespace sim;

// ---------------------------------------------------------------- C++ memory of the tables
static volatile bool in_lib;
static volatile int64_t new_fail_at;
static volatile bool new_fail_all;
static volatile uint64_t new_count, new_failed;
static std::set<void*>* new_live;
static volatile bool busy;                          // the ledger itself is changing
struct Outside { volatile bool s; Outside() : s(in_lib) { in_lib = false; } ~Outside() { in_lib = s; } };
__attribute__((noinline)) void* operator new(size_t n)
{
	if (in_lib) {
		new_count = new_count + 1;
		if (new_fail_at && ((int64_t)new_count == new_fail_at || (new_fail_all && (int64_t)new_count > new_fail_at))) {
			new_failed = new_failed + 1;
			throw std::bad_alloc();
		}
	}
	void* p = malloc(n ? n : 1);
	if (!p) { throw std::bad_alloc(); }
	if (in_lib) { Outside o; memset(p, 0xA5, n); busy = true; new_live->insert(p); busy = false; }
	return p;
}
__attribute__((noinline)) void operator delete(void* p) noexcept
{
	if (p && new_live && !busy) { Outside o; busy = true; new_live->erase(p); busy = false; }
	free(p);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }

// ---------------------------------------------------------------- disk
struct File { std::string data; int open_errno = 0; long fail_read_at = -1; unsigned chunk = 0; };
static std::map<std::string, File>* disk;
struct Fd { const File* f; size_t pos; };
static std::map<int, Fd>* fds;
static int next_fd;
static unsigned opened, closed;
extern "C" {
int simj_open(const char* path, int flags, ...)
{
	Outside o;
	auto it = disk->find(path);
	if (it == disk->end()) { fault("file_missing"); errno = ENOENT; trace("  open %s: no such file", path); return -1; }
	if (it->second.open_errno) { fault("open_error"); errno = it->second.open_errno; trace("  open %s: %s", path, strerror(errno)); return -1; }
	trace("  open %s: %zu bytes", path, it->second.data.size());
	int fd = next_fd++;
	(*fds)[fd] = { &it->second, 0 };
	++opened;
	return fd;
}
ssize_t simj_read(int fd, void* buf, size_t n)
{
	Outside o;
	auto it = fds->find(fd);
	if (it == fds->end()) { errno = EBADF; return -1; }
	Fd& d = it->second;
	if (d.f->fail_read_at >= 0 && d.pos >= (size_t)d.f->fail_read_at) { fault("read_error"); trace("  read error at %zu", d.pos); errno = EIO; return -1; }
	size_t left = d.f->data.size() - d.pos;
	if (d.f->fail_read_at >= 0) { left = std::min(left, (size_t)d.f->fail_read_at - d.pos); }
	if (n > left) { n = left; }
	if (d.f->chunk && n > d.f->chunk) { n = d.f->chunk; if (!d.pos) { fault("short_reads"); } }
	memcpy(buf, d.f->data.data() + d.pos, n);
	d.pos += n;
	return (ssize_t)n;
}
int simj_close(int fd)
{
	Outside o;
	if (!fds->erase(fd)) { errno = EBADF; return -1; }
	++closed;
	return 0;
}
void* sim_malloc(size_t); void* sim_calloc(size_t, size_t); void* sim_realloc(void*, size_t); void sim_free(void*); char* sim_strdup(const char*);
void* simj_malloc(size_t n) { Outside o; return sim_malloc(n); }
void* simj_calloc(size_t a, size_t b) { Outside o; return sim_calloc(a, b); }
void* simj_realloc(void* p, size_t n) { Outside o; return sim_realloc(p, n); }
void simj_free(void* p) { Outside o; sim_free(p); }
char* simj_strdup(const char* s) { Outside o; return sim_strdup(s); }
uint32_t simj_arc4random() { return 0x12345678; }
}

// ---------------------------------------------------------------- reference JSON reader (strict)
namespace ref {
struct V {
	enum { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
	std::string s;
	bool odd = false;                       // content on which readers differ
	std::vector<V> a;
	std::vector<std::pair<std::string, V>> o;
	const V* get(const char* k) const { const V* r = nullptr; for (auto& e : o) { if (e.first == k) { r = &e.second; } } return r; }
	bool dup() const { for (size_t i = 0; i < o.size(); ++i) { for (size_t j = 0; j < i; ++j) { if (o[i].first == o[j].first) { return true; } } } return false; }
};
struct P {
	const std::string& t;
	size_t p = 0;
	bool ok = true;
	P(const std::string& x) : t(x) {}
	void ws() { while (p < t.size() && strchr(" \t\r\n", t[p]) && t[p]) { ++p; } }
	static void utf8(std::string& o, uint32_t c)
	{
		if (c < 0x80) { o += (char)c; }
		else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
		else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
		else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
	}
	int hex4() { int v = 0; for (int i = 0; i < 4; ++i) { if (p >= t.size() || !isxdigit((unsigned char)t[p])) { ok = false; return 0; } char c = t[p++]; v = v * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10); } return v; }
	V str()
	{
		V v; v.t = V::STR; ++p;
		while (ok) {
			if (p >= t.size()) { ok = false; break; }
			unsigned char c = (unsigned char)t[p++];
			if (c == '"') { break; }
			if (c < 0x20) { v.odd = true; ok = false; }
			if (c >= 0x80) { v.s += (char)c; v.odd |= c >= 0xF8 || c == 0xC0 || c == 0xC1; continue; }
			if (c != '\\') { v.s += (char)c; continue; }
			if (p >= t.size()) { ok = false; break; }
			c = (unsigned char)t[p++];
			switch (c) {
				case '"': case '\\': case '/': v.s += (char)c; break;
				case 'b': v.s += '\b'; break; case 'f': v.s += '\f'; break; case 'n': v.s += '\n'; break; case 'r': v.s += '\r'; break; case 't': v.s += '\t'; break;
				case 'u': {
					int u = hex4();
					if (u >= 0xD800 && u < 0xDC00 && p + 1 < t.size() && t[p] == '\\' && t[p + 1] == 'u') {
						p += 2; int l = hex4();
						if (l >= 0xDC00 && l < 0xE000) { utf8(v.s, 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00)); } else { v.odd = true; }
					} else if (u >= 0xD800 && u < 0xE000) { v.odd = true; }
					else { if (!u) { v.odd = true; } utf8(v.s, (uint32_t)u); }
					break;
				}
				default: ok = false;
			}
		}
		return v;
	}
	V val(int depth)
	{
		V v;
		ws();
		if (p >= t.size() || depth > 20) { ok = false; return v; }
		char c = t[p];
		if (c == '"') { return str(); }
		if (c == '{' || c == '[') {
			++p; v.t = c == '{' ? V::OBJ : V::ARR;
			ws();
			if (p < t.size() && t[p] == (c == '{' ? '}' : ']')) { ++p; return v; }
			while (ok) {
				ws();
				if (c == '{') {
					if (p >= t.size() || t[p] != '"') { ok = false; break; }
					V k = str(); v.odd |= k.odd;
					ws();
					if (p >= t.size() || t[p] != ':') { ok = false; break; }
					++p;
					v.o.emplace_back(k.s, val(depth + 1));
				} else { v.a.push_back(val(depth + 1)); }
				ws();
				if (p >= t.size()) { ok = false; break; }
				if (t[p] == ',') { ++p; continue; }
				if (t[p] == (c == '{' ? '}' : ']')) { ++p; break; }
				ok = false;
			}
			return v;
		}
		for (const char* w : { "true", "false", "null" }) {
			if (!t.compare(p, strlen(w), w)) { p += strlen(w); v.t = *w == 'n' ? V::NUL : V::BOOL; v.s = w; return v; }
		}
		size_t b = p;
		if (p < t.size() && t[p] == '-') { ++p; }
		size_t d = p;
		while (p < t.size() && isdigit((unsigned char)t[p])) { ++p; }
		if (p == d || (t[d] == '0' && p - d > 1)) { ok = false; return v; }
		if (p < t.size() && t[p] == '.') { ++p; size_t q = p; while (p < t.size() && isdigit((unsigned char)t[p])) { ++p; } if (p == q) { ok = false; } v.odd = true; }
		if (p < t.size() && (t[p] | 32) == 'e') { ++p; if (p < t.size() && strchr("+-", t[p]) && t[p]) { ++p; } size_t q = p; while (p < t.size() && isdigit((unsigned char)t[p])) { ++p; } if (p == q) { ok = false; } v.odd = true; }
		v.t = V::NUM; v.s = t.substr(b, p - b);
		return v;
	}
};
static bool parse(const std::string& t, V& v) { P p(t); v = p.val(0); p.ws(); return p.ok && p.p == t.size(); }
}
using ref::V;

// ---------------------------------------------------------------- what a table contains
enum { COUNTRY, CURRENCY, LANGUAGE, MCC, NT };
static const char* const TABLE[NT] = { "country", "currency", "language", "merchant category" };
struct Content {                                    // index -> code -> names of the file
	bool known = true;                              // false: nothing can be said
	std::map<std::string, std::vector<std::string>> by[3];
	std::set<uint32_t> foreign;                     // numbers the file does not contain
};
enum Verdict { MUST, MAY, FAIL };                   // must load, may load, must be refused
static bool digits(const std::string& s) { return !s.empty() && s.find_first_not_of("0123456789") == std::string::npos; }
static unsigned long long value(const std::string& s) { return strtoull(s.c_str(), nullptr, 10); }
static std::string canon(unsigned long long v) { return std::to_string(v); }

static Verdict interpret(int table, const std::string& text, bool damaged_bytes, Content& c)
{
	V root;
	c = Content();
	if (!ref::parse(text, root)) { c.known = false; return damaged_bytes ? MAY : FAIL; }
	// damage that leaves control characters or ill-formed text inside strings: readers differ
	if (damaged_bytes && (text.find('\x00') != std::string::npos || text.find('\x01') != std::string::npos || text.find('\xFF') != std::string::npos)) { c.known = false; return MAY; }
	Verdict v = MUST;
	const V* list = &root;
	if (table != MCC) {
		static const char* const KEY[] = { "3166-1", "4217", "639-2" };
		if (root.t != V::OBJ) { return FAIL; }
		list = root.get(KEY[table]);
		if (!list) { return FAIL; }
		if (root.odd) { v = MAY; }
	}
	if (list->t != V::ARR || list->a.empty()) { return FAIL; }
	for (auto& e : list->a) {
		if (e.t != V::OBJ) { return FAIL; }
		if (e.dup() || e.odd) { v = MAY; c.known = false; }
		if (!e.o.empty() && e.o[0].second.t != V::STR) { v = std::max(v, MAY); }
		auto text_of = [&](const char* k, bool optional, std::string& out) {
			const V* m = e.get(k);
			out.clear();
			if (!m || m->t == V::NUL) { return optional; }
			if (m->t != V::STR || m->odd) { v = std::max(v, MAY); c.known = false; }
			out = m->s;
			return true;
		};
		std::string name, a2, a3, n;
		if (table == MCC) {
			const V* m = e.get("mcc");
			if (!m || m->t == V::NUL) { return FAIL; }
			if (!text_of("edited_description", false, name)) { return FAIL; }
			if (m->t != V::STR && m->t != V::NUM) { v = std::max(v, MAY); c.known = false; continue; }
			if (!digits(m->s)) {
				if (m->t == V::STR && (m->s.empty() || !strchr("0123456789+- \t\n\r\v\f", m->s[0]))) { return FAIL; }
				if (m->t == V::NUM && m->s[0] == '-') { return FAIL; }
				v = std::max(v, MAY); c.known = false; continue;
			}
			unsigned long long u = value(m->s);
			if (!u) { return FAIL; }
			if (m->s.size() > 4 || m->t != V::STR) { v = std::max(v, MAY); }
			if (u > 0xFFFFFFFFull) { c.foreign.insert((uint32_t)u); } else { c.by[0][canon(u)].push_back(name); }
			continue;
		}
		if (!text_of("name", false, name)) { return FAIL; }
		if (!text_of("alpha_2", table != COUNTRY, a2)) { return FAIL; }
		if (!text_of("alpha_3", false, a3)) { return FAIL; }
		if (table != LANGUAGE && !text_of("numeric", false, n)) { return FAIL; }
		if (table == COUNTRY) { c.by[0][a2].push_back(name); }
		if (table == LANGUAGE && !a2.empty()) { c.by[0][a2].push_back(name); }
		c.by[1][a3].push_back(name);
		if (table != LANGUAGE) {
			if (!digits(n)) { const V* m = e.get("numeric"); if (m->t == V::STR && !m->odd) { return FAIL; } v = std::max(v, MAY); c.known = false; continue; }
			if (n.size() > 3) { v = std::max(v, MAY); }
			unsigned long long u = value(n);
			if (u > 0xFFFFFFFFull) { c.foreign.insert((uint32_t)u); } else { c.by[2][canon(u)].push_back(name); }
		}
	}
	for (auto it = c.foreign.begin(); it != c.foreign.end();) { if (c.by[table == MCC ? 0 : 2].count(canon(*it))) { it = c.foreign.erase(it); } else { ++it; } }
	return v;
}

// ---------------------------------------------------------------- drawing a file
static std::string letters(unsigned n, char base) { std::string s; for (unsigned i = 0; i < n; ++i) { s += (char)(base + pick(5)); } return s; }
static std::string quoted(const std::string& s)
{
	std::string o = "\"";
	for (size_t i = 0; i < s.size(); ++i) {
		unsigned char c = (unsigned char)s[i];
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c < 0x20) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); o += b; }
		else if (c == 0xC3 && i + 1 < s.size() && pick(2)) { char b[8]; snprintf(b, sizeof(b), "\\u%04X", 0xC0 | ((unsigned char)s[++i] & 0x3F)); o += b; }
		else { o += (char)c; }
	}
	return o + "\"";
}
static std::string gen_name()
{
	static const char* const T[] = { "Aland", "A", "", "Bolivia, Plurinational State of", "C\xC3\xB4te d'Ivoire", "\xE4\xB8\xAD\xE5\x9B\xBD", "He said \"no\"", "back\\slash", "tab\there", "Name of sixteen.", "A name that is certainly longer than the hundred and twenty-eight bytes a caller may reserve for it, as some official names of states and languages really are" };
	std::string n = T[pick(sizeof(T) / sizeof(T[0]))];
	if (pick(3)) { n += canon(pick(100)); }
	return n;
}
static std::string sp() { static const char* const S[] = { "", " ", "\n\t", "\n  " }; return S[pick(4)]; }
static std::string gen_file(int table, bool calm)
{
	std::string s;
	static const char* const KEY[] = { "3166-1", "4217", "639-2" };
	bool wrong = !calm && chance(1, 8);                   // one structural mistake somewhere
	unsigned mistake = wrong ? pick(8) : 99;
	unsigned n = pick(10) == 9 ? 10 + pick(40) : 1 + pick(8);
	if (mistake == 0) { n = 0; }
	unsigned at = n ? pick(n) : 0;
	if (table != MCC) {
		s += "{" + sp();
		if (pick(6) == 5) { s += "\"comment\":" + quoted(gen_name()) + ","; }
		s += quoted(mistake == 1 ? "3166-3" : KEY[table]) + sp() + ":" + sp();
	} else if (mistake == 1) { s += "{\"mcc\":" ; }
	if (mistake == 2) { s += "{}"; }
	else {
		s += "[";
		for (unsigned i = 0; i < n; ++i) {
			bool bad = i == at;
			s += sp();
			if (bad && mistake == 3) { s += pick(2) ? "\"x\"" : "7"; if (i + 1 < n) { s += ","; } continue; }
			if (bad && mistake == 7) { s += pick(2) ? "null" : "{}"; if (i + 1 < n) { s += ","; } continue; }
			std::vector<std::pair<std::string, std::string>> m;
			std::string num;
			if (table == MCC) {
				num = pick(12) == 11 ? canon(pick(10000)) : canon(5000 + pick(60));
				while (num.size() < 4 && pick(4)) { num = "0" + num; }
				if (bad && mistake == 5) { static const char* const B[] = { "x", "0", "-5", "", "12x", "4294972295", "18446744073709556615", "10001" }; num = B[pick(8)]; }
				m.emplace_back("mcc", pick(10) == 9 && digits(num) && num[0] != '0' ? num : quoted(num));
				m.emplace_back("edited_description", quoted(gen_name()));
				// the members the real file has
				if (pick(2)) { m.emplace_back("combined_description", quoted(gen_name())); m.emplace_back("usda_description", quoted(gen_name())); m.emplace_back("irs_description", quoted(gen_name())); }
				if (pick(2)) { m.emplace_back("irs_reportable", quoted("Yes")); }
				if (pick(2)) { m.emplace_back("id", canon(pick(900))); }
			} else {
				num = canon(pick(12) == 11 ? pick(1000) : 500 + pick(40));
				while (num.size() < 3) { num = "0" + num; }
				if (bad && mistake == 5) { static const char* const B[] = { "abc", "", "12x", " 12", "-1", "4294967301", "99999999999999999999", "x12" }; num = B[pick(8)]; }
				if (table == COUNTRY || (table == LANGUAGE && pick(3))) { m.emplace_back("alpha_2", quoted(letters(2, table == LANGUAGE ? 'a' : 'A'))); }
				m.emplace_back("alpha_3", quoted(letters(3, table == LANGUAGE ? 'a' : 'A')));
				m.emplace_back("name", quoted(gen_name()));
				if (table != LANGUAGE) { m.emplace_back("numeric", pick(20) == 19 && digits(num) && num[0] != '0' ? num : quoted(num)); }
				if (pick(4) == 3) { m.emplace_back("official_name", quoted(gen_name())); }
				if (pick(4) == 3) { m.emplace_back("common_name", quoted(gen_name())); }
				if (table == LANGUAGE && pick(4) == 3) { m.emplace_back("bibliographic", quoted(letters(3, 'a'))); }
				if (pick(8) == 7) { m.emplace_back("flag", pick(2) ? "true" : "null"); }
			}
			if (bad && mistake == 4) { m.erase(m.begin() + pick((uint32_t)m.size())); }
			if (bad && mistake == 6) { static const char* const B[] = { "null", "5", "[]", "{}", "1.5", "true" }; m[pick((uint32_t)m.size())].second = B[pick(6)]; }
			if (pick(5) == 4) { std::swap(m[0], m[pick((uint32_t)m.size())]); }
			s += "{";
			for (size_t k = 0; k < m.size(); ++k) { s += sp() + quoted(m[k].first) + ":" + sp() + m[k].second + (k + 1 < m.size() ? "," : ""); }
			s += "}";
			if (i + 1 < n) { s += ","; }
		}
		s += "]";
	}
	if (table != MCC) { s += sp() + "}"; } else if (mistake == 1) { s += "}"; }
	return s + sp();
}
struct Drawn { bool present; bool io_bad; Verdict v; Content c; bool missing; };
static Drawn put_file(int table, const std::string& path, bool calm)
{
	Drawn d;
	File f;
	f.data = gen_file(table, calm);
	d.present = true; d.io_bad = false; d.missing = false;
	bool damaged = false, cut = false;
	std::string original = f.data;
	switch (calm ? 0 : pick(12)) {
		case 6: disk->erase(path); d.missing = true; d.v = FAIL; return d;
		case 7: f.open_errno = pick(2) ? EACCES : EMFILE; break;
		case 8: f.fail_read_at = (long)pick((uint32_t)f.data.size() + 1); d.io_bad = true; break;
		case 9: f.data.resize(pick((uint32_t)f.data.size() + 1)); cut = true; fault("truncated_file"); break;
		case 10: { damaged = true; fault("damaged_byte"); unsigned k = 1 + pick(2); for (unsigned i = 0; i < k; ++i) { static const char B[] = "\"{}[],:\\x0 \n\x01\xFF"; f.data[pick((uint32_t)f.data.size())] = B[pick(sizeof(B) - 1)]; } break; }
		case 11: { size_t b = pick((uint32_t)f.data.size()), l = 1 + pick(40); damaged = true; fault("damaged_block"); if (pick(2)) { f.data.erase(b, l); } else { for (size_t i = b; i < f.data.size() && i < b + l; ++i) { f.data[i] = 0; } } break; }
	}
	if (pick(3) == 2) { f.chunk = 1 + pick(64); }
	d.v = interpret(table, f.data, damaged, d.c);
	(void)cut;
	if (f.open_errno) { d.io_bad = true; }
	if (d.io_bad) { d.v = FAIL; }
	trace("  file %s (%s)%s%s: %s", path.c_str(), TABLE[table], damaged ? " damaged" : cut ? " truncated" : "", d.io_bad ? " with I/O error" : "", d.v == MUST ? "complete" : d.v == MAY ? "unclear" : "not loadable");
	if (tracing()) { trace("    %s", f.data.size() > 1500 ? (f.data.substr(0, 1500) + "...").c_str() : f.data.c_str()); }
	(*disk)[path] = f;
	return d;
}

// ---------------------------------------------------------------- lookups
static const char* look(int table, int idx, const std::string& code)
{
	switch (table * 3 + idx) {
		case COUNTRY * 3 + 0: return isocodes_lookup_country_by_alpha2(code.c_str());
		case COUNTRY * 3 + 1: return isocodes_lookup_country_by_alpha3(code.c_str());
		case COUNTRY * 3 + 2: return isocodes_lookup_country_by_numeric((unsigned)value(code));
		case CURRENCY * 3 + 1: return isocodes_lookup_currency_by_alpha3(code.c_str());
		case CURRENCY * 3 + 2: return isocodes_lookup_currency_by_numeric((unsigned)value(code));
		case LANGUAGE * 3 + 0: return isocodes_lookup_language_by_alpha2(code.c_str());
		case LANGUAGE * 3 + 1: return isocodes_lookup_language_by_alpha3(code.c_str());
		case MCC * 3 + 0: return mcc_lookup((unsigned)value(code));
	}
	return nullptr;
}
static const char* const INDEX[NT][3] = { { "alpha-2", "alpha-3", "numeric" }, { nullptr, "alpha-3", "numeric" }, { "alpha-2", "alpha-3", nullptr }, { "number", nullptr, nullptr } };
static bool agrees(const Content& c, int table, int idx, const std::string& code, const char* got, bool gotnull, const std::string& name)
{
	(void)got; (void)table;
	auto it = c.by[idx].find(code);
	if (it == c.by[idx].end()) { return gotnull; }
	return !gotnull && std::find(it->second.begin(), it->second.end(), name) != it->second.end();
}
static std::vector<Content> state[NT];
static Bytes bcd(unsigned v, unsigned n) { Bytes b(n); for (unsigned i = n; i--;) { b[i] = (uint8_t)(v % 10 | (v / 10 % 10) << 4); v /= 100; } return b; }
static std::string shown(uint32_t tag, const Bytes& v)
{
	Bytes copy = v;
	struct emv_tlv_t tlv;
	memset(&tlv, 0, sizeof(tlv));
	tlv.tag = tag; tlv.length = (unsigned)copy.size(); tlv.value = copy.data();
	struct emv_tlv_info_t info;
	static char str[2048];
	memset(str, 0x5A, sizeof(str));
	str[sizeof(str) - 1] = 0;
	emv_tlv_get_info(&tlv, &info, str, sizeof(str));
	return str;
}
static void check_tables(const char* when)
{
	op_begin("lookup");
	struct End { ~End() { op_end(); } } end;
	for (int t = 0; t < NT; ++t) {
		bool any_unknown = false;
		for (auto& c : state[t]) { any_unknown |= !c.known; }
		std::vector<const Content*> keep;
		for (auto& c : state[t]) { keep.push_back(&c); }
		for (int x = 0; x < 3; ++x) {
			if (!INDEX[t][x]) { continue; }
			std::set<std::string> codes;
			for (auto& c : state[t]) { for (auto& e : c.by[x]) { codes.insert(e.first); } }
			bool numeric = x == 2 || t == MCC;
			for (unsigned k = 0; k < 3; ++k) { codes.insert(numeric ? canon(pick(t == MCC ? 10000 : 1000)) : letters(x == 0 ? 2 : 3, t == LANGUAGE ? 'a' : 'A')); }
			if (numeric) { for (auto& c : state[t]) { for (auto f : c.foreign) { codes.insert(canon(f)); } } codes.insert("0"); codes.insert("4294967295"); }
			for (auto& code : codes) {
				in_lib = true;
				const char* got = look(t, x, code);
				in_lib = false;
				std::string name = got ? got : "";
				evaluated();
				if (any_unknown) { continue; }
				std::vector<const Content*> next;
				for (auto c : keep) { if (agrees(*c, t, x, code, got, !got, name)) { next.push_back(c); } }
				if (next.empty()) {
					std::string exp;
					for (auto c : keep) { auto it = c->by[x].find(code); if (!exp.empty()) { exp += " or "; } if (it == c->by[x].end()) { exp += "nothing"; } else { for (auto& s : it->second) { exp += "\"" + s + "\" "; } } }
					violation("P21", "lookup", std::string(when) + ": the " + TABLE[t] + " with " + INDEX[t][x] + " code \"" + code + "\" is reported as " + (got ? "\"" + name + "\"" : std::string("unknown")) + ", expected " + exp);
				}
				keep = next;
				// the same code as the strings of a field
				if (!got || pick(4)) { continue; }
				std::string want = name;
				uint32_t tag = 0; Bytes v;
				if (t == COUNTRY && x == 0 && code.size() == 2) { tag = 0x5F55; v.assign(code.begin(), code.end()); }
				if (t == COUNTRY && x == 1 && code.size() == 3) { tag = 0x5F56; v.assign(code.begin(), code.end()); }
				if (t == COUNTRY && x == 2 && value(code) < 1000) { tag = pick(2) ? 0x5F28 : 0x9F1A; v = bcd((unsigned)value(code), 2); }
				if (t == CURRENCY && x == 2 && value(code) < 1000) { static const uint32_t T[] = { 0x5F2A, 0x9F42, 0x9F51 }; tag = T[pick(2)]; v = bcd((unsigned)value(code), 2); }
				if (t == LANGUAGE && x == 0 && code.size() == 2 && islower((unsigned char)code[0]) && islower((unsigned char)code[1]) && !name.empty()) { tag = 0x5F2D; v.assign(code.begin(), code.end()); want = name.substr(0, 127) + "\n"; if (pick(2)) { v[0] = (uint8_t)toupper(v[0]); } }
				if (t == MCC && value(code) < 10000) { tag = 0x9F15; v = bcd((unsigned)value(code), 2); }
				if (tag) {
					in_lib = true;
					std::string s = shown(tag, v);
					in_lib = false;
					evaluated();
					char tn[16]; snprintf(tn, sizeof(tn), "%X", tag);
					bool code_itself = (tag == 0x5F55 || tag == 0x5F56) && name.empty() && s == code;
					if (s != want && !code_itself) { violation("P21", "field", std::string(when) + ": field " + tn + " with value " + hex(v) + " is shown as \"" + s + "\", expected \"" + want + "\""); }
				}
			}
		}
		if (!any_unknown) { std::vector<Content> k; for (auto c : keep) { k.push_back(*c); } state[t].swap(k); }
	}
}

// ---------------------------------------------------------------- runs
extern char __start_tooldata[] __attribute__((weak));
extern char __stop_tooldata[] __attribute__((weak));
static Bytes initial;
__attribute__((no_sanitize("address"), noinline, optimize("no-tree-loop-distribute-patterns"))) static void copy_plain(volatile char* d, const volatile char* s, size_t n) { for (size_t i = 0; i < n; ++i) { d[i] = s[i]; } }
static void fresh_tables()
{
	in_lib = false;
	if (__start_tooldata) {
		size_t n = (size_t)(__stop_tooldata - __start_tooldata);
		if (initial.empty()) { initial.resize(n); copy_plain((char*)initial.data(), __start_tooldata, n); }
		else { copy_plain(__start_tooldata, (char*)initial.data(), n); }
	}
	if (!new_live) { new_live = new std::set<void*>(); disk = new std::map<std::string, File>(); fds = new std::map<int, Fd>(); }
	std::vector<void*> old(new_live->begin(), new_live->end());
	busy = true; new_live->clear(); busy = false;
	for (void* p : old) { free(p); }
	disk->clear(); fds->clear();
	next_fd = 100; opened = closed = 0;
	new_fail_at = 0; new_fail_all = false; new_count = 0; new_failed = 0;
	for (int t = 0; t < NT; ++t) { state[t].assign(1, Content()); }
}
static FILE* sink;
static int call(const std::function<int()>& f)
{
	static FILE* real_err;
	if (!real_err) { real_err = stderr; sink = fopen("/dev/null", "w"); }
	stderr = sink;
	op_begin("load");
	in_lib = true;
	int r = f();
	in_lib = false;
	op_end();
	stderr = real_err;
	return r;
}
static void run_p21()
{
	own_everything(true);
	fresh_tables();
	alloc_fill((uint8_t)(pick(2) ? 0x5A : 0xA5));
	unsigned loads = 1 + pick(5) % 4;
	std::string desc;
	for (unsigned l = 0; l < loads; ++l) {
		// 0: all tables, 1: the ISO tables, 2: the merchant categories
		unsigned what = pick(3);
		bool def_iso = pick(4) == 3, def_mcc = pick(4) == 3;
		std::string dir = def_iso ? "/usr/share/iso-codes/json" : pick(2) ? "/data/iso" : "rel";
		bool slash = !def_iso && pick(3) == 2;
		bool nopath = !def_iso && pick(40) == 39;
		if (nopath) { dir = ""; slash = false; }
		std::string mcc = def_mcc ? "/nonexistent/mcc_codes.json" : "/data/mcc.json";
		Drawn d[NT];
		bool calm = pick(3) == 0;
		trace("load %u: %s%s", l + 1, what == 0 ? "all tables" : what == 1 ? "ISO tables" : "merchant categories", nopath ? " with an empty path" : "");
		for (int t = 0; t < NT; ++t) {
			static const char* const FN[] = { "/iso_3166-1.json", "/iso_4217.json", "/iso_639-2.json" };
			bool used = t == MCC ? what != 1 : what != 2;
			if (!used) { continue; }
			if (nopath && t != MCC) { d[t].present = false; d[t].missing = true; d[t].io_bad = false; d[t].v = FAIL; continue; }
			d[t] = put_file(t, t == MCC ? mcc : dir + FN[t], calm || pick(2) == 0);
		}
		if (nopath) { for (const char* p : { "/iso_3166-1.json", "iso_3166-1.json" }) { disk->erase(p); } }
		std::string arg = dir + (slash ? "/" : "");
		bool short_mem = chance(1, 5);
		new_count = 0; new_failed = 0;
		new_fail_at = short_mem ? 1 + (int64_t)(pick(2) ? pick(30) : pick(300)) : 0;
		new_fail_all = short_mem && pick(2);
		if (short_mem) { trace("  memory is refused at request %lld%s", (long long)new_fail_at, new_fail_all ? " and after" : ""); }
		uint64_t live0 = alloc_live();
		const char* ip = def_iso ? nullptr : arg.c_str();
		const char* mp = def_mcc ? nullptr : mcc.c_str();
		int r = call([&] { return what == 0 ? emv_strings_init(ip, mp) : what == 1 ? isocodes_init(ip) : mcc_init(mp); });
		new_fail_at = 0;
		bool refused = new_failed > 0;
		if (refused) { fault("allocation_refused"); }
		trace("  result %d%s", r, refused ? " (memory was refused)" : "");
		evaluated();
		ev(0x21, what, (uint64_t)(r < 0 ? 1 : r > 0 ? 2 : 0));
		bool must = true; int first_bad = -1;
		for (int t = 0; t < NT; ++t) {
			bool used = t == MCC ? what != 1 : what != 2;
			if (!used) { continue; }
			ev(0x22, t, d[t].v);
			if (d[t].v != MUST) { must = false; }
			if (d[t].v == FAIL && first_bad < 0) { first_bad = t; }
		}
		std::string n = "load " + std::to_string(l + 1);
		if (r == 0 && first_bad >= 0) { violation("P21", "accepted", n + " succeeded although the " + TABLE[first_bad] + " file is " + (d[first_bad].missing ? "missing" : d[first_bad].io_bad ? "not readable" : "malformed or incomplete")); }
		if (r != 0 && must && !refused) { violation("P21", "refused", n + " failed with " + std::to_string(r) + " although every file is complete and readable"); }
		if (r <= 0 && first_bad >= 0 && d[first_bad].missing && !refused) {
			bool clear = true;
			for (int t = 0; t < first_bad; ++t) { bool used = t == MCC ? what != 1 : what != 2; if (used && d[t].v != MUST) { clear = false; } }
			if (clear) { violation("P21", "result", n + " returned " + std::to_string(r) + " although the " + TABLE[first_bad] + " file was not found, which is reported as a value greater than zero"); }
		}
		if (!fds->empty()) { violation("P21", "leak", n + " left a file open"); }
		if (alloc_live() > live0) { violation("P21", "leak", n + " (result " + std::to_string(r) + ") left " + std::to_string(alloc_live() - live0) + " objects of the JSON reader allocated"); }
		if (refused && r == 0) { probe("memory_short_survived"); }
		if (refused && r) { probe("memory_short_refused"); }
		// what the tables may contain now
		for (int t = 0; t < NT; ++t) {
			bool used = t == MCC ? what != 1 : what != 2;
			if (!used) { continue; }
			std::vector<Content> s;
			if (r == 0) { s.push_back(d[t].c); probe(l ? "loaded_again" : "loaded"); }
			else {
				s = state[t];
				s.push_back(Content());
				if (d[t].v != FAIL) { s.push_back(d[t].c); }
				probe(l ? "failed_again" : "failed");
			}
			state[t] = s;
		}
		check_tables(("after " + n + " (" + (r ? "failed" : "successful") + ")").c_str());
		desc += (l ? "; " : "") + std::string(what == 0 ? "all" : what == 1 ? "iso" : "mcc") + " -> " + std::to_string(r);
		nontrivial();
	}
	sample(desc);
	fresh_tables();
}
int main(int argc, char** argv)
{
	return main_driver(argc, argv, { { "P21", run_p21, "load,lookup" } });
}
