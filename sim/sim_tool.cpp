// The command-line terminal (P18, P19, P24, P28): the whole program with the real
// kernel and reader layer, against the simulated PC/SC service, cards, clock,
// standard input and memory.
#include "service.hpp"
#include "program.hpp"
#include "txn.hpp"
#include "lines.hpp"
#include "apdu.hpp"
extern "C" {
#include "iso7816.h"
#include "iso7816_strings.h"
}
#include <winscard.h>
#include <algorithm>
#include <memory>
#include <set>
#include <ctime>
using namespace sim;
using namespace svc;
using model::Tlv;
using model::TlvList;

extern "C" {
int tool_main(int argc, char** argv);
void print_emv_debug(unsigned int timestamp, enum emv_debug_source_t source, enum emv_debug_level_t level, enum emv_debug_type_t type, const char* str, const void* buf, size_t buf_len);
void print_emv_debug_verbose(unsigned int timestamp, enum emv_debug_source_t source, enum emv_debug_level_t level, enum emv_debug_type_t type, const char* str, const void* buf, size_t buf_len);
}
static std::string num(long long v) { return std::to_string(v); }

// ---------------------------------------------------------------- program surroundings
static int strings_result;
static uint64_t dbg_count[32];
static uint64_t dbg_above;
static unsigned dbg_max;
static bool dbg_verbose_used, dbg_plain_used;
extern "C" int sim_strings_init(const char*, const char*) { return strings_result; }
static void count_debug(unsigned src, unsigned level)
{
	for (unsigned i = 0; i < 32; ++i) { if (src & (1u << i)) { ++dbg_count[i]; } }
	if (level > dbg_max) { dbg_max = level; }
}
// what was reported to the program's debug output, and what it printed for it
struct DbgEv {
	unsigned ts, source, level, type;
	std::string str;
	bool null = false;
	Bytes buf;
	size_t at = 0;             // exchanges with the card begun so far
	bool verbose = false;
	std::string text;
};
static std::vector<DbgEv>* dbg_events;
static const std::vector<model::LinkStep>* dbg_log;
static unsigned dbg_stack;     // 0: leave the stack alone
typedef void (*DbgFn)(unsigned int, enum emv_debug_source_t, enum emv_debug_level_t, enum emv_debug_type_t, const char*, const void*, size_t);
#define DBG_ARGS unsigned int ts, enum emv_debug_source_t source, enum emv_debug_level_t level, enum emv_debug_type_t type, const char* str, const void* buf, size_t len
static void on_debug(DbgFn fn, bool verbose, DBG_ARGS)
{
	count_debug(source, level);
	fflush(stdout);
	prog::divert = true;
	size_t before = prog::dbg.size();
	if (dbg_stack) { stack_fill((uint8_t)dbg_stack); }
	fn(ts, source, level, type, str, buf, len);
	fflush(stdout);
	prog::divert = false;
	if (!dbg_events) { return; }
	DbgEv e{ ts, (unsigned)source, (unsigned)level, (unsigned)type, str ? str : "", !buf, Bytes(), dbg_log ? dbg_log->size() : 0, verbose, prog::dbg.substr(before) };
	if (buf && type == EMV_DEBUG_TYPE_ATR) { const struct iso7816_atr_info_t* a = (const struct iso7816_atr_info_t*)buf; e.buf.assign(a->atr, a->atr + a->atr_len); }
	else if (buf) { e.buf.assign((const uint8_t*)buf, (const uint8_t*)buf + len); }
	dbg_events->push_back(e);
}
extern "C" void sim_print_emv_debug(DBG_ARGS) { dbg_plain_used = true; on_debug(print_emv_debug, false, ts, source, level, type, str, buf, len); }
extern "C" void sim_print_emv_debug_verbose(DBG_ARGS) { dbg_verbose_used = true; on_debug(print_emv_debug_verbose, true, ts, source, level, type, str, buf, len); }

// ---------------------------------------------------------------- world
struct ToolCard : world::EmvCard {
	std::vector<std::pair<int, Bytes>> gpos;
	std::map<int, Bytes> pdol;
	world::Resp handle(const Bytes& c) override
	{
		if (c.size() > 4 && c[1] == 0xA8) { gpos.push_back({ cur, c }); }
		return world::EmvCard::handle(c);
	}
};
struct Party { ToolCard card; world::Link link; int remove_at = -1; int exchanges = 0; };
static std::vector<std::unique_ptr<Party>> parties;

static const Bytes GOOD_ATRS[] = {
	{ 0x3B, 0x60, 0x00, 0x00 }, { 0x3B, 0x65, 0x00, 0x00, 0x20, 0x63, 0xCB, 0x68, 0x00 },
	{ 0x3B, 0xE0, 0x00, 0x00, 0x81, 0x31, 0x20, 0x45, 0x35 }, { 0x3B, 0x6E, 0x00, 0x00, 0x00, 0x31, 0x80, 0x71, 0x86, 0x65, 0x01, 0x67, 0x02, 0xA0, 0xA2, 0x83, 0x90, 0x00 },
};

static world::Terminal tool_terminal(uint8_t type, uint32_t amount, uint32_t other, int64_t sec)
{
	world::Terminal t;
	t.pos_entry = 0x05;
	t.aids = { { { 0xA0, 0, 0, 0, 0x03, 0x10 }, true }, { { 0xA0, 0, 0, 0, 0x03, 0x20, 0x10 }, false }, { { 0xA0, 0, 0, 0, 0x03, 0x20, 0x20 }, false },
		{ { 0xA0, 0, 0, 0, 0x04, 0x10 }, true }, { { 0xA0, 0, 0, 0, 0x04, 0x30 }, true } };
	auto s = [](const char* p) { return Bytes(p, p + strlen(p)); };
	t.config = { { 0x9F01, { 0, 0x01, 0x23, 0x45, 0x67, 0x89 } }, { 0x9F1A, { 0x05, 0x28 } }, { 0x9F1B, { 0, 0, 0x03, 0xE8 } }, { 0x9F16, s("0987654321     ") },
		{ 0x9F1C, s("TID12345") }, { 0x9F1E, s("12345678") }, { 0x9F4E, s("ACME Peanuts") }, { 0x9F33, { 0x20, 0xF8, 0xC8 } }, { 0x9F35, { 0x22 } }, { 0x9F40, { 0xFA, 0, 0xF0, 0xA3, 0xFF } } };
	struct tm tm;
	time_t tt = (time_t)sec;
	localtime_r(&tt, &tm);
	auto bcd = [](unsigned v) { return (uint8_t)(((v / 10) % 10) << 4 | v % 10); };
	auto n6 = [](uint64_t v) { Bytes b(6); for (int i = 5; i >= 0; --i) { b[i] = (uint8_t)(v % 10 | (v / 10 % 10) << 4); v /= 100; } return b; };
	auto b4 = [](uint32_t v) { return Bytes{ (uint8_t)(v >> 24), (uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v }; };
	t.params = { { 0x9F41, { 0, 0, 0, 0x42 } }, { 0x9A, { bcd((unsigned)tm.tm_year % 100), bcd((unsigned)tm.tm_mon + 1), bcd((unsigned)tm.tm_mday) } },
		{ 0x9F21, { bcd((unsigned)tm.tm_hour), bcd((unsigned)tm.tm_min), bcd((unsigned)tm.tm_sec) } }, { 0x5F2A, { 0x09, 0x78 } }, { 0x5F36, { 0x02 } },
		{ 0x9C, { type } }, { 0x9F02, n6(amount) }, { 0x81, b4(amount) }, { 0x9F03, n6(other) }, { 0x9F04, b4(other) } };
	return t;
}

static void add_card(Party* p, Card c)
{
	if (p) {
		p->link.card = &p->card;
		p->link.keep_log = false;
		p->link.on_cap = [](world::Link*) { violation(prop(), "endless", "the exchange with the card does not end"); };
		c.trx = [p](const Bytes& tx, Bytes& rx, size_t cap) {
			if (p->remove_at >= 0 && p->exchanges++ == p->remove_at) {
				fault("card_removed_during_exchange");
				for (size_t i = 0; i < S.readers.size(); ++i) { if (S.readers[i].card >= 0 && S.cards[S.readers[i].card].id == (int)(&*std::find_if(parties.begin(), parties.end(), [&](const std::unique_ptr<Party>& q) { return q.get() == p; }) - &parties[0])) { S.remove((int)i); S.note(); } }
				return false;
			}
			Bytes b(cap ? cap : 1);
			size_t n = cap;
			int r = p->link.trx(tx.data(), tx.size(), b.data(), &n);
			S.sync_clock();
			if (r) { return false; }
			rx.assign(b.begin(), b.begin() + n);
			return true;
		};
		c.power = [p]() { p->card.power_cycle(); p->link.st = world::Link::IDLE; };
	}
	S.cards.push_back(c);
}

static const char* TZS[] = { "UTC", "CET-1CEST,M3.5.0,M10.5.0/3", "NZST-12NZDT,M9.5.0,M4.1.0/3", "XXX+11:30", "IST-5:30", "YYY-14" };
static void set_tz(unsigned i)
{
	static int cur = -1;
	if (cur == (int)i) { return; }
	cur = (int)i;
	setenv("TZ", TZS[i], 1);
	tzset();
}
static int64_t gen_clock()
{
	static const int64_t edge[] = { 0, 946684799, 951782399, 951868799, 1709164799, 1709251199, 1735689599, 2147483647, 4102444799ll, 4107542399ll, 1711846799, 1729990799, 1700000000, 1704067199 };
	switch (pick(3)) {
		case 0: return edge[pick(14)] - (int64_t)pick(4);
		case 1: return (int64_t)pick(49700) * 86400 - (int64_t)pick(3) + 86400;
		default: return (int64_t)pick(4200000000u);
	}
}

// ---------------------------------------------------------------- oracle
static std::vector<std::string> lines_of(const std::string& s)
{
	std::vector<std::string> v;
	size_t p = 0;
	while (p < s.size()) {
		size_t e = s.find('\n', p);
		if (e == std::string::npos) { e = s.size(); }
		v.push_back(s.substr(p, e - p));
		p = e + 1;
	}
	return v;
}
static bool has_line(const std::vector<std::string>& v, const char* l) { return std::find(v.begin(), v.end(), l) != v.end(); }
static std::string os(int r)
{
	switch (r) { case 1: return "Card error"; case 2: return "Card blocked"; case EMV_OUTCOME_NOT_ACCEPTED: return "Not accepted"; case EMV_OUTCOME_TRY_AGAIN: return "Try again"; case EMV_OUTCOME_GPO_NOT_ACCEPTED: return "Not accepted"; }
	return "?";
}
static std::string es(int r) { return r == EMV_ERROR_INTERNAL ? "Internal error" : r == EMV_ERROR_INVALID_PARAMETER ? "Invalid function parameter" : "Unknown error"; }

enum Entry { MUST, MAY, INVALID };
static Entry entry(const std::string& l, bool complete, size_t count, size_t* idx)
{
	bool plain = (l.size() == 1 || l.size() == 2);
	for (char c : l) { if (c < '0' || c > '9') { plain = false; } }
	// what a reader of numbers would understand
	size_t p = 0;
	while (p < l.size() && (l[p] == ' ' || (l[p] >= '\t' && l[p] <= '\r'))) { ++p; }
	bool neg = false;
	if (p < l.size() && (l[p] == '+' || l[p] == '-')) { neg = l[p] == '-'; ++p; }
	if (p >= l.size() || l[p] < '0' || l[p] > '9') { return INVALID; }
	uint64_t v = 0;
	while (p < l.size() && l[p] >= '0' && l[p] <= '9') { v = std::min<uint64_t>(v * 10 + (uint64_t)(l[p] - '0'), 1ull << 50); ++p; }
	if (neg || v < 1 || v > count) { return INVALID; }
	*idx = (size_t)v - 1;
	return plain && complete ? MUST : MAY;
}

static size_t replay_pos;
static bool replay_tolerant, replay_diverged; // (memory shortage may leave out candidates: such a transaction is not judged)
static std::string short_cmd;
static int replay_trx(void* ctx, const void* tx, size_t tx_len, void* rx, size_t* rx_len)
{
	world::Link* l = (world::Link*)ctx;
	Bytes t((const uint8_t*)tx, (const uint8_t*)tx + tx_len);
	if (replay_tolerant && (replay_diverged || replay_pos >= S.xlog.size() || S.xlog[replay_pos].tx != t)) {
		replay_diverged = true;
		model::LinkStep d;
		d.tx = t;
		d.r = -1;
		l->log.push_back(d);
		return -1;
	}
	if (replay_pos >= S.xlog.size()) { violation(prop(), "stopped", "the program ended without sending " + hex(t) + ", which this transaction needs"); }
	const model::LinkStep& s = S.xlog[replay_pos++];
	if (s.tx != t) { violation(prop(), "command", "the program sent " + hex(s.tx) + " where the transaction needs " + hex(t)); }
	l->log.push_back(s);
	if (s.r) { return s.r; }
	if (s.rx.size() > *rx_len) { return -50; }
	if (!s.rx.empty()) { memcpy(rx, s.rx.data(), s.rx.size()); }
	*rx_len = s.rx.size();
	return 0;
}

static std::string quote(const std::vector<std::string>& v)
{
	std::string o = "[";
	for (auto& s : v) { o += (o.size() > 1 ? ", \"" : "\"") + s + "\""; }
	return o + "]";
}

struct Replay { bool success = false; TlvList icc, terminal; std::string candidates; };

static size_t count_menus()
{
	static const std::string head = "\nSelect application:\n";
	size_t n = 0, p = 0;
	while ((p = prog::out.find(head, p)) != std::string::npos) { ++n; p += head.size(); }
	return n;
}
// whether the program asked again after the n-th menu without having tried anything
static bool asked_again(size_t n)
{
	static const std::string head = "\nSelect application:\n";
	size_t p = 0, q;
	for (size_t i = 0; i < n; ++i) { p = prog::out.find(head, p); if (p == std::string::npos) { return false; } p += head.size(); }
	q = prog::out.find(head, p);
	return q != std::string::npos && prog::out.substr(p, q - p).find("OUTCOME: ") == std::string::npos;
}

// what the transaction recorded in S.xlog must lead to
static Replay replay(const world::Terminal& term, const Bytes& input, std::vector<std::string>& outcomes, std::vector<std::string>& menus, bool& more_choice, size_t said)
{
	Replay R;
	Txn t;
	t.term = term;
	world::EmvCard dummy;
	world::LinkCfg cfg;
	t.setup_ctx();
	t.load_params();
	t.ttl.cardreader.trx = &replay_trx;
	t.begin(&dummy, cfg);
	replay_pos = 0;
	std::vector<std::pair<std::string, bool>> in;
	{
		std::string s(input.begin(), input.end());
		size_t p = 0;
		while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) { in.push_back({ s.substr(p), false }); break; } in.push_back({ s.substr(p, e - p), true }); p = e + 1; }
	}
	size_t li = 0;
	auto say = [&](int r) { if (r < 0) { outcomes.push_back("ERROR: " + es(r)); } else if (r > 0) { outcomes.push_back("OUTCOME: " + os(r)); } return r; };
	do {
		if (say(t.build())) { break; }
		bool req = emv_app_list_selection_is_required(&t.list);
		R.candidates = "\nBuild candidate list\nCandidate applications:\n";
		for (const struct emv_app_t* a = t.list.front; a; a = a->next) {
			R.candidates += "Application: " + hex(Bytes(a->aid->value, a->aid->value + a->aid->length)) + ", " + a->display_name;
			if (a->priority) { R.candidates += ", Priority " + num(a->priority); }
			if (a->confirmation_required) { R.candidates += ", Cardholder confirmation required"; }
			R.candidates += "\n";
		}
		if (req) { R.candidates += "Cardholder selection is required\n"; }
		R.candidates += "\nSelect ";
		bool done = false;
		unsigned guard = 0;
		while (!done) {
			if (++guard > 4000) { break; }
			size_t idx = 0;
			if (req) {
				std::string m;
				size_t n = 0;
				for (const struct emv_app_t* a = t.list.front; a; a = a->next) { m += num((long long)++n) + " - " + a->display_name + "\n"; }
				menus.push_back(m);
				if (li >= in.size()) { probe("input_ended"); more_choice = true; break; }
				auto l = in[li++];
				Entry e = entry(l.first, l.second || !prog::in.error_at_end, n, &idx);
				if (e == MAY) {
					const struct emv_app_t* a = t.list.front;
					for (size_t k = 0; k < idx; ++k) { a = a->next; }
					Bytes c = { 0x00, 0xA4, 0x04, 0x00, (uint8_t)a->aid->length };
					c.insert(c.end(), a->aid->value, a->aid->value + a->aid->length);
					c.push_back(0);
					bool next = replay_pos < S.xlog.size() && S.xlog[replay_pos].tx == c;
					e = (next || l.second || said > outcomes.size() || count_menus() > menus.size()) && !asked_again(menus.size()) ? MUST : INVALID;
				}
				if (e == INVALID && !l.second && count_menus() == menus.size()) { probe("incomplete_line_ended"); more_choice = true; break; }
				if (e == INVALID) { probe("choice_invalid"); continue; }
				probe("choice_made");
			}
			int r = say(t.select((unsigned)idx));
			if (r == EMV_OUTCOME_TRY_AGAIN) { probe("tried_again"); continue; }
			if (r) { break; }
			r = say(t.initiate());
			if (r == EMV_OUTCOME_GPO_NOT_ACCEPTED && !emv_app_list_is_empty(&t.list)) { probe("processing_refused_next"); continue; }
			if (r) { break; }
			done = true;
		}
		if (!done) { break; }
		if (say(t.read())) { break; }
		R.success = true;
		R.icc = from_list(t.ctx.icc);
		R.terminal = from_list(t.ctx.terminal);
	} while (0);
	if (replay_tolerant && replay_pos != S.xlog.size()) { replay_diverged = true; }
	else if (replay_pos != S.xlog.size()) { violation(prop(), "extra-command", "the program sent " + hex(S.xlog[replay_pos].tx) + " after the transaction should have ended"); }
	t.clear_all();
	return R;
}

// ---------------------------------------------------------------- P18
// elements the program knows how to describe, with any content
static const uint32_t KNOWN[] = { 0x42, 0x4F, 0x50, 0x56, 0x57, 0x5A, 0x80, 0x81, 0x82, 0x83, 0x84, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C, 0x8D, 0x8E, 0x8F, 0x90, 0x91, 0x92, 0x93, 0x94, 0x95, 0x9A, 0x9B, 0x9C, 0x9D, 0x5F20, 0x5F24, 0x5F25, 0x5F28, 0x5F2A, 0x5F2D, 0x5F30, 0x5F34, 0x5F36, 0x5F50, 0x5F53, 0x5F54, 0x5F55, 0x5F56, 0x5F57, 0x9F01, 0x9F02, 0x9F03, 0x9F04, 0x9F05, 0x9F06, 0x9F07, 0x9F08, 0x9F09, 0x9F0A, 0x9F0B, 0x9F0C, 0x9F0D, 0x9F0E, 0x9F0F, 0x9F10, 0x9F11, 0x9F12, 0x9F13, 0x9F14, 0x9F15, 0x9F16, 0x9F17, 0x9F18, 0x9F19, 0x9F1A, 0x9F1B, 0x9F1C, 0x9F1D, 0x9F1E, 0x9F1F, 0x9F20, 0x9F21, 0x9F22, 0x9F23, 0x9F24, 0x9F25, 0x9F26, 0x9F27, 0x9F32, 0x9F33, 0x9F34, 0x9F35, 0x9F36, 0x9F37, 0x9F38, 0x9F39, 0x9F3A, 0x9F3B, 0x9F3C, 0x9F3D, 0x9F40, 0x9F41, 0x9F42, 0x9F43, 0x9F44, 0x9F45, 0x9F46, 0x9F47, 0x9F48, 0x9F49, 0x9F4A, 0x9F4C, 0x9F4D, 0x9F4E, 0x9F66, 0x9F6C };
static Bytes gen_known()
{
	uint32_t t = KNOWN[pick(sizeof(KNOWN) / sizeof(KNOWN[0]))];
	unsigned n = pick(4) ? pick(9) : pick(40);
	Bytes v;
	switch (pick(5)) {
		case 0: v = rbytes(n); break;
		case 1: for (unsigned i = 0; i < n; ++i) { v.push_back((uint8_t)(pick(10) << 4 | pick(10))); } break;
		case 2: for (unsigned i = 0; i < n; ++i) { v.push_back((uint8_t)(pick(8) ? 32 + pick(95) : pick(256))); } break;
		case 3: v.assign(n, (uint8_t)(pick(2) ? 0xFF : 0x00)); break;
		case 4:
			// list of elements, possibly cut short
			for (unsigned i = 0; i < 1 + n / 3; ++i) {
				uint32_t x = KNOWN[pick(sizeof(KNOWN) / sizeof(KNOWN[0]))];
				if (x > 0xFFFF) { v.push_back((uint8_t)(x >> 16)); }
				if (x > 0xFF) { v.push_back((uint8_t)(x >> 8)); }
				v.push_back((uint8_t)x);
				v.push_back((uint8_t)(pick(3) ? pick(16) : pick(256)));
			}
			if (pick(4) == 3 && !v.empty()) { v.pop_back(); }
			break;
	}
	return world::tlv(t, v);
}
static void enrich(world::EmvCard& c)
{
	for (auto& a : c.apps) {
		for (auto& f : a.files) {
			world::Rec& r = f.second;
			Tlv t;
			TlvList l;
			if (r.sw != 0x9000 || r.data.empty() || r.data[0] != 0x70) { continue; }
			unsigned n = pick(3);
			if (!n) { continue; }
			size_t h = r.data.size() > 1 && r.data[1] == 0x81 ? 3 : 2;
			if (r.data.size() < h || (h == 2 && r.data[1] > 0x7F) || r.data.size() - h != r.data[h - 1]) { continue; }
			Bytes body(r.data.begin() + (long)h, r.data.end());
			for (unsigned i = 0; i < n; ++i) { Bytes e = gen_known(); if (body.size() + e.size() < 240) { world::put(body, e); } }
			r.data = world::tlv(0x70, body);
		}
	}
}

static void gen_world(const world::Terminal& term, bool bad, bool link_faults)
{
	parties.clear();
	unsigned nr = 1 + pick(3);
	if (pick(40) == 39) { nr = 0; }
	for (unsigned i = 0; i < nr; ++i) {
		Reader r;
		r.name = "Reader " + num(i) + std::string(pick(3) * 7, 'x');
		r.features.ok = pick(2);
		if (r.features.ok && pick(2)) {
			// feature list with properties
			uint32_t code = 0x42000000 + 0xD00 + i;
			static const uint8_t f[] = { 0x06, 0x07, 0x08, 0x09 };
			for (uint8_t x : f) { if (pick(2)) { world::put(r.features.data, Bytes{ x, 4, 0x42, 0, 0x10, x }); } }
			world::put(r.features.data, Bytes{ 0x12, 4, (uint8_t)(code >> 24), (uint8_t)(code >> 16), (uint8_t)(code >> 8), (uint8_t)code });
			Answer a;
			static const uint8_t pl[][2] = { { 1, 2 }, { 4, 2 }, { 5, 2 }, { 6, 1 }, { 7, 1 }, { 0x0B, 2 }, { 0x0C, 2 } };
			for (auto& x : pl) { if (pick(2)) { unsigned n = pick(6) == 5 ? pick(6) : x[1]; world::put(a.data, Bytes{ x[0], (uint8_t)n }); world::put(a.data, rbytes(n)); } }
			r.controls[code] = a;
		}
		S.readers.push_back(r);
	}
	unsigned nc = 1 + pick(2);
	for (unsigned i = 0; i < nc; ++i) {
		Card c;
		c.id = (int)i;
		c.protocol = pick(2) ? SCARD_PROTOCOL_T1 : SCARD_PROTOCOL_T0;
		unsigned k = pick(16);
		parties.emplace_back(new Party);
		Party* p = parties.back().get();
		world::Swarm s = world::gen_swarm(bad);
		static_cast<world::EmvCard&>(p->card) = world::gen_card(s, term);
		if (pick(3)) { enrich(p->card); }
		p->link.cfg.segment = pick(2);
		if (link_faults) { p->link.cfg.fault_step = (int)pick(pick(2) ? 8 : 40); p->link.cfg.kinds = pick(2) ? 0xFFFF : 1u << pick(world::F_COUNT); }
		p->link.cfg.step_cap = 5000;
		if (pick(10) == 9) { p->remove_at = (int)pick(20); }
		c.atr = GOOD_ATRS[pick(4)];
		if (k == 15) { c.mute = true; }
		else if (k == 14) { c.atr = Bytes{ 0x3B, 0x80, 0x80, 0x01, 0x01 }; c.contactless = true; c.uid = rbytes(4); }
		else if (k == 13) { c.atr = Bytes{ 0x3B, 0x80, 0x80, 0x01, 0x01 }; c.uid_sw = 0x6A81; }
		else if (k == 12) { c.atr = pick(2) ? rbytes(pick(33)) : GOOD_ATRS[pick(4)]; if (!c.atr.empty()) { c.atr[pick((uint32_t)c.atr.size())] ^= (uint8_t)(1u << pick(8)); } }
		else if (k >= 10) {
			// historical bytes of all kinds
			Bytes h;
			static const uint8_t cat[] = { 0x00, 0x80, 0x80, 0x10 };
			h.push_back(pick(6) == 5 ? (uint8_t)pick(256) : cat[pick(4)]);
			unsigned m = pick(5);
			for (unsigned q = 0; q < m; ++q) { unsigned n = pick(5) == 4 ? pick(16) : pick(5); h.push_back((uint8_t)(pick(16) << 4 | n)); world::put(h, rbytes(n)); }
			if (pick(2)) { world::put(h, rbytes(pick(4))); }
			if (h.size() > 15) { h.resize(15); }
			c.atr = Bytes{ 0x3B, (uint8_t)(0x60 | h.size()), 0x00, 0x00 };
			world::put(c.atr, h);
		}
		add_card(p, c);
	}
}

static Bytes gen_input()
{
	std::string s;
	unsigned n = pick(3) == 2 ? 0 : pick(9);
	for (unsigned i = 0; i < n; ++i) {
		switch (pick(12)) {
			default: s += num(1 + pick(3)); break;
			case 6: s += num(pick(12)); break;
			case 7: s += num(pick(5000)); break;
			case 8: { static const char* w[] = { "", "a", "x1", "-1", "+1", " 1", "1 ", "01", "001", "0001", "1.", "2x", "10000000000000001", "4294967297", "4294967298", "   2", "  1 ", "\t1" }; s += w[pick(18)]; break; }
			case 9: { unsigned k = pick(30); while (k--) { s += (char)('0' + pick(10)); } break; }
			case 10: { unsigned k = pick(12); while (k--) { s += (char)(32 + pick(95)); } break; }
			case 11: s += num(1 + pick(9)) + std::string(pick(3), ' ') + num(1 + pick(9)); break;
		}
		if (i + 1 < n || pick(6)) { s += "\n"; }
	}
	return Bytes(s.begin(), s.end());
}

static void release_checks(int code)
{
	evaluated();
	if (S.open_contexts()) { violation(prop(), "context-left", "the program ended (code " + num(code) + ") with the service context still open"); }
	if (S.open_handles()) { violation(prop(), "card-left", "the program ended with the card still connected"); }
	if (alloc_live()) { violation(prop(), "leak", num((long long)alloc_live()) + " memory blocks not released when the program ended"); }
}

// whether the element is printed with its tag and value
static bool shows(const std::string& text, const Tlv& t)
{
	char h[64];
	snprintf(h, sizeof(h), "%02X", t.tag);
	std::string v = " : [" + num((long long)t.val.size()) + "]";
	for (uint8_t x : t.val) { char q[8]; snprintf(q, sizeof(q), " %02X", x); v += q; }
	size_t p = 0;
	while ((p = text.find(v, p)) != std::string::npos) {
		size_t s = text.rfind('\n', p);
		s = s == std::string::npos ? 0 : s + 1;
		while (s < p && text[s] == ' ') { ++s; }
		if (text.compare(s, strlen(h), h) == 0) { return true; }
		++p;
	}
	return false;
}

// after a successful transaction
static void judge_data(const Replay& R)
{
	size_t a = prog::out.find("\nICC data:\n"), b = prog::out.find("\nTerminal data\n");
	if (a == std::string::npos || b == std::string::npos || b < a) { violation("P18", "data", "the card data is not printed after a successful transaction"); }
	std::string icc = prog::out.substr(a, b - a), ter = prog::out.substr(b);
	for (auto& t : R.icc) { if (!shows(icc, t)) { violation("P18", "data", "card data element " + model::str(TlvList{ t }) + " is not printed"); } }
	for (auto& t : R.terminal) { if (!shows(ter, t)) { violation("P18", "data", "terminal data element " + model::str(TlvList{ t }) + " is not printed"); } }
}

// whether the last thing that the program said is what it was about to do
static bool silent()
{
	static const std::set<std::string> steps = { "Present card", "Card detected", "Card activated", "Build candidate list", "Initiate application processing:", "Read application data", "Select first application:" };
	for (auto& l : lines_of(prog::err)) {
		// (what the library says about service calls and the tables is no report of the program's end)
		if (l.compare(0, 5, "SCard") && l.compare(0, 24, "Failed to load iso-codes")) { return false; }
	}
	std::string last;
	for (auto& l : lines_of(prog::out)) { if (!l.empty()) { last = l; } }
	return last.empty() || steps.count(last) || last.compare(0, 8, "\tState: ") == 0;
}

// ---------------------------------------------------------------- P28
static std::string upper(const Bytes& b) { std::string o; for (uint8_t x : b) { char h[4]; snprintf(h, sizeof(h), "%02X", x); o += h; } return o; }
// what one report must look like
static void judge_text(const DbgEv& e, bool memory_short)
{
	static const std::map<unsigned, const char*> src = { { EMV_DEBUG_SOURCE_TTL, "TTL" }, { EMV_DEBUG_SOURCE_TAL, "TAL" }, { EMV_DEBUG_SOURCE_EMV, "EMV" }, { EMV_DEBUG_SOURCE_APP, "APP" } };
	static const char* lev[] = { "", "ERROR", "INFO", "CARD", "TRACE" };
	auto f = src.find(e.source);
	std::string head = std::string(f == src.end() ? "???" : f->second);
	if (e.verbose) {
		char t[16];
		snprintf(t, sizeof(t), "%010u", e.ts);
		head = std::string(t) + "," + head + "," + (e.level >= 1 && e.level <= 4 ? lev[e.level] : "????");
	}
	head = "[" + head + "] ";
	evaluated();
	if (e.text.compare(0, head.size(), head)) { violation("P28", "origin", "a report is printed as \"" + e.text.substr(0, 200) + "\" instead of beginning with \"" + head + "\""); }
	std::string t = e.text.substr(head.size()), want;
	auto differs = [&](const std::string& w) { violation("P28", "report", "\"" + t.substr(0, 600) + "\" is printed where \"" + w.substr(0, 600) + "\" is due"); };
	switch (e.type) {
		case EMV_DEBUG_TYPE_MSG:
			if (t != e.str + "\n") { differs(e.str); }
			return;
		case EMV_DEBUG_TYPE_DATA: case EMV_DEBUG_TYPE_CTPDU: case EMV_DEBUG_TYPE_RTPDU:
			want = e.str + ": " + (e.null ? "(null)" : upper(e.buf)) + "\n";
			if (t != want) { differs(want); }
			return;
		case EMV_DEBUG_TYPE_CAPDU: case EMV_DEBUG_TYPE_RAPDU: {
			std::string words;
			bool known = true;
			if (e.type == EMV_DEBUG_TYPE_CAPDU) { known = apdu::command(e.buf, words); }
			else if (e.buf.size() >= 2) { known = apdu::status((uint16_t)(e.buf[e.buf.size() - 2] << 8 | e.buf.back()), words); }
			want = e.str + ": " + (e.buf.empty() ? "(null)" : upper(e.buf));
			if (!known) {
				probe("words_not_settled");
				if (t.compare(0, want.size(), want)) { differs(want); }
				return;
			}
			if (!words.empty()) { want += " (" + words + ")"; probe("explained_in_words"); }
			want += "\n";
			if (t != want) { differs(want); }
			return;
		}
		case EMV_DEBUG_TYPE_TLV: {
			want = e.str + ": " + (e.null ? "(null)" : upper(e.buf)) + "\n";
			if (t.compare(0, want.size(), want)) { differs(want); }
			std::vector<lines::Line> l;
			lines::meanings = !alloc_failed();
			bool whole = lines::expect(e.buf.data(), e.buf.size(), l, false);
			std::vector<std::string> got = lines_of(t.substr(want.size()));
			std::string why;
			if (!lines::unclear) {
				size_t n = lines::count_elements(got, why);
				if (n > l.size()) { violation("P28", "tree", "shows " + num((long long)n) + " elements, the last as \"" + why.substr(0, 300) + "\", although " + upper(e.buf).substr(0, 400) + " contains only " + num((long long)l.size())); }
			}
			probe(whole ? "tree_compared" : "tree_of_malformed_data_compared");
			if (!whole && !lines::rest_shown(e.buf.data(), got, why, e.buf.size())) { violation("P28", "tree", "for " + upper(e.buf).substr(0, 400) + " " + why); }
			if (!whole && !l.empty()) { l.pop_back(); }
			if (!lines::shown(l, got, why)) { violation("P28", "tree", "for " + upper(e.buf).substr(0, 400) + " " + why); }
			return;
		}
		case EMV_DEBUG_TYPE_ATR: {
			atr::AtrModel m = atr::atr_model(e.buf);
			if (!m.iso_ok || m.iso_open || memory_short) { return; }
			probe("answer_to_reset_compared");
			std::string why;
			if (!lines::atr_shown(atr::text(m, e.buf), lines_of(t), why)) { violation("P28", "atr", "answer to reset " + upper(e.buf) + ": " + why); }
			return;
		}
	}
}
// the reports against what really happened on the link
static void judge_trace(const std::vector<DbgEv>& evs, const std::vector<model::LinkStep>& log, unsigned mask, unsigned level, bool tpdu, bool memory_short)
{
	for (auto& e : evs) {
		if (!(e.source & mask) || e.level > level) { violation("P28", "unasked", "\"" + e.text.substr(0, 200) + "\" is printed although such reports were not asked for"); }
		judge_text(e, memory_short);
	}
	if (!(mask & EMV_DEBUG_SOURCE_TTL) || level < EMV_DEBUG_CARD) { return; }
	size_t i = 0, start = 0;
	bool open = false, pending = false, answered = false;
	Bytes cmd, resp;
	auto settle = [&]() {
		if (!pending) { return; }
		if (log[i].r == 0 && !log[i].rx.empty()) { violation("P28", "response-missing", "the response " + upper(log[i].rx) + " to " + upper(log[i].tx) + " is not in the trace"); }
		probe("exchange_without_response");
		++i;
		pending = false;
	};
	auto finish = [&]() {
		settle();
		if (!open) { return; }
		open = false;
		if (start == i) {
			if (answered) { violation("P28", "response", "the trace shows the response " + upper(resp) + " to a command that was not sent"); }
			return;
		}
		size_t pos = start;
		int k = model::apdu_case(cmd);
		if (k < 1 || k > 4) { return; }
		model::ExecResult x = model::exec(log, pos, tpdu, cmd, 258);
		if (x.v == model::MISMATCH || x.v == model::AMBIG) { probe("exchange_not_judged"); return; }
		evaluated();
		if (x.v == model::FAIL) { if (answered) { violation("P28", "response", "the trace shows the response " + upper(resp) + " to " + upper(cmd) + " although: " + x.why); } return; }
		Bytes w = x.data;
		w.push_back((uint8_t)(x.sw >> 8));
		w.push_back((uint8_t)x.sw);
		if (!answered) { violation("P28", "response-missing", "the response " + upper(w) + " to the command " + upper(cmd) + " is not in the trace"); }
		if (resp != w) { violation("P28", "response", "the trace shows the response " + upper(resp) + " to " + upper(cmd) + " instead of " + upper(w)); }
		probe("command_and_response_compared");
		if (pos - start > 1) { probe("response_in_several_exchanges"); }
	};
	for (auto& e : evs) {
		switch (e.type) {
			case EMV_DEBUG_TYPE_CAPDU:
				finish();
				open = true; answered = false; start = i; cmd = e.buf;
				if (i < log.size() && e.at > i) { violation("P28", "order", "the command " + upper(cmd) + " is reported after " + num((long long)e.at) + " exchanges instead of " + num((long long)i)); }
				break;
			case EMV_DEBUG_TYPE_CTPDU:
				settle();
				if (!open || answered) { violation("P28", "order", upper(e.buf) + " is shown as sent although no command is in progress"); }
				if (i >= log.size()) { violation("P28", "sent", upper(e.buf) + " is shown as sent although the card received no more"); }
				if (log[i].tx != e.buf) { violation("P28", "sent", upper(e.buf) + " is shown as sent where the card received " + upper(log[i].tx)); }
				if (e.at != i) { violation("P28", "order", upper(e.buf) + " is reported after " + num((long long)e.at) + " exchanges instead of " + num((long long)i)); }
				if (i == start && !tpdu && e.buf != cmd) { violation("P28", "sent", "the command is shown as " + upper(cmd) + " but " + upper(e.buf) + " was sent"); }
				if (i == start && tpdu && (e.buf.size() != 5 || cmd.size() < 4 || !std::equal(e.buf.begin(), e.buf.begin() + 4, cmd.begin()))) { violation("P28", "sent", "the command is shown as " + upper(cmd) + " but " + upper(e.buf) + " was sent"); }
				pending = true;
				break;
			case EMV_DEBUG_TYPE_RTPDU:
				if (!pending) { violation("P28", "order", upper(e.buf) + " is shown as received although nothing was sent"); }
				if (log[i].r || log[i].rx != e.buf) { violation("P28", "received", upper(e.buf) + " is shown as received where the card answered " + (log[i].r ? std::string("nothing") : upper(log[i].rx))); }
				if (e.at != i + 1) { violation("P28", "order", upper(e.buf) + " is reported after " + num((long long)e.at) + " exchanges instead of " + num((long long)i + 1)); }
				++i;
				pending = false;
				evaluated();
				break;
			case EMV_DEBUG_TYPE_RAPDU:
				settle();
				if (!open || answered) { violation("P28", "order", "the response " + upper(e.buf) + " is shown although no command is in progress"); }
				answered = true;
				resp = e.buf;
				break;
		}
	}
	finish();
	if (i < log.size()) { violation("P28", "missing", num((long long)(log.size() - i)) + " exchanges are missing in the trace, the first of them " + upper(log[i].tx)); }
}

struct AnyCard : world::CardIf {
	world::Resp next;
	world::Resp handle(const Bytes&) override { return next; }
};
static Bytes gen_command(bool tpdu)
{
	static const uint8_t clas[] = { 0x00, 0x00, 0x00, 0x80, 0x80, 0x84, 0x01, 0x0C, 0x40 };
	static const uint8_t inss[] = { 0xA4, 0xA4, 0xB2, 0xB2, 0xA8, 0xCA, 0xDA, 0xC0, 0x82, 0x84, 0x88, 0xAE, 0x20, 0xB0, 0x1E, 0x18, 0x16, 0x24, 0xE2, 0xFE, 0xDB, 0xDB, 0xB3, 0xCB };
	Bytes c = { pick(8) ? clas[pick(9)] : (uint8_t)pick(256), pick(4) ? inss[pick(24)] : (uint8_t)(pick(128) * 2), (uint8_t)(pick(2) ? pick(5) : pick(256)), (uint8_t)(pick(2) ? pick(8) : pick(256)) };
	if ((c[1] >> 4) == 6 || (c[1] >> 4) == 9) { c[1] = 0xB2; }
	unsigned kase = 1 + pick(4);
	if (c[1] == 0xA4 && pick(4)) { kase = 4; }
	if (c[1] == 0xB2 && pick(4)) { kase = 2; }
	if (c[1] == 0xB3 && pick(4)) { kase = 4; }
	if ((c[1] == 0xDA || c[1] == 0xDB) && pick(4)) {
		kase = 3;
		if (pick(2)) { static const uint8_t a[] = { 0x00, 0x00, 0x01, 0x02, 0x3F, 0x40 }, b[] = { 0x00, 0x01, 0x1E, 0x1F, 0x20, 0x40, 0xFE, 0xFF }; c[2] = a[pick(6)]; c[3] = b[pick(8)]; }
	}
	if (kase == 2) { c.push_back((uint8_t)(pick(2) ? 0 : pick(256))); }
	if (kase >= 3) {
		size_t n = pick(3) ? 1 + pick(16) : pick(4) == 3 ? 252 + pick(4) : 1 + pick(255);
		Bytes d = rbytes(n);
		if (pick(3) == 2) { for (auto& x : d) { x = (uint8_t)(0x20 + x % 95); } }
		if (pick(4) == 3) { static const uint8_t e[] = { 0x1F, 0x20, 0x7E, 0x7F, 0x80, 0xA0 }; d[pick((uint32_t)d.size())] = e[pick(6)]; }
		if (pick(8) == 7) { d = Bytes{ (uint8_t)(pick(4) ? 0x3F : 0x3E), (uint8_t)(pick(4) ? 0x00 : 0x01) }; if (pick(4) == 3) { d.push_back(0); } if (c[1] == 0xA4 && pick(2)) { c[2] = c[3] = 0; if (pick(3) == 2) { c[2 + pick(2)] = 4; } } }
		c.push_back((uint8_t)d.size());
		world::put(c, d);
	}
	if (kase == 4) { c.push_back(tpdu ? 0x00 : (uint8_t)(pick(2) ? 0 : pick(256))); }
	return c;
}
static Bytes gen_tree(unsigned depth)
{
	Bytes b;
	unsigned n = 1 + pick(depth ? 3 : 4);
	for (unsigned i = 0; i < n; ++i) {
		static const uint32_t con[] = { 0x6F, 0xA5, 0x70, 0x77, 0x61, 0xBF0C, 0x73, 0xE1 };
		if (depth < 5 && pick(3) == 2) { world::put(b, world::tlv(con[pick(8)], pick(6) ? gen_tree(depth + 1) : Bytes())); }
		else { world::put(b, gen_known()); }
		if (b.size() > 600) { break; }
	}
	return b;
}
static DbgFn dbg_fn(bool verbose) { return verbose ? sim_print_emv_debug_verbose : sim_print_emv_debug; }
// descriptions of commands and status words in buffers of any size
static void p28_words()
{
	unsigned n = 1 + pick(8);
	for (unsigned i = 0; i < n; ++i) {
		std::string want;
		Bytes c;
		uint16_t sw = 0;
		bool known, cmd = pick(2);
		if (cmd) {
			c = gen_command(pick(2));
			if (pick(8) == 7) { c[1] = (uint8_t)pick(256); }
			if (pick(10) == 9) { c.resize(1 + pick((uint32_t)c.size())); }
			known = apdu::command(c, want);
		} else {
			static const uint8_t hi[] = { 0x90, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6A, 0x6B, 0x6C, 0x6D, 0x6E, 0x6F };
			sw = (uint16_t)((pick(6) ? hi[pick(16)] : pick(256)) << 8 | (pick(3) == 0 ? (pick(4) ? 0x80 + pick(12) : pick(2) ? 0x7F + pick(2) : 1 + pick(3)) : pick(3) ? 0 : pick(256)));
			known = apdu::status(sw, want);
		}
		size_t len = pick(3) == 0 ? want.size() + pick(4) : pick(3) ? 1 + pick((uint32_t)want.size() + 2) : 1 + pick(1024);
		if (!len) { len = 1; }
		std::unique_ptr<char[]> b(new char[len]);
		memset(b.get(), 0x20 + (int)pick(90), len);
		std::unique_ptr<uint8_t[]> ex(new uint8_t[c.size() + 1]);
		std::unique_ptr<uint8_t[]> exact(new uint8_t[std::max<size_t>(c.size(), 1)]);
		if (!c.empty()) { memcpy(exact.get(), c.data(), c.size()); }
		stack_fill((uint8_t)(0x11 * pick(16)));
		std::string what = cmd ? "command " + hex(c) : "status " + upper(Bytes{ (uint8_t)(sw >> 8), (uint8_t)sw });
		op_begin("describe");
		int r = 0;
		if (cmd) { r = emv_capdu_get_string(exact.get(), c.size(), b.get(), len); }
		else { r = iso7816_sw1sw2_get_string((uint8_t)(sw >> 8), (uint8_t)sw, b.get(), len) ? 0 : 1; }
		op_end();
		evaluated();
		ev(0xE283, cmd ? c.size() > 1 ? c[1] : 0 : sw, len > want.size());
		if (!known) { probe("words_not_settled"); continue; }
		if (want.empty()) { probe("no_words"); if (!r) { violation("P28", "words", what + " has no meaning but is described as \"" + std::string(b.get(), strnlen(b.get(), len)) + "\""); } continue; }
		if (r) { violation("P28", "words", what + " is not described as \"" + want + "\" but refused with " + num(r)); }
		size_t e = strnlen(b.get(), len);
		if (e >= len) { violation("P28", "words", "the description of " + what + " in " + num((long long)len) + " bytes has no end"); }
		std::string got(b.get(), e);
		bool cut = len <= want.size();
		if (cut ? want.compare(0, got.size(), got) != 0 : got != want) { violation("P28", "words", what + " is described in " + num((long long)len) + " bytes as \"" + got + "\" instead of \"" + want + "\""); }
		probe(cut ? "words_cut" : "words_complete");
	}
}
static void p28_direct()
{
	std::vector<DbgEv> evs;
	bool verbose = pick(2);
	dbg_events = &evs;
	dbg_stack = pick(2) ? 0x11 * (1 + pick(15)) : 0;
	prog::reset();
	prog::open_streams();
	struct Off { ~Off() { prog::close_streams(); emv_debug_init(EMV_DEBUG_SOURCE_NONE, EMV_DEBUG_NONE, nullptr); dbg_events = nullptr; dbg_log = nullptr; dbg_stack = 0; } } off;
	unsigned kind = pick(4);
	unsigned level = pick(5) ? 3 + pick(3) : pick(6);
	unsigned mask = pick(4) ? 0xFFFFFFFF : 1 + pick(15);
	alloc_fill((uint8_t)pick(256));
	if (kind == 0) { dbg_events = nullptr; p28_words(); nontrivial(); return; }
	if (kind == 1) {
		// reports of every kind
		unsigned n = 1 + pick(6);
		dbg_log = nullptr;
		// (made by the library, which fills in the text and the time and drops what was not asked for)
		bool made = pick(2);
		struct Clocks { sim::Clock c = clk; int64_t m = mono_us; ~Clocks() { clk = c; mono_us = m; } } clocks;
		if (made) { emv_debug_init(mask, (enum emv_debug_level_t)level, dbg_fn(verbose)); }
		for (unsigned i = 0; i < n; ++i) {
			static const unsigned srcs[] = { 1, 2, 4, 8 };
			unsigned type = 1 + pick(8);
			Bytes d;
			std::string str = pick(6) == 5 ? std::string(pick(400), 'x') + "%s%n" : "Report " + num(i);
			if (type == EMV_DEBUG_TYPE_ATR) { type = EMV_DEBUG_TYPE_TLV; }
			switch (type) {
				case EMV_DEBUG_TYPE_TLV: d = gen_tree(0); if (pick(4) == 3 && !d.empty()) { d.resize(1 + pick((uint32_t)d.size())); } if (pick(6) == 5 && !d.empty()) { d[pick((uint32_t)d.size())] ^= (uint8_t)(1u << pick(8)); } break;
				case EMV_DEBUG_TYPE_CAPDU: d = gen_command(pick(2)); if (pick(8) == 7) { d.resize(pick((uint32_t)d.size())); } break;
				default: d = rbytes(pick(3) ? pick(20) : pick(258)); if (d.size() > 1 && pick(2)) { d[d.size() - 2] = (uint8_t)(0x60 + pick(0x30)); } break;
			}
			std::unique_ptr<uint8_t[]> ex(new uint8_t[d.size() ? d.size() : 1]);
			if (!d.empty()) { memcpy(ex.get(), d.data(), d.size()); }
			unsigned src = srcs[pick(4)], lvl = 1 + pick(4);
			if (made) {
				size_t before = evs.size();
				int64_t number = pick(3) ? (int64_t)pick(1000) : -(int64_t)pick(0x7FFFFFFF);
				if (pick(3) == 2) { str = std::string(pick(580), (char)('a' + pick(26))) + str; }
				clk.sec = 1000000000 + (int64_t)pick(0x7FFFFFFF);
				clk.nsec = pick(4) ? (int64_t)pick(1000000000) : 999999999 - (int64_t)pick(1000);
				if (pick(2)) { mono_us = (int64_t)pick(0x7FFFFFFF) * 1000; }
				std::string want = str + " " + num(number);
				op_begin("print");
				emv_debug_internal((enum emv_debug_source_t)src, (enum emv_debug_level_t)lvl, (enum emv_debug_type_t)type, "%s %lld", ex.get(), d.size(), str.c_str(), (long long)number);
				op_end();
				evaluated();
				bool asked = (src & mask) && lvl <= level;
				if (evs.size() != before + (asked ? 1 : 0)) { violation("P28", asked ? "report-missing" : "unasked", "the report \"" + want.substr(0, 200) + "\" of source " + num(src) + " and level " + num(lvl) + (asked ? " was asked for but is not printed" : " is printed although such reports were not asked for")); }
				if (!asked) { probe("report_not_asked_for"); continue; }
				const DbgEv& e = evs.back();
				if (e.str != want || e.source != src || e.level != lvl || e.type != type || e.buf != d) { violation("P28", "report", "\"" + e.str.substr(0, 600) + "\" (" + num(e.source) + "," + num(e.level) + "," + num(e.type) + ") with " + upper(e.buf).substr(0, 200) + " is printed where \"" + want.substr(0, 600) + "\" (" + num(src) + "," + num(lvl) + "," + num(type) + ") with " + upper(d).substr(0, 200) + " is due"); }
				uint32_t wall = (uint32_t)(clk.sec * 1000000 + clk.nsec / 1000);
				bool now = e.ts - wall <= 1 || (mono_us >= 0 && e.ts - (uint32_t)mono_us <= 1);
				if (!now) { violation("P28", "time", "a report is dated " + num(e.ts) + " us at " + num(wall) + " us"); }
				probe("report_made_by_the_library");
			} else {
				op_begin("print");
				dbg_fn(verbose)((unsigned)(pick(2) ? pick(1000000) : pick(0xFFFFFFFF)), (enum emv_debug_source_t)src, (enum emv_debug_level_t)lvl, (enum emv_debug_type_t)type, str.c_str(), ex.get(), d.size());
				op_end();
			}
			ev(0xE281, type, d.size());
		}
		for (auto& e : evs) { judge_text(e, false); }
		nontrivial();
		return;
	}
	world::LinkCfg cfg;
	cfg.tpdu = pick(2);
	cfg.segment = pick(4) != 0;
	if (pick(2)) {
		cfg.kinds = pick(3) ? 0xFFFF : pick(0xFFFF) + 1;
		if (pick(2)) { cfg.fault_step = (int)pick(pick(2) ? 12 : 48); } else { static const unsigned d[] = { 4, 10, 30, 80 }; cfg.fault_den = d[pick(4)]; }
	}
	if (kind == 2) {
		// commands of every kind
		world::Link link;
		AnyCard card;
		struct emv_ttl_t ttl;
		memset(&ttl, 0, sizeof(ttl));
		link.cfg = cfg;
		link.card = &card;
		link.junk = (uint8_t)pick(256);
		link.on_cap = [](world::Link*) { violation(prop(), "endless", "the exchange with the card does not end"); };
		ttl.cardreader.mode = cfg.tpdu ? EMV_CARDREADER_MODE_TPDU : EMV_CARDREADER_MODE_APDU;
		ttl.cardreader.ctx = &link;
		ttl.cardreader.trx = [](void* ctx, const void* tx, size_t tl, void* rx, size_t* rl) -> int { return ((world::Link*)ctx)->trx(tx, tl, rx, rl); };
		dbg_log = &link.log;
		emv_debug_init(mask, (enum emv_debug_level_t)level, dbg_fn(verbose));
		unsigned n = 1 + pick(8);
		for (unsigned i = 0; i < n; ++i) {
			Bytes c = gen_command(cfg.tpdu);
			if (pick(10) == 9) { c.resize(pick(4) ? c.size() : pick(4)); if (c.empty()) { c.push_back(0); } }
			int k = model::apdu_case(c);
			link.st = world::Link::IDLE;
			link.hint_case = k;
			card.next.data = k == 2 || k == 4 ? rbytes(pick(3) ? pick(40) : pick(257)) : Bytes();
			size_t le = k == 2 ? c[4] : k == 4 ? c.back() : 0;
			if (le && !cfg.segment && card.next.data.size() > le) { card.next.data.resize(le); }
			card.next.sw = pick(3) ? (uint16_t)0x9000 : world::gen_sw();
			if ((card.next.sw >> 8) == 0x61 || (card.next.sw >> 8) == 0x6C) { card.next.sw = 0x9000; }
			std::unique_ptr<uint8_t[]> ex(new uint8_t[c.size()]), out(new uint8_t[258]);
			memcpy(ex.get(), c.data(), c.size());
			size_t rl = 258;
			uint16_t sw = 0;
			trace("command %s", hex(c).c_str());
			op_begin("ttl");
			emv_ttl_trx(&ttl, ex.get(), c.size(), out.get(), &rl, &sw);
			op_end();
		}
		probe(cfg.tpdu ? "character_level_link" : "block_link");
		judge_trace(evs, link.log, mask, level, cfg.tpdu, false);
		if (link.log.size() > 1) { nontrivial(); }
		return;
	}
	// whole transactions over either kind of link
	Txn t;
	t.check = false;
	t.term = tool_terminal(pick(2) ? 0x00 : 0x20, 1 + pick(100000), pick(1000), (int64_t)1700000000);
	world::Swarm s = world::gen_swarm(pick(2));
	world::EmvCard card = world::gen_card(s, t.term);
	if (pick(2)) { enrich(card); }
	t.fill = (uint8_t)pick(256);
	t.setup_ctx();
	t.load_params();
	dbg_log = &t.link.log;
	t.begin(&card, cfg);
	emv_debug_init(mask, (enum emv_debug_level_t)level, dbg_fn(verbose));
	t.full(3, true);
	probe(cfg.tpdu ? "transaction_on_character_level_link" : "transaction_on_block_link");
	judge_trace(evs, t.link.log, mask, level, cfg.tpdu, false);
	if (t.link.log.size() > 1) { nontrivial(); }
	t.clear_all();
}

static void run_p18()
{
	own_everything(true);
	S.reset();
	S.who = "P18";
	prog::reset();
	memset(dbg_count, 0, sizeof(dbg_count));
	dbg_max = 0;
	dbg_plain_used = dbg_verbose_used = false;
	strings_result = pick(8) == 7 ? 1 : 0;
	set_tz(pick(6));
	S.freeze_wall = true;
	S.wall_base = (uint64_t)std::max<int64_t>(gen_clock(), 0) * 1000000;
	S.sync_clock();
	int64_t sec = clk.sec;
	alloc_fill((uint8_t)pick(256));
	uint8_t type = pick(4) == 3 ? 0x20 : 0x00;
	uint32_t amount = 1 + pick(100000), other = 1 + pick(1000);
	world::Terminal term = tool_terminal(type, amount, other, sec);
	bool bad = pick(2), link_faults = pick(4) == 3;
	gen_world(term, bad, link_faults);
	size_t nr = S.readers.size();
	// schedule
	bool unplug = false;
	bool quiet = true;         // a card stays in from the start and nothing disturbs the reader
	if (nr) {
		unsigned k = pick(10);
		int r = (int)pick((uint32_t)nr), c = (int)pick((uint32_t)S.cards.size());
		if (k < 7) { S.insert(r, c); }
		else if (k == 7) { quiet = false; }
		else { quiet = false; S.schedule(pick(pick(2) ? 5200000 : 6000), EV_INSERT, r, c); }
		unsigned ne = pick(4) == 3 ? 1 + pick(3) : 0;
		for (unsigned i = 0; i < ne; ++i) {
			quiet = false;
			uint64_t at = pick(3) ? pick(60000) : pick(6000000);
			int q = (int)pick((uint32_t)nr);
			switch (pick(7)) {
				case 0: S.schedule(at, EV_REMOVE, q); break;
				case 1: S.schedule(at, EV_INSERT, q, pick((uint32_t)S.cards.size())); break;
				case 2: unplug = true; S.schedule(at, EV_UNPLUG, q); if (pick(2)) { S.schedule(at + pick(100000), EV_PLUG, q); } break;
				case 3: S.schedule(at, EV_SPURIOUS, q); break;
				case 4: S.schedule(at, EV_HOLD, q); if (pick(2)) { S.schedule(at + pick(100000), EV_UNHOLD, q); } break;
				case 5: S.schedule(at, EV_SHARE, q); break;
				case 6: S.schedule(at, EV_REMOVE, q); S.schedule(at, EV_INSERT, q, pick((uint32_t)S.cards.size())); break;
			}
		}
	} else { quiet = false; }
	if (pick(3) == 2) { S.latency_den = 1 + pick(4); }
	unsigned fk = pick(10);
	if (fk == 9) { S.fault_den = 8 + pick(60); } else if (fk == 8) { S.fail_call = (int)pick(pick(2) ? 14 : 60); }
	S.set_junk_on_failure = pick(2);
	bool oom = pick(8) == 7;
	S.note();
	// cardholder
	Bytes input = gen_input();
	prog::in.data = input;
	prog::in.error_at_end = pick(6) == 5;
	unsigned style = pick(3);
	prog::in.chunk = [style](size_t n) -> size_t {
		S.advance(S.now + (pick(3) == 2 ? pick(8000000) : pick(50000)));
		if (style == 0) { return n; }
		if (style == 1) { size_t k = 1; const uint8_t* p = &prog::in.data[prog::in.pos]; while (k < n && p[k - 1] != '\n') { ++k; } return k; }
		return 1 + pick(3);
	};
	char tt[8];
	snprintf(tt, sizeof(tt), "%02X", type);
	std::vector<std::string> args = { "emv-tool", "--txn-type", tt, "--txn-amount", num(amount), "--txn-amount-other", num(other) };
	static const char* levels[] = { "NONE", "ERROR", "INFO", "CARD", "TRACE", "ALL" };
	unsigned level = 2;
	unsigned mask = 0xFF;
	bool traced = is_prop("P28");
	if (traced || pick(3) != 2) { level = traced ? pick(6) ? 3 + pick(3) : pick(6) : pick(2) ? 0 : pick(6); args.push_back("--debug-level"); args.push_back(pick(4) == 3 && level == 4 ? "trace" : levels[level]); }
	if (pick(traced ? 6 : 3) == 2) {
		static const char* names[] = { "TTL", "TAL", "EMV", "APP", "ALL" };
		std::string l;
		mask = 0;
		unsigned n = 1 + pick(3);
		for (unsigned i = 0; i < n; ++i) { unsigned k = pick(5); mask |= k == 4 ? 0xFF : 1u << k; l += (i ? "," : "") + std::string(names[k]); }
		args.push_back("--debug-source");
		args.push_back(l);
	}
	bool verbose = pick(4) == 3;
	if (verbose) { args.push_back("--debug-verbose"); }
	bool unknown = !traced && pick(40) == 39;
	if (unknown) {
		static const char* bl[] = { "", "ERR", "TRACES", "7", "NONE,ALL", "CARD ", "-1", "TTL" };
		static const char* bs[] = { "TT", "TTLX", "TTL,FOO", "0", "EMV,APP,ERROR", "ALL ", "NONE", "FOO,ALL" };
		bool l = pick(2);
		args.insert(args.begin() + 1 + (pick(2) ? 0 : (long)args.size() - 1), l ? std::string("--debug-level=") + bl[pick(8)] : std::string("--debug-source=") + bs[pick(8)]);
	}
	for (auto& a : args) { trace("arg %s", a.c_str()); }
	trace("input %s", hex(input).c_str());
	if (oom) { if (pick(3) == 2) { alloc_fail_from(1 + (int)pick(150)); } else { alloc_fail_at(1 + (int)pick(pick(2) ? 60 : 400)); } }

	std::vector<DbgEv> evs;
	if (traced) { dbg_events = &evs; dbg_log = &S.xlog; }
	int code = prog::run(tool_main, args, "tool");
	dbg_events = nullptr;
	dbg_log = nullptr;
	uint64_t failed = alloc_failed();
	alloc_fail_clear();
	if (failed) { fault("allocation_refused", failed); }
	if (tracing()) { trace("exit %d\n%s", code, prog::out.c_str()); if (!prog::err.empty()) { trace("errors:\n%s", prog::err.c_str()); } }
	if (traced) {
		if (tracing()) { trace("debug output:\n%s", prog::dbg.c_str()); }
		ev(0xE282, evs.size(), S.xlog.size());
		if (prog::exited) { return; }
		if (S.xlog.size() > 1) { nontrivial(); }
		if (verbose ? dbg_plain_used : dbg_verbose_used) { violation("P28", "style", "wrong style of reports"); }
		judge_trace(evs, S.xlog, mask, level, false, failed != 0);
		for (auto& e : evs) {
			if (e.type != EMV_DEBUG_TYPE_ATR) { continue; }
			bool ok = false;
			for (auto& h : S.handles) { if (h.second.share != SCARD_SHARE_DIRECT && S.cards[h.second.card].atr == e.buf) { ok = true; } }
			if (!ok) { violation("P28", "atr", "the answer to reset " + upper(e.buf) + " is shown, which no card in use gave"); }
		}
		if (run_index() < 6) { sample(num((long long)evs.size()) + " reports, " + num((long long)S.xlog.size()) + " exchanges"); }
		return;
	}
	ev(0xE417, (uint64_t)code, S.xlog.size() > 5);
	release_checks(code);
	if (unknown) {
		evaluated();
		probe("unknown_debug_option");
		if (failed) { return; }
		if (!prog::exited || S.calls) { violation("P18", "usage", "the program accepts an unknown debug source or level"); }
		return;
	}
	if (prog::exited) { violation("P18", "usage", "the program rejects its arguments: " + prog::err); }
	if (!S.xlog.empty()) { nontrivial(); }

	std::vector<std::string> L = lines_of(prog::out);
	bool activated = has_line(L, "Card activated");
	bool nocard = has_line(L, "No card; exiting");
	uint64_t lf = 0;
	for (auto& p : parties) { lf += p->link.faults; }
	uint32_t ever = 0;
	for (auto& h : S.hist) { ever |= h.second; }
	if (nocard && !S.xlog.empty()) { violation("P18", "no-card", "reports that there is no card after talking to one"); }
	if (!failed && S.faults == 0) {
		if (!nr) { if (activated || nocard) { violation("P18", "no-reader", "without readers the program does not stop at once"); } }
		else if (quiet) {
			int ci = -1;
			for (auto& r : S.readers) { if (r.card >= 0) { ci = r.card; } }
			bool removed = false;
			for (auto& p : parties) { removed |= p->remove_at >= 0; }
			if (nocard) { violation("P18", "no-card", "reports no card although one was in a reader throughout"); }
			if (!removed && ci >= 0 && !S.cards[ci].mute && !activated) { violation("P18", "not-activated", "a card that was in a reader throughout was not activated"); }
		}
		if (nr && !ever && !unplug) {
			if (!nocard) { violation("P18", "no-card", "no card ever appeared but the program does not say so"); }
			if (S.now + 2000 < 5000000) { violation("P18", "early", "stopped waiting for a card after " + num((long long)S.now) + " us"); }
		}
	}
	// result of the transaction
	std::vector<std::string> said;
	for (auto& x : L) {
		// (the answer to the prompt is not echoed)
		std::string l = x;
		if (l.compare(0, 14, "Enter number: ") == 0) { l = l.substr(14); }
		if (l.compare(0, 9, "OUTCOME: ") == 0 || l.compare(0, 7, "ERROR: ") == 0) { said.push_back(l); }
	}
	std::vector<std::string> shown;
	{
		static const std::string head = "\nSelect application:\n", tail = "Enter number: ";
		size_t p = 0;
		while ((p = prog::out.find(head, p)) != std::string::npos) {
			p += head.size();
			size_t e = prog::out.find(tail, p);
			if (e == std::string::npos) { e = prog::out.size(); }
			shown.push_back(prog::out.substr(p, e - p));
			p = e;
		}
	}
	bool deactivated = has_line(L, "Card deactivated");
	bool completed = prog::out.find("\nICC data:\n") != std::string::npos;
	if (level == 0 && !completed && !(prog::exited)) { evaluated(); if (silent()) { violation("P18", "silent", "the program ends without saying what happened"); } }
	if (failed) {
		probe("ended_with_memory_short");
		if (!completed || !activated) { return; }
		probe("completed_with_memory_short");
		std::vector<std::string> want, menus;
		bool choice = false;
		replay_tolerant = true; replay_diverged = false;
		Replay R = replay(term, input, want, menus, choice, said.size());
		replay_tolerant = false;
		if (replay_diverged) { return; }
		evaluated(2);
		probe("completed_with_memory_short_judged");
		if (!R.success) { violation("P18", "outcome", "reports a completed transaction after a memory shortage although the card's answers lead to " + quote(want)); }
		judge_data(R);
		return;
	}
	if (!activated) {
		evaluated();
		probe("not_activated");
		if (!S.xlog.empty()) { violation("P18", "commands", "commands were sent to a card that was not activated"); }
		if (!said.empty() || deactivated) { violation("P18", "outcome", "reports " + quote(said) + " without a card"); }
		return;
	}
	// card in use
	const Card* card = nullptr;
	for (auto& h : S.handles) { if (h.second.share != SCARD_SHARE_DIRECT) { card = &S.cards[h.second.card]; } }
	if (!card) { violation("P18", "activated", "claims that a card is activated although none was connected"); }
	if (card->contactless) {
		probe("contactless_refused");
		if (!S.xlog.empty()) { violation("P18", "contactless", "commands sent to a contactless card"); }
		if (!said.empty()) { violation("P18", "outcome", "reports " + quote(said) + " for a contactless card"); }
		return;
	}
	int ar = emv_atr_parse(card->atr.data(), card->atr.size());
	std::vector<std::string> want, menus;
	bool choice = false;
	Replay R;
	if (ar) {
		probe("atr_refused");
		if (!S.xlog.empty()) { violation("P18", "atr", "commands sent to a card with an unacceptable answer to reset"); }
		if (has_line(L, "Failed to retrieve ATR")) { return; }
		want.push_back(ar < 0 ? "ERROR: " + es(ar) : "OUTCOME: " + os(ar));
	} else {
		R = replay(term, input, want, menus, choice, said.size());
	}
	evaluated(3);
	if (shown != menus) { violation("P18", "menu", "the cardholder was offered " + quote(shown) + " expected " + quote(menus)); }
	if (!R.candidates.empty() && prog::out.find(R.candidates) == std::string::npos) { violation("P18", "candidates", "the candidates are not shown as \"" + R.candidates + "\""); }
	if (said != want) { violation("P18", "outcome", "reports " + quote(said) + " expected " + quote(want)); }
	if (R.success) {
		probe("transaction_completed");
		bool disc = false;
		for (auto& h : S.handles) { if (h.second.share != SCARD_SHARE_DIRECT && h.second.closed) { disc = true; } }
		if (deactivated && !disc) { violation("P18", "deactivated", "claims that the card is deactivated although it is not"); }
		if (!deactivated && S.faults == 0) { violation("P18", "deactivated", "the card was not deactivated after the transaction"); }
		judge_data(R);
	} else if (deactivated && !want.empty()) {
		// (the program may or may not deactivate the card explicitly then)
	}
	// debug output
	if (level == 0 && (dbg_plain_used || dbg_verbose_used)) { violation("P18", "debug", "debug messages although debugging is off"); }
	if (verbose ? dbg_plain_used : dbg_verbose_used) { violation("P18", "debug", "wrong style of debug messages"); }
	for (unsigned i = 0; i < 4; ++i) { if (!(mask & (1u << i)) && dbg_count[i]) { violation("P18", "debug", "debug messages of a source that was not requested"); } }
	if (level >= 3 && (mask & 1) && !S.xlog.empty() && !dbg_count[0]) { violation("P18", "debug", "no debug messages about the exchange with the card although they were requested"); }
	if (run_index() < 6) { sample(num((long long)nr) + " readers, input \"" + hex(input) + "\": " + num((long long)S.xlog.size()) + " exchanges, reported " + quote(said) + (R.success ? ", completed" : "")); }
}

static void run_p28()
{
	own_everything(true);
	if (pick(2)) { p28_direct(); return; }
	run_p18();
}

// ---------------------------------------------------------------- P19
static std::string digits(uint64_t v) { return std::string(pick(6) == 5 ? pick(6) : 0, '0') + num((long long)v); }
struct Opt { std::string text; bool ok; uint64_t v; };
static Opt gen_amount()
{
	static const uint32_t edge[] = { 0, 1, 99, 100, 9999, 65535, 65536, 99999999, 100000000, 999999999, 1000000000, 2147483647, 2147483648u, 4294967295u };
	unsigned k = pick(8);
	if (k == 7) {
		static const char* bad[] = { "", "12a", "4294967296", "99999999999999999999999999", "-1", "+5", " 5", "1.5", "0x10", "-18446744073709551615", "1,00", "five", "5 ", "\t5", "18446744073709551617" };
		return Opt{ bad[pick(15)], false, 0 };
	}
	uint32_t v = k < 3 ? edge[pick(14)] : k < 5 ? pick(100000) : (uint32_t)pick(0xFFFFFFFFu);
	return Opt{ digits(v), true, v };
}
static Opt gen_type()
{
	if (pick(10) == 9) {
		static const char* bad[] = { "", "1", "123", "0x", "1F", "-1", "+1", " 1", "1 ", "ab", "0.", "F0" };
		return Opt{ bad[pick(12)], false, 0 };
	}
	static const uint8_t common[] = { 0x00, 0x01, 0x09, 0x20, 0x30 };
	uint8_t v = pick(4) ? common[pick(5)] : (uint8_t)(pick(10) << 4 | pick(10));
	char t[8];
	snprintf(t, sizeof(t), "%02X", v);
	return Opt{ t, true, v };
}
static void jitter()
{
	if (pick(3) == 0) { return; }
	if (pick(6) == 5) { S.wall_base += (uint64_t)(int64_t)(pick(2) ? -1 : 1) * (uint64_t)pick(3) * 43200000000ull; if ((int64_t)S.wall_base < 0) { S.wall_base = 0; } fault("clock_jump"); }
	S.advance(S.now + pick(1500000));
}

static void run_p19()
{
	own_everything(true);
	S.reset();
	S.who = "P18";
	prog::reset();
	memset(dbg_count, 0, sizeof(dbg_count));
	strings_result = 0;
	set_tz(pick(6));
	S.wall_base = (uint64_t)std::max<int64_t>(gen_clock(), 0) * 1000000 + pick(1000000);
	S.walls.clear();
	S.sync_clock();
	alloc_fill((uint8_t)pick(256));
	// options
	Opt type = gen_type(), amount = gen_amount(), other = gen_amount();
	bool has_type = pick(4) != 0, has_other = pick(4) != 0, has_amount = pick(12) != 0;
	std::vector<std::pair<int, std::string>> o;
	auto add = [&](int which, const char* name, const Opt& v) {
		if (pick(6) == 5 && v.ok) {
			// given twice: the last one counts
			Opt first = which ? gen_amount() : gen_type();
			if (first.ok) { o.push_back({ 0, std::string(name) + "=" + first.text }); }
		}
		o.push_back({ 1, std::string(name) + "=" + v.text });
	};
	if (has_type) { add(0, "--txn-type", type); } else { type = Opt{ "", true, 0 }; }
	if (has_amount) { add(1, "--txn-amount", amount); } else { amount = Opt{ "", true, 0 }; }
	if (has_other) { add(1, "--txn-amount-other", other); } else { other = Opt{ "", true, 0 }; }
	std::vector<std::string> args = { "emv-tool", "--debug-level=" + std::string(pick(4) == 3 ? "ALL" : "NONE") };
	for (auto& x : o) { args.push_back(x.second); }
	bool valid = type.ok && amount.ok && other.ok;
	bool refused = valid && ((type.v != 0x30 && amount.v == 0) || (type.v == 0x09 && other.v == 0));
	for (auto& a : args) { trace("arg %s", a.c_str()); }

	// card that asks for the data
	world::Terminal t0 = tool_terminal(0, 1, 1, 0);
	parties.clear();
	parties.emplace_back(new Party);
	Party* p = parties.back().get();
	p->link.cfg.step_cap = 5000;
	p->link.cfg.segment = pick(2);
	bool simple = pick(3) != 2;
	world::Swarm sw = world::gen_swarm(false);
	static_cast<world::EmvCard&>(p->card) = world::gen_card(sw, t0);
	if (simple || p->card.apps.empty()) {
		simple = true;
		world::EmvCard& c = p->card;
		if (c.apps.empty()) { c.apps.emplace_back(); c.apps[0].gpo = world::Resp{ Bytes{ 0x80, 0x06, 0x00, 0x00, 0x08, 0x01, 0x01, 0x00 }, 0x9000 }; }
		c.apps.resize(1);
		c.apps[0].aid = t0.aids[pick(5)].v;
		c.apps[0].select_sw = 0x9000;
		c.has_pse = false;
		c.pse_sw = 0x6A82;
		c.override_at = -1;
		if (pick(2) && c.apps[0].aid.size() == 6) { c.apps[0].aid.push_back(0x10); }
	}
	static const uint32_t tags[] = { 0x9F02, 0x9A, 0x9F21, 0x9C, 0x9F03, 0x81, 0x9F04, 0x5F2A, 0x5F36, 0x9F41, 0x9F1A, 0x9F33, 0x9F35, 0x9F40, 0x9F1B, 0x9F01, 0x9F16, 0x9F1C, 0x9F1E, 0x9F4E, 0x9F39, 0x9F06, 0x95, 0x9B };
	static const uint8_t lens[] = { 6, 3, 3, 1, 6, 4, 4, 2, 1, 4, 2, 3, 1, 5, 4, 6, 15, 8, 8, 12, 1, 7, 5, 2 };
	for (size_t i = 0; i < p->card.apps.size(); ++i) {
		world::CardApp& a = p->card.apps[i];
		Bytes d;
		unsigned n = 1 + pick(10);
		for (unsigned k = 0; k < n; ++k) {
			unsigned x = pick(3) ? pick(10) : pick(24);
			if (tags[x] > 0xFF) { d.push_back((uint8_t)(tags[x] >> 8)); }
			d.push_back((uint8_t)tags[x]);
			d.push_back(pick(6) == 5 ? (uint8_t)pick(20) : lens[x]);
		}
		p->card.pdol[(int)i] = d;
		Bytes a5 = world::tlv(0x50, Bytes{ 'A', 'P', (uint8_t)('0' + i % 10) });
		world::put(a5, world::tlv(0x9F38, d));
		Bytes v = world::tlv(0x84, a.aid);
		world::put(v, world::tlv(0xA5, a5));
		a.fci = world::tlv(0x6F, v);
	}
	Card c;
	c.id = 0;
	c.protocol = SCARD_PROTOCOL_T1;
	c.atr = GOOD_ATRS[pick(4)];
	add_card(p, c);
	Reader r;
	r.name = "Reader";
	r.features.ok = false;
	S.readers.push_back(r);
	if (pick(2)) { S.insert(0, 0); } else { S.schedule(pick(4900000), EV_INSERT, 0, 0); }
	unsigned nj = pick(4) == 3 ? 1 + pick(2) : 0;
	for (unsigned i = 0; i < nj; ++i) { S.schedule(pick(100000), EV_CLOCK_JUMP, 0, (pick(2) ? 1 : -1) * (int64_t)(1 + pick(400)) * 43200000000ll); }
	if ((int64_t)S.wall_base < 400ll * 43200000000ll * 2) { S.wall_base += 400ull * 43200000000ull * 2; }
	S.walls.clear();
	S.sync_clock();
	S.note();
	if (pick(2)) { S.latency_den = 1 + pick(4); }
	if (pick(8) == 7) { S.fail_call = (int)pick(20); }
	bool oom = pick(6) == 5;
	on_clock = &jitter;
	unsigned n = 1 + pick(3);
	std::string in;
	for (unsigned i = 0; i < n; ++i) { in += num(1 + pick(2)) + "\n"; }
	prog::in.data.assign(in.begin(), in.end());
	prog::in.chunk = [](size_t k) -> size_t { S.advance(S.now + pick(3000000)); return k; };
	if (oom) { if (pick(3) == 2) { alloc_fail_from(1 + (int)pick(80)); } else { alloc_fail_at(1 + (int)pick(80)); } }

	int code = prog::run(tool_main, args, "tool");
	on_clock = nullptr;
	uint64_t failed = alloc_failed();
	alloc_fail_clear();
	if (failed) { fault("allocation_refused", failed); }
	if (tracing()) { trace("exit %d\n%s", code, prog::out.c_str()); if (!prog::err.empty()) { trace("errors:\n%s", prog::err.c_str()); } }
	ev(0xE419, (uint64_t)code, p->card.gpos.size());
	evaluated();
	if (!valid) {
		probe("invalid_option");
		if (!prog::exited && !code) {
			std::string a;
			for (auto& x : args) { a += " '" + x + "'"; }
			violation("P19", "invalid-accepted", "the program accepts" + a);
		}
		if (!S.xlog.empty() || S.calls) { violation("P19", "invalid-transacted", "card access although the arguments are refused"); }
		return;
	}
	if (prog::exited) { std::string a; for (auto& x : args) { a += " '" + x + "'"; } violation("P19", "valid-refused", "the program refuses" + a + ": " + prog::err); }
	if (refused) {
		probe("zero_amount_refused");
		if (!S.xlog.empty()) { violation("P19", "zero-transacted", "a transaction is performed although the program reports that the amount must not be zero"); }
		return;
	}
	// seconds that may count as the start of the transaction
	std::vector<int64_t> secs;
	for (size_t i = 0; i < S.walls.size(); ++i) {
		uint64_t until = i + 1 < S.walls.size() ? S.walls[i + 1].first : S.now;
		if (S.walls[i].first > S.first_exchange || until < S.connected_at) { continue; }
		int64_t s = S.walls[i].second;
		if (!secs.empty() && s > secs.back() && s - secs.back() < 10) { for (int64_t q = secs.back() + 1; q < s; ++q) { secs.push_back(q); } }
		secs.push_back(s);
	}
	for (auto& g : p->card.gpos) {
		nontrivial();
		if (g.first < 0) { continue; }
		evaluated();
		std::vector<model::DolEntry> d;
		if (!model::dol_parse(p->card.pdol[g.first], d)) { continue; }
		TlvList ter = { { 0x9F39, { 0x05 } }, { 0x9F06, p->card.apps[g.first].aid }, { 0x9B, Bytes(2, 0) }, { 0x95, Bytes(5, 0) } };
		bool ok = false;
		Bytes want;
		for (int64_t s : secs) {
			world::Terminal t = tool_terminal((uint8_t)type.v, (uint32_t)amount.v, (uint32_t)other.v, s);
			Bytes v = world::tlv(0x83, model::dol_data(d, { &t.params, &t.config, &ter }));
			want = Bytes{ 0x80, 0xA8, 0x00, 0x00, (uint8_t)v.size() };
			world::put(want, v);
			want.push_back(0x00);
			if (want == g.second) { ok = true; break; }
		}
		probe("processing_options_checked");
		if (secs.size() > 1) { probe("clock_moved_at_start"); }
		if (!ok) {
			violation("P19", "data", "the card asked for " + hex(p->card.pdol[g.first]) + " and received " + hex(g.second) + " expected " + hex(want) + (secs.size() > 1 ? " (or another second at the start of the transaction)" : ""));
		}
	}
	if (!failed && S.faults == 0 && simple && p->card.gpos.empty()) { violation("P19", "not-transacted", "no transaction took place although the card was present and everything worked"); }
	if (run_index() < 6 && !p->card.gpos.empty()) { std::string a; for (auto& x : args) { a += x + " "; } sample(a + "clock " + num(secs.empty() ? 0 : secs[0]) + " " + TZS[0] + ": card asked " + hex(p->card.pdol[p->card.gpos[0].first]) + " received " + hex(p->card.gpos[0].second)); }
}

// ---------------------------------------------------------------- P24
static std::string state_text(uint32_t s)
{
	if (s & SCARD_STATE_UNAVAILABLE) { return "Status unavailable"; }
	if (s & SCARD_STATE_EMPTY) { return "No card"; }
	if (s & SCARD_STATE_PRESENT) { return s & SCARD_STATE_MUTE ? "Unresponsive card" : s & SCARD_STATE_UNPOWERED ? "Unpowered card" : "Card present"; }
	return "Unknown";
}
// features and properties of a reader as its delivered answers declare them
struct Declared { std::set<unsigned> features; bool known = true; std::map<unsigned, Bytes> props; };
static Declared declared(int i)
{
	Declared D;
	auto& del = S.delivered[i];
	auto it = del.find(0);
	if (it == del.end() || !it->second.ok) { return D; }
	const Bytes& l = it->second.data;
	std::map<unsigned, uint32_t> feat;
	if (l.size() % 6) { return D; }
	for (size_t p = 0; p < l.size(); p += 6) {
		if (l[p + 1] != 4) { return D; }
		feat.insert({ l[p], (uint32_t)l[p + 2] << 24 | (uint32_t)l[p + 3] << 16 | (uint32_t)l[p + 4] << 8 | l[p + 5] });
	}
	for (auto& f : feat) { D.features.insert(f.first); }
	auto answer = [&](unsigned tag) -> const Answer* {
		auto f = feat.find(tag);
		if (f == feat.end()) { return nullptr; }
		auto d = del.find(f->second);
		return d == del.end() || !d->second.ok ? nullptr : &d->second;
	};
	const Answer* a = answer(0x0A);
	if (a && a->data.size() == 4) { D.props[1] = Bytes(a->data.begin(), a->data.begin() + 2); }
	a = answer(0x11);
	if (a && a->data.size() == 4) { D.props[4] = Bytes(a->data.begin(), a->data.begin() + 2); D.props[5] = Bytes(a->data.begin() + 2, a->data.end()); }
	a = answer(0x12);
	if (a) {
		std::set<unsigned> seen;
		for (size_t p = 0; p < a->data.size();) {
			const Bytes& b = a->data;
			if (p + 2 > b.size() || p + 2 + b[p + 1] > b.size()) { D.known = false; break; }
			if (seen.insert(b[p]).second) { D.props[b[p]] = Bytes(b.begin() + (long)p + 2, b.begin() + (long)(p + 2 + b[p + 1])); }
			p += 2 + b[p + 1];
		}
	}
	return D;
}
static std::string feature_line(const Declared& D)
{
	static const struct { unsigned f; const char* s; } n[] = { { 0x06, "PIN verification" }, { 0x07, "PIN modification" }, { 0x08, "MCT direct" }, { 0x09, "MCT universal" } };
	std::string l;
	for (auto& x : n) { if (D.features.count(x.f)) { l += (l.empty() ? "" : ", ") + std::string(x.s); } }
	return l.empty() ? "" : "\tFeatures: " + l;
}
static std::string property_line(const Declared& D)
{
	static const unsigned ids[] = { 1, 4, 5, 6, 7, 0x0B, 0x0C };
	bool any = false;
	for (unsigned i : ids) { any |= D.props.count(i) != 0; }
	if (!any) { return ""; }
	std::string l;
	auto add = [&](const std::string& s) { l += (l.empty() ? "" : ", ") + s; };
	auto val = [&](unsigned id, size_t size, bool* there = nullptr) -> unsigned {
		auto p = D.props.find(id);
		if (there) { *there = p != D.props.end() && !p->second.empty() && p->second.size() <= size; }
		if (p == D.props.end() || p->second.size() != size) { return 0; }
		return size == 2 ? p->second[0] | (unsigned)p->second[1] << 8 : p->second[0];
	};
	auto p = D.props.find(1);
	if (p != D.props.end() && p->second.size() == 2) { add(p->second[0] || p->second[1] ? "LCD " + num(p->second[0]) + " x " + num(p->second[1]) : "No LCD"); }
	bool hc, hl;
	unsigned c = val(4, 2, &hc), n = val(5, 2, &hl);
	if (c && n) { add("LCD " + num(c) + " x " + num(n)); } else if (hc || hl) { add("LCD"); }
	unsigned lo = val(6, 1), hi = val(7, 1);
	if (hi) { add("PIN size " + num(lo) + "-" + num(hi)); } else if (lo) { add("PIN size " + num(lo) + "+"); }
	unsigned v = val(0x0B, 2), d = val(0x0C, 2);
	if (v && d) { char t[40]; snprintf(t, sizeof(t), "USB device %04x:%04x", v, d); add(t); }
	return "\tProperties: " + l;
}

static std::string either(const std::set<std::string>& s) { std::string o; for (auto& x : s) { o += (o.empty() ? "\"" : " or \"") + x + "\""; } return o; }
static std::vector<std::pair<size_t, uint64_t>> printed;   // output so far and time at every service call

static void run_p24()
{
	own_everything(true);
	S.reset();
	S.who = "P18";
	prog::reset();
	printed.clear();
	memset(dbg_count, 0, sizeof(dbg_count));
	strings_result = pick(8) == 7 ? 1 : 0;
	set_tz(pick(6));
	S.freeze_wall = true;
	S.wall_base = (uint64_t)std::max<int64_t>(gen_clock(), 0) * 1000000;
	S.sync_clock();
	int64_t sec = clk.sec;
	alloc_fill((uint8_t)pick(256));
	stack_fill((uint8_t)(0x11 * pick(16)));
	static const uint8_t types[] = { 0x00, 0x01, 0x09, 0x20, 0x30 };
	uint8_t type = types[pick(5)];
	uint32_t amount = 1 + pick(100000), other = 1 + pick(1000);
	world::Terminal term = tool_terminal(type, amount, other, sec);
	gen_world(term, false, false);
	size_t nr = S.readers.size();
	bool unplug = false;
	for (size_t i = 0; i < nr; ++i) {
		Reader& r = S.readers[i];
		unsigned k = pick(5);
		if (k == 4) { r.name = num((long long)i); unsigned n = 1 + pick(110); while (n--) { r.name += (char)(33 + pick(94)); } }
		r.features = Answer();
		r.controls.clear();
		gen_answers(r);
		for (auto& c : r.controls) {
			// edge values of the known properties
			if (c.second.data.size() == 4 && pick(4) == 3) { Bytes& b = c.second.data; for (auto& x : b) { if (pick(2)) { x = 0; } } }
			if (pick(2) && c.second.data.size() <= 3) {
				static const uint8_t pl[][2] = { { 1, 2 }, { 4, 2 }, { 5, 2 }, { 6, 1 }, { 7, 1 }, { 0x0B, 2 }, { 0x0C, 2 } };
				Bytes b;
				for (auto& x : pl) { if (pick(2)) { world::put(b, Bytes{ x[0], x[1] }); Bytes v = rbytes(x[1]); for (auto& y : v) { if (pick(3) == 2) { y = (uint8_t)pick(2); } } world::put(b, v); } }
				c.second.data = b;
			}
		}
		r.unpowered = pick(4) == 3;
		r.unavailable = pick(10) == 9;
	}
	if (nr) {
		int r = (int)pick((uint32_t)nr), c = (int)pick((uint32_t)S.cards.size());
		unsigned k = pick(6);
		S.readers[r].unavailable = false;
		if (k < 4) { S.insert(r, c); } else if (k == 4) { S.schedule(pick(pick(2) ? 5200000 : 20000), EV_INSERT, r, c); }
		if (pick(8) == 7 && S.readers[r].card >= 0) { S.readers[r].held = true; }
		unsigned ne = pick(4) == 3 ? 1 + pick(3) : 0;
		for (unsigned i = 0; i < ne; ++i) {
			uint64_t at = pick(3) ? pick(20000) : pick(6000000);
			int q = (int)pick((uint32_t)nr);
			switch (pick(4)) {
				case 0: S.schedule(at, EV_REMOVE, q); break;
				case 1: if (!S.readers[q].unavailable) { S.schedule(at, EV_INSERT, q, pick((uint32_t)S.cards.size())); } break;
				case 2: unplug = true; S.schedule(at, EV_UNPLUG, q); break;
				case 3: S.schedule(at, EV_SPURIOUS, q); break;
			}
		}
	}
	if (pick(2)) { S.latency_den = 1 + pick(4); }
	if (pick(8) == 7) { S.fail_call = (int)pick(pick(2) ? 20 : 60); }
	S.set_junk_on_failure = pick(2);
	bool oom = pick(10) == 9;
	S.note();
	Bytes input = gen_input();
	prog::in.data = input;
	char tt[8];
	snprintf(tt, sizeof(tt), "%02X", type);
	std::vector<std::string> args = { "emv-tool", "--txn-type", tt, "--txn-amount", num(amount), "--txn-amount-other", num(other), "--debug-level", pick(4) == 3 ? "ALL" : "NONE" };
	for (auto& a : args) { trace("arg %s", a.c_str()); }
	if (oom) { if (pick(3) == 2) { alloc_fail_from(1 + (int)pick(60)); } else { alloc_fail_at(1 + (int)pick(60)); } }
	S.on_call = []() { fflush(stdout); printed.push_back({ prog::out.size(), S.now }); };

	int code = prog::run(tool_main, args, "tool");
	S.on_call = nullptr;
	uint64_t failed = alloc_failed();
	alloc_fail_clear();
	if (failed) { fault("allocation_refused", failed); }
	if (tracing()) { trace("exit %d\n%s", code, prog::out.c_str()); if (!prog::err.empty()) { trace("errors:\n%s", prog::err.c_str()); } }
	ev(0xE424, (uint64_t)code, S.xlog.size() > 5);
	const std::string& out = prog::out;
	auto until = [&](size_t pos) { for (auto& p : printed) { if (p.first > pos) { return p.second; } } return S.now; };
	auto states = [&](size_t r, uint64_t to) {
		std::set<std::string> s;
		for (auto& x : S.states) { if (x.first <= to && r < x.second.size()) { s.insert(state_text(x.second[r])); } }
		if (S.faults || failed || unplug) { s.insert("Unknown"); }
		return s;
	};
	static const std::string head = "\nPC/SC readers:\n", tail = "\nPresent card\n";
	size_t a = out.find(head), b = out.find(tail);
	if (a == std::string::npos) {
		evaluated();
		probe("no_list");
		if (nr && !unplug && !failed && S.faults == 0) { violation("P24", "no-list", "the readers are not listed"); }
		if (b != std::string::npos) { violation("P24", "no-list", "the program waits for a card without having listed the readers"); }
		return;
	}
	nontrivial();
	if (b == std::string::npos) { violation("P24", "list", "the list of readers does not end"); }
	std::vector<std::string> L = lines_of(out.substr(a + head.size(), b - a - head.size()));
	while (!L.empty() && L.back().empty()) { L.pop_back(); }
	size_t p = 0, pos = a + head.size();
	auto next = [&]() -> std::string { if (p >= L.size()) { return ""; } pos += L[p].size() + 1; return L[p++]; };
	for (size_t k = 0; k < S.listed.size(); ++k) {
		size_t i = (size_t)S.listed[k];
		evaluated();
		std::string want = "Reader " + num((long long)k) + ": " + S.readers[i].name, got = next();
		if (got != want) { violation("P24", "name", "the list shows \"" + got + "\" where \"" + want + "\" is expected"); }
		Declared D = declared((int)i);
		want = feature_line(D);
		if (!want.empty() || (p < L.size() && L[p].compare(0, 10, "\tFeatures:") == 0)) {
			got = next();
			if (got != want) { violation("P24", "features", "reader " + num((long long)k) + ": the list shows \"" + got + "\" where \"" + want + "\" is expected"); }
			probe("features_listed");
		}
		want = property_line(D);
		bool has = p < L.size() && L[p].compare(0, 12, "\tProperties:") == 0;
		if (!D.known) { if (has) { next(); } }
		else if (!want.empty() || has) {
			got = next();
			if (got != want) { violation("P24", "properties", "reader " + num((long long)k) + ": the list shows \"" + got + "\" where \"" + want + "\" is expected"); }
			probe("properties_listed");
		}
		got = next();
		std::set<std::string> s = states(i, until(pos));
		if (got.compare(0, 8, "\tState: ") || !s.count(got.substr(8))) { violation("P24", "state", "reader " + num((long long)k) + ": the list shows \"" + got + "\" where the state is " + either(s)); }
		if (s.size() > 1) { probe("state_changed_meanwhile"); }
	}
	if (p != L.size()) { violation("P24", "extra", "the list of readers continues with \"" + L[p] + "\""); }
	// card detected
	static const std::string det = "\nCard detected\n";
	size_t d = out.find(det);
	const Handle* h = nullptr;
	for (auto& x : S.handles) { if (x.second.share != SCARD_SHARE_DIRECT) { h = &x.second; } }
	if (h && d == std::string::npos) { violation("P24", "detected", "a card is used without having been announced"); }
	if (d == std::string::npos) { return; }
	evaluated();
	size_t ls = out.rfind('\n', d - 1) + 1;
	std::string got = out.substr(ls, d - ls);
	bool ok = false;
	for (size_t k = 0; k < S.listed.size(); ++k) {
		size_t i = (size_t)S.listed[k];
		std::string w = "Reader " + num((long long)k) + ": " + S.readers[i].name + "; ";
		if (got.compare(0, w.size(), w)) { continue; }
		if (h && h->reader != (int)i) { violation("P24", "detected", "announces \"" + got + "\" but uses reader " + num(h->reader)); }
		std::set<std::string> s = states(i, until(d));
		if (s.count("Unknown")) { s.insert("Unknown state"); }
		ok = s.count(got.substr(w.size())) != 0;
		if (!ok) { violation("P24", "detected", "announces \"" + got + "\" but the state of the reader is " + either(s)); }
	}
	if (!ok) { violation("P24", "detected", "announces \"" + got + "\", which is no reader of the system"); }
	probe("card_announced");
	// terminal data in use
	size_t c1 = out.find("\nTerminal config:\n"), c2 = out.find("\nSupported AIDs:\n"), c3 = out.find("\nTransaction parameters:\n"), c4 = out.find("\nBuild candidate list\n");
	if (S.xlog.empty()) { return; }
	evaluated();
	if (c1 == std::string::npos || c2 == std::string::npos || c3 == std::string::npos || c4 == std::string::npos || c1 > c2 || c2 > c3 || c3 > c4) { violation("P24", "terminal", "the data of the terminal is not shown before the card is used"); }
	TlvList aids;
	for (auto& x : term.aids) { aids.push_back(Tlv{ 0x9F06, x.v }); }
	auto section = [&](const char* name, size_t from, size_t to, const TlvList& want) {
		std::string t = out.substr(from, to - from);
		size_t n = 0, q = 0;
		for (auto& x : want) { if (!shows(t, x)) { violation("P24", "terminal", std::string(name) + " element " + model::str(TlvList{ x }) + " is not shown"); } }
		while ((q = t.find(" : [", q)) != std::string::npos) { ++n; ++q; }
		if (n != want.size()) { violation("P24", "terminal", num((long long)n) + " elements are shown as " + name + ", expected " + num((long long)want.size())); }
	};
	section("configuration", c1, c2, term.config);
	section("supported application", c2, c3, aids);
	section("transaction parameter", c3, c4, term.params);
	probe("terminal_data_shown");
	if (run_index() < 6) { sample(num((long long)nr) + " readers listed as " + quote(L) + "; " + got); }
}

int main(int argc, char** argv)
{
	return main_driver(argc, argv, {
		{ "P18", run_p18, "tool" },
		{ "P28", run_p28, "tool,ttl,describe,print" },
		{ "P19", run_p19, "tool" },
		{ "P24", run_p24, "tool" },
	});
}
