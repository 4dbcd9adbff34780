// Properties P01 to P13: the real transport, terminal-application and kernel
// layers of the library running against a simulated card over a simulated
// reader link.
#include "txn.hpp"
#include <algorithm>
#include <memory>
using namespace sim;
using model::TlvList;

// ================================================================ transport
// One card that answers every command with prepared data
struct RawCard : world::CardIf {
	world::Resp next;
	world::Resp handle(const Bytes&) override { return next; }
};

// exact-size buffer: any access beyond it is an AddressSanitizer report
struct Exact {
	uint8_t* p; size_t n;
	Exact(const Bytes& b) : p((uint8_t*)malloc(b.size() ? b.size() : 1)), n(b.size()) { if (n) { memcpy(p, b.data(), n); } }
	Exact(size_t sz, uint8_t fill) : p((uint8_t*)malloc(sz ? sz : 1)), n(sz) { memset(p, fill, sz ? sz : 1); }
	~Exact() { free(p); }
};

static uint8_t pick_ins()
{
	static const uint8_t t[] = { 0xB2, 0xA4, 0xA8, 0xCA, 0xAE, 0x88, 0x82, 0x20, 0x84, 0xB0, 0xC0, 0xE2, 0x00, 0x3E, 0xFE, 0x0E };
	if (pick(4) != 3) { return t[pick(16)]; }
	uint8_t i = (uint8_t)(pick(128) * 2);
	if ((i >> 4) == 6 || (i >> 4) == 9) { i = 0xB2; }
	return i;
}
static uint16_t pick_final_sw()
{
	unsigned k = pick(8);
	if (k < 3) { return 0x9000; }
	if (k < 5) { return world::gen_sw(); }
	if (k == 5) { return (uint16_t)(0x6200 | pick(256)); }
	if (k == 6) { return (uint16_t)(0x6300 | pick(256)); }
	uint8_t hi = (uint8_t)(pick(2) ? 0x64 + pick(12) : 0x90 + pick(16));
	if (hi == 0x61 || hi == 0x6C) { hi = 0x6A; }
	return (uint16_t)(hi << 8 | pick(256));
}
static size_t pick_len(size_t max)
{
	switch (pick(6)) {
		case 0: return 0;
		case 1: return std::min<size_t>(1 + pick(4), max);
		case 2: return std::min<size_t>(1 + pick(40), max);
		case 3: return max - pick((uint32_t)std::min<size_t>(3, max + 1));
		case 4: { static const size_t e[] = { 127, 128, 253, 254, 255, 256 }; return std::min(e[pick(6)], max); }
		default: return pick((uint32_t)max + 1);
	}
}

struct TtlSession {
	world::Link link;
	RawCard card;
	struct emv_ttl_t ttl;
	uint8_t fill = 0xA5;
	std::string p(const char* q) { return is_prop("P03") && link.faults ? "P03" : q; }

	void init(const world::LinkCfg& cfg)
	{
		memset(&ttl, 0, sizeof(ttl));
		ttl.cardreader.ctx = &link;
		ttl.cardreader.trx = &world::link_trx;
		ttl.cardreader.mode = cfg.tpdu ? EMV_CARDREADER_MODE_TPDU : EMV_CARDREADER_MODE_APDU;
		link.cfg = cfg;
		link.card = &card;
		link.on_cap = [](world::Link*) { if (is_prop("P04")) { violation("P04", "endless", "a single command exchange does not end"); } run_abandon(); };
	}

	void invalid();
	void exchange(bool faulty);
};

void TtlSession::invalid()
{
	// refused without transmitting anything
	size_t before = link.steps;
	uint8_t buf[300], out[300];
	memset(buf, 0x11, sizeof(buf));
	memset(out, 0x22, sizeof(out));
	size_t len = sizeof(out);
	uint16_t sw = 0x1234;
	int r = 0;
	const char* what = "";
	op_begin("ttl");
	switch (pick(20)) {
		case 0: what = "no context"; r = emv_ttl_trx(nullptr, buf, 5, out, &len, &sw); break;
		case 1: what = "no command"; r = emv_ttl_trx(&ttl, nullptr, 5, out, &len, &sw); break;
		case 2: what = "empty command"; r = emv_ttl_trx(&ttl, buf, 0, out, &len, &sw); break;
		case 3: what = "no response buffer"; r = emv_ttl_trx(&ttl, buf, 5, nullptr, &len, &sw); break;
		case 4: what = "no response length"; r = emv_ttl_trx(&ttl, buf, 5, out, nullptr, &sw); break;
		case 5: what = "no status"; r = emv_ttl_trx(&ttl, buf, 5, out, &len, nullptr); break;
		case 6: what = "empty response buffer"; len = 0; r = emv_ttl_trx(&ttl, buf, 5, out, &len, &sw); break;
		case 7: what = "command of 1 to 3 bytes"; { Exact c(Bytes(1 + pick(3), 0x11)); r = emv_ttl_trx(&ttl, c.p, c.n, out, &len, &sw); } break;
		case 8: { what = "command with inconsistent length"; uint8_t lc = (uint8_t)(1 + pick(255)); Bytes c = { 0x00, 0xA4, 0x04, 0x00, lc }; size_t n; do { n = 1 + pick(260); } while (n == lc || n == lc + 1u); c.resize(5 + n, 0x33); Exact e(c); r = emv_ttl_trx(&ttl, e.p, e.n, out, &len, &sw); break; }
		case 9: { what = "extended length command"; Bytes c = { 0x00, 0xA4, 0x04, 0x00, 0x00, 0x00 }; uint8_t n = (uint8_t)pick(8); c.push_back(n); c.resize(7 + (pick(2) ? n : n + 2), 0x33); Exact e(c); r = emv_ttl_trx(&ttl, e.p, e.n, out, &len, &sw); break; }
		case 10: { what = "unknown reader mode"; auto m = ttl.cardreader.mode; ttl.cardreader.mode = (enum emv_cardreader_mode_t)(pick(2) ? 0x55 : 0xFFFF); Bytes c = { 0x00, 0xB2, 0x01, 0x0C, 0x00 }; Exact e(c); r = emv_ttl_trx(&ttl, e.p, e.n, out, &len, &sw); ttl.cardreader.mode = m; break; }
		case 11: { what = "name of 0 to 4 bytes"; len = 256; r = pick(2) ? emv_ttl_select_by_df_name(&ttl, buf, pick(5), out, &len, &sw) : emv_ttl_select_by_df_name_next(&ttl, buf, pick(5), out, &len, &sw); break; }
		case 12: { what = "name of more than 16 bytes"; len = 256; size_t n = 17 + pick(260); r = pick(2) ? emv_ttl_select_by_df_name(&ttl, buf, n, out, &len, &sw) : emv_ttl_select_by_df_name_next(&ttl, buf, n, out, &len, &sw); break; }
		case 13: { what = "file outside 1 to 30"; len = 256; uint8_t sfi = (uint8_t)(pick(3) ? 31 + pick(225) : 0); r = emv_ttl_read_record(&ttl, sfi, 1, out, &len, &sw); break; }
		case 14: { what = "response buffer below 256 bytes"; len = 1 + pick(255); unsigned k = pick(4); uint8_t g[2] = { 0x83, 0 };
			if (k == 0) { r = emv_ttl_select_by_df_name(&ttl, buf, 7, out, &len, &sw); } else if (k == 1) { r = emv_ttl_select_by_df_name_next(&ttl, buf, 7, out, &len, &sw); }
			else if (k == 2) { r = emv_ttl_read_record(&ttl, 1, 1, out, &len, &sw); } else { r = emv_ttl_get_processing_options(&ttl, g, 2, out, &len, &sw); } break; }
		case 15: { what = "processing options data without template"; len = 256; buf[0] = (uint8_t)(0x84 + pick(255)); if (buf[0] == 0x83) { buf[0] = 0x84; } r = emv_ttl_get_processing_options(&ttl, buf, 2 + pick(20), out, &len, &sw); break; }
		case 16: { what = "processing options data of more than 255 bytes"; len = 256; buf[0] = 0x83; r = emv_ttl_get_processing_options(&ttl, buf, 256 + pick(40), out, &len, &sw); break; }
		case 17: { what = "no output"; len = 256; unsigned k = pick(4); if (k == 0) { r = emv_ttl_select_by_df_name(&ttl, buf, 7, nullptr, &len, &sw); } else if (k == 1) { r = emv_ttl_read_record(&ttl, 1, 1, nullptr, &len, &sw); } else if (k == 2) { r = emv_ttl_get_processing_options(&ttl, nullptr, 0, nullptr, &len, &sw); } else { r = emv_ttl_select_by_df_name_next(&ttl, nullptr, 7, out, &len, &sw); } break; }
		case 18: { what = "no output length or status"; len = 256; unsigned k = pick(4); if (k == 0) { r = emv_ttl_select_by_df_name(&ttl, buf, 7, out, nullptr, &sw); } else if (k == 1) { r = emv_ttl_read_record(&ttl, 1, 1, out, nullptr, &sw); } else if (k == 2) { r = emv_ttl_get_processing_options(&ttl, nullptr, 0, out, &len, nullptr); } else { r = emv_ttl_read_record(&ttl, 1, 1, out, &len, nullptr); } break; }
		case 19: { what = "no reader context"; len = 256; unsigned k = pick(4); if (k == 0) { r = emv_ttl_select_by_df_name(nullptr, buf, 7, out, &len, &sw); } else if (k == 1) { r = emv_ttl_read_record(nullptr, 1, 1, out, &len, &sw); } else if (k == 2) { r = emv_ttl_get_processing_options(nullptr, nullptr, 0, out, &len, &sw); } else { r = emv_ttl_select_by_df_name_next(nullptr, buf, 7, out, &len, &sw); } break; }
	}
	op_end();
	probe("invalid_call_refused");
	trace("invalid call: %s -> %d", what, r);
	evaluated();
	if (r == 0) { violation("P02", "accepted-invalid", std::string("call accepted with ") + what); }
	if (link.steps != before) { violation("P02", "sent-invalid", std::string("something was transmitted for a call with ") + what); }
}

void TtlSession::exchange(bool faulty)
{
	link.st = world::Link::IDLE;
	size_t start = link.log.size();
	size_t hstart = link.handled.size();
	uint64_t faults0 = link.faults;
	unsigned kind = pick(8);
	Bytes c;
	Bytes arg;
	int kase;
	size_t cap = 258;
	bool wrapper = kind >= 4;
	switch (kind) {
		case 0: case 1: case 2: case 3: {
			kase = 1 + (int)pick(4);
			uint8_t lc = (uint8_t)(pick(3) ? 1 + pick(20) : pick(4) == 3 ? 254 + pick(2) : 1 + pick(255));
			c = Bytes{ (uint8_t)(pick(3) ? 0x00 : pick(2) ? 0x80 : pick(255)), pick_ins(), (uint8_t)pick(256), (uint8_t)pick(256) };
			if (kase == 2) { c.push_back((uint8_t)(pick(2) ? 0 : pick(256))); }
			if (kase >= 3) { c.push_back(lc); world::put(c, rbytes(lc)); }
			if (kase == 4) { c.push_back(link.cfg.tpdu ? 0x00 : (uint8_t)(pick(2) ? 0 : pick(256))); }
			unsigned k = pick(6);
			cap = k < 3 ? 258 : k == 3 ? 300 + pick(600) : k == 4 ? 2 + pick(20) : 1 + pick(300);
			break;
		}
		case 4: case 5: {
			kase = 4;
			arg = rbytes(5 + pick(12));
			c = Bytes{ 0x00, 0xA4, 0x04, (uint8_t)(kind == 4 ? 0x00 : 0x02), (uint8_t)arg.size() };
			world::put(c, arg);
			c.push_back(0);
			break;
		}
		case 6: {
			kase = 2;
			arg = Bytes{ (uint8_t)(1 + pick(30)), (uint8_t)pick(256) };
			c = Bytes{ 0x00, 0xB2, arg[1], (uint8_t)(arg[0] << 3 | 4), 0x00 };
			break;
		}
		default: {
			kase = 4;
			size_t n = pick(4) == 3 ? 100 + pick(153) : pick(30);
			arg = pick(5) == 4 ? Bytes() : world::tlv(0x83, rbytes(n));
			Bytes d = arg.empty() ? Bytes{ 0x83, 0x00 } : arg;
			c = Bytes{ 0x80, 0xA8, 0x00, 0x00, (uint8_t)d.size() };
			world::put(c, d);
			c.push_back(0);
		}
	}
	link.hint_case = kase;
	size_t rmax = 256;
	if (!wrapper && cap > 300 && link.cfg.segment) { rmax = cap - 2 + pick(20); }
	size_t le = kase == 2 ? c[4] : kase == 4 ? c.back() : 0;
	if (!link.cfg.segment && kase >= 2 && le) { rmax = le; }      // an unsegmented card cannot give more than asked for
	card.next.data = (kase == 2 || kase == 4) ? rbytes(pick_len(rmax)) : Bytes();
	card.next.sw = pick_final_sw();
	if ((card.next.sw >> 8) == 0x61 || (card.next.sw >> 8) == 0x6C) { card.next.sw = 0x9000; }
	if (!link.cfg.tpdu && kase != 1 && kase != 3 && le && card.next.data.size() > le && !link.cfg.segment) { card.next.data.resize(le); }

	Exact cmd(c), a(arg);
	Exact out(wrapper ? 256 : cap, 0xEE);
	size_t rlen = out.n;
	uint16_t sw = 0;
	int r = 0;
	trace("command %s (case %d, room %zu) card answers %s %04X", hex(c).c_str(), kase, cap, hex(card.next.data).c_str(), card.next.sw);
	alloc_fill(fill);
	stack_fill(fill);
	op_begin("ttl");
	switch (kind) {
		case 4: r = emv_ttl_select_by_df_name(&ttl, a.p, a.n, out.p, &rlen, &sw); break;
		case 5: r = emv_ttl_select_by_df_name_next(&ttl, a.p, a.n, out.p, &rlen, &sw); break;
		case 6: r = emv_ttl_read_record(&ttl, arg[0], arg[1], out.p, &rlen, &sw); break;
		case 7: r = emv_ttl_get_processing_options(&ttl, arg.empty() ? nullptr : a.p, a.n, out.p, &rlen, &sw); break;
		default: r = emv_ttl_trx(&ttl, cmd.p, cmd.n, out.p, &rlen, &sw);
	}
	op_end();
	bool hit = link.faults > faults0;
	trace("  returned %d, %zu bytes, status %04X", r, rlen, sw);
	ev(0x77, (uint64_t)kind << 8 | (r == 0), sw >> 8);
	if (!wrapper && cap < 2) {
		// no room for a status: must be refused or fail
		evaluated();
		probe("no_room_for_status");
		if (r == 0) { violation(p("P03"), "no-room", "success although the buffer cannot hold the status"); }
		return;
	}
	// end to end, against the card itself
	auto end_to_end = [&]() {
		bool room = card.next.data.size() + 2 <= cap;
		if (room && r != 0) {
			// only a split whose single piece exceeds the reader buffer may fail
			violation("P01", "end-to-end", "card answered normally but the exchange failed with " + std::to_string(r));
		}
		if (r == 0) {
			Bytes want = card.next.data;
			if (!wrapper) { want.push_back((uint8_t)(card.next.sw >> 8)); want.push_back((uint8_t)card.next.sw); }
			if (Bytes(out.p, out.p + rlen) != want || sw != card.next.sw) { violation("P01", "end-to-end", "response " + hex(out.p, rlen) + " differs from what the card produced: " + hex(want)); }
			probe("end_to_end_checked");
		}
	};
	// what was exchanged
	size_t pos = start;
	model::ExecResult e = model::exec(link.log, pos, link.cfg.tpdu, c, cap);
	if (e.v == model::MISMATCH && is_prop("P01") && !hit && !faulty) { end_to_end(); }
	if (e.v == model::MISMATCH) { violation(p("P02"), "transmission", "command " + hex(c) + ": " + e.why); }
	if (e.v == model::AMBIG) { probe("ambiguous_run"); return; }
	if (pos != link.log.size()) { violation(p("P02"), "extra", "command " + hex(c) + ": additional transmission " + hex(link.log[pos].tx)); }
	evaluated();
	if (e.v == model::FAIL) {
		probe("exchange_failed");
		if (r == 0) { violation(p(hit ? "P03" : "P01"), "false-success", "command " + hex(c) + " reported success although: " + e.why); }
	} else {
		if (r != 0) { violation(p("P01"), "false-failure", "command " + hex(c) + " reported error " + std::to_string(r)); }
		if (e.sw != sw) { char b[64]; snprintf(b, sizeof(b), "status %04X instead of %04X", sw, e.sw); violation(p("P01"), "status", b); }
		Bytes want = e.data;
		if (!wrapper) { want.push_back((uint8_t)(e.sw >> 8)); want.push_back((uint8_t)e.sw); }
		if (rlen > out.n) { violation(p("P03"), "length", "reported response length exceeds the buffer"); }
		Bytes got(out.p, out.p + rlen);
		if (got != want) { violation(p("P01"), "data", "response " + hex(got) + " instead of " + hex(want)); }
		for (size_t i = rlen; i < out.n; ++i) {
			// bytes beyond the response may be scratch, but only inside the buffer (checked by ASan)
			(void)i;
		}
		if (e.steps > 1) { probe("multi_step_exchange"); }
		if (e.steps > 4) { probe("exchange_of_more_than_4_steps"); }
	}
	if (!hit && !faulty) {
		if (link.handled.size() != hstart + 1) { violation("P02", "commands-seen", "the card saw " + std::to_string(link.handled.size() - hstart) + " commands instead of one"); }
		Bytes seen = link.handled.back().capdu;
		if (seen != c) { violation("P02", "command-seen", "the card received " + hex(seen) + " instead of " + hex(c)); }
		end_to_end();
	}
}

static world::LinkCfg gen_link(bool faults)
{
	world::LinkCfg cfg;
	cfg.tpdu = pick(2);
	cfg.segment = pick(4) != 0;
	if (faults) {
		cfg.kinds = pick(3) ? 0xFFFF : pick(0xFFFF) + 1;
		if (pick(2)) { cfg.fault_step = (int)pick(pick(2) ? 12 : 48); }
		else { static const unsigned d[] = { 4, 10, 30, 80 }; cfg.fault_den = d[pick(4)]; }
	}
	return cfg;
}

static void run_ttl(bool faulty)
{
	TtlSession s;
	world::LinkCfg cfg = gen_link(faulty);
	s.init(cfg);
	s.fill = (uint8_t)pick(256);
	s.link.junk = (uint8_t)pick(256);
	unsigned n = 1 + pick(10);
	for (unsigned i = 0; i < n; ++i) {
		if (pick(6) == 5) { s.invalid(); } else { s.exchange(faulty); }
	}
	if (s.link.steps > 1) { nontrivial(); }
	if (run_index() < 3) {
		std::string d = cfg.tpdu ? "character-level link" : "block link";
		d += cfg.segment ? ", segmenting" : ", direct";
		d += ", " + std::to_string(n) + " calls, " + std::to_string(s.link.steps) + " reader steps, " + std::to_string(s.link.faults) + " faults";
		for (size_t i = 0; i < s.link.log.size() && i < 6; ++i) { d += "; " + hex(s.link.log[i].tx) + " -> " + hex(s.link.log[i].rx).substr(0, 60); }
		sample(d);
	}
}
static void run_p01() { run_ttl(false); }
static void run_p02()
{
	run_ttl(pick(4) == 3);
}

// ================================================================ transactions
struct Scene {
	world::Swarm swarm;
	world::Terminal term;
	world::EmvCard card;
	world::LinkCfg cfg;
};
static Scene gen_scene(bool bad, bool faults)
{
	Scene s;
	s.swarm = world::gen_swarm(bad);
	s.term = world::gen_terminal(s.swarm);
	s.card = world::gen_card(s.swarm, s.term);
	s.cfg = gen_link(faults);
	return s;
}
static void describe(const Scene& s, const Txn& t)
{
	if (run_index() >= 3) { return; }
	sample(std::string(s.cfg.tpdu ? "character-level" : "block") + " link; " + world::describe(s.term).substr(0, 300) + "; " + world::describe(s.card).substr(0, 200) +
		"; reader steps " + std::to_string(t.link.steps) + ", faults " + std::to_string(t.link.faults));
}

static void check_conserved(Txn& t, const char* p)
{
	t.clear_all();
	if (alloc_live()) { violation(p, "leak", std::to_string(alloc_live()) + " memory blocks not released after everything was cleared"); }
}

static void one_txn(bool bad, bool faults, bool split = false)
{
	Scene s = gen_scene(bad, faults);
	Txn t;
	t.fill = (uint8_t)pick(256);
	t.term = s.term;
	t.setup_ctx();
	t.load_params();
	trace("%s", world::describe(s.term).c_str());
	trace("%s", world::describe(s.card).c_str());
	t.begin(&s.card, s.cfg);
	if (split) { t.parts(); } else { t.full(6, true); }
	if (t.link.steps > 2) { nontrivial(); }
	describe(s, t);
	check_conserved(t, "P11");
}
static void run_p03() { if (pick(2)) { run_ttl(true); } else { one_txn(pick(3) == 2, true); } }
static void run_stage()
{
	unsigned k = pick(8);
	bool split = !is_prop("P06") && !is_prop("P08") && pick(6) == 5;
	one_txn(k >= 3, k == 2 || k >= 6, split);
}

// P25: data for the card's request lists at every point of a transaction
static void run_p25()
{
	Scene s = gen_scene(pick(3) == 2, pick(4) == 3);
	Txn t;
	t.fill = (uint8_t)pick(256);
	t.term = s.term;
	t.setup_ctx();
	t.load_params();
	t.begin(&s.card, s.cfg);
	t.between = [&t] { t.lists(); };
	t.lists();
	t.full(3, true);
	t.lists();
	nontrivial();
	describe(s, t);
	check_conserved(t, "P11");
}

static void run_p27()
{
	Scene s = gen_scene(pick(3) == 2, pick(4) == 3);
	Txn t;
	t.fill = (uint8_t)pick(256);
	t.term = s.term;
	t.setup_ctx();
	t.load_params();
	t.begin(&s.card, s.cfg);
	t.between = [&t] { t.texts(); };
	t.texts();
	t.full(3, true);
	t.texts();
	nontrivial();
	describe(s, t);
	check_conserved(t, "P11");
}

// P04 --------------------------------------------------------------------
// Endless cards: at some point of the session the card starts to behave so
// that a terminal without limits would never finish.
struct EndlessCard : world::EmvCard {
	unsigned mode = 0;
	int from = 0;
	world::Resp handle(const Bytes& c) override
	{
		bool on = cmd_no >= from;
		if (on && mode == 1 && c[1] == 0xB2 && cur == -1) { ++cmd_no; return world::Resp{ dir.empty() ? Bytes{ 0x70, 0x00 } : dir[c[2] % dir.size()].data, 0x9000 }; }
		if (on && mode == 2 && c[1] == 0xB2 && cur == -1) { ++cmd_no; return world::Resp{ {}, 0x6A86 }; }
		if (on && mode == 3 && c[1] == 0xA4 && c[3] == 0x02 && !apps.empty()) { ++cmd_no; cur = 0; return world::Resp{ apps[0].fci, 0x9000 }; }
		if (on && mode == 4 && c[1] == 0xA4 && c[3] == 0x02 && !apps.empty()) { ++cmd_no; cur = 0; return world::Resp{ apps[0].fci, 0x6283 }; }
		if (on && mode == 5 && c[1] == 0xB2) { ++cmd_no; return world::Resp{ { 0x70, 0x00 }, 0x9000 }; }
		return EmvCard::handle(c);
	}
};

static void run_p04()
{
	unsigned what = pick(10);
	if (what < 3) {
		// arbitrary protocol level behaviour for single exchanges
		TtlSession s;
		world::LinkCfg cfg;
		cfg.tpdu = pick(2);
		cfg.segment = true;
		cfg.step_cap = 20000;
		s.init(cfg);
		s.link.keep_log = false;
		unsigned period = 1 + pick(3);
		std::vector<unsigned> pat;
		for (unsigned i = 0; i < period; ++i) { pat.push_back(pick(10)); }
		uint8_t v = (uint8_t)(pick(2) ? 0 : 1 + pick(255));
		unsigned n = 0;
		bool vary = pick(3) == 2;
		s.link.adversary = [&](const Bytes& tx) -> Bytes {
			uint8_t ins = tx.size() >= 2 ? tx[1] : 0xA4;
			unsigned k = vary ? pick(10) : pat[n++ % period];
			Bytes d;
			switch (k) {
				case 0: return Bytes{ 0x61, v };
				case 1: return Bytes{ 0x6C, v };
				case 2: return Bytes{ ins };
				case 3: return Bytes{ (uint8_t)~ins };
				case 4: return Bytes{ 0x62, v };
				case 5: return Bytes{ 0x63, 0x00 };
				case 6: if (cfg.tpdu) { d.push_back(ins); } d.push_back(0x5A); d.push_back(0x61); d.push_back(v); return d;
				case 7: if (cfg.tpdu) { d.push_back(ins); } d.push_back(0x61); d.push_back(v); return d;
				case 8: if (cfg.tpdu) { d.push_back(ins); } d.push_back(0x5A); d.push_back(0x6C); d.push_back(v); return d;
				default: return Bytes{ 0x60 };
			}
		};
		unsigned c = pick(3);
		uint8_t out[700];
		size_t len = pick(2) ? sizeof(out) : 258;
		uint16_t sw;
		Bytes name = rbytes(5 + pick(12));
		uint8_t rr[5] = { 0x00, 0xB2, 0x01, 0x0C, 0x00 };
		op_begin("ttl");
		if (c == 0) { emv_ttl_select_by_df_name(&s.ttl, name.data(), name.size(), out, &len, &sw); }
		else if (c == 1) { emv_ttl_trx(&s.ttl, rr, 5, out, &len, &sw); }
		else { emv_ttl_get_processing_options(&s.ttl, nullptr, 0, out, &len, &sw); }
		op_end();
		evaluated();
		if (s.link.steps > 3) { nontrivial(); probe("repetitive_exchange"); }
		if (s.link.steps > 20) { probe("more_than_20_steps_in_one_exchange"); }
		if (run_index() < 3) { sample("adversarial answers pattern of period " + std::to_string(period) + (vary ? " (random)" : "") + ", ended after " + std::to_string(s.link.steps) + " steps"); }
		return;
	}
	world::Swarm sw = world::gen_swarm(pick(4) == 3);
	if (what < 8) { sw.maxapps = std::max(1u, sw.maxapps); }
	world::Terminal term = world::gen_terminal(sw);
	EndlessCard card;
	static_cast<world::EmvCard&>(card) = world::gen_card(sw, term);
	card.mode = 1 + pick(6);
	card.from = pick(2) ? 0 : (int)pick(6);
	if (card.mode >= 3 && card.mode <= 4) {
		card.has_pse = false;
		if (!term.aids.empty() && !card.apps.empty()) {
			// one more name that this card matches partially, for ever
			term.aids[0].partial = true;
			world::CardApp& a = card.apps[0];
			a.aid = term.aids[0].v;
			a.aid.push_back(0x77);
			world::Swarm good = sw;
			good.malformed = 0;
			a.fci = world::gen_fci(good, a.aid);
			a.select_sw = 0x9000;
		}
	}
	if (card.mode == 5) {
		// the longest possible locator
		for (auto& a : card.apps) {
			Bytes v = { 0x00, 0x00 };
			unsigned n = 1 + pick(3);
			if (pick(40) == 39) { n = 62; }
			for (unsigned i = 0; i < n; ++i) { world::put(v, Bytes{ (uint8_t)((1 + pick(30)) << 3), (uint8_t)(1 + pick(3)), 0xFF, 0x00 }); }
			a.gpo = world::Resp{ world::tlv(0x80, v), 0x9000 };
			a.select_sw = 0x9000;
		}
	}
	Txn t;
	t.check = false;
	t.term = term;
	t.fill = (uint8_t)pick(256);
	t.setup_ctx();
	t.load_params();
	world::LinkCfg cfg;
	cfg.tpdu = pick(2);
	cfg.step_cap = 200000;
	t.begin(&card, cfg);
	t.link.keep_log = false;
	int at = -1;
	unsigned pat[2] = { pick(5), pick(5) };
	if (what >= 7) {
		// from some reader call on, the link-level behaviour is endless too
		at = (int)pick(30);
		uint8_t v = (uint8_t)pick(256);
		world::Link* l = &t.link;
		t.link.adversary = [=](const Bytes& tx) -> Bytes {
			uint8_t ins = 0;
			if ((int)l->steps - 1 < at) { return l->protocol(tx, ins); }
			ins = tx.size() >= 2 ? tx[1] : 0;
			switch (pat[l->steps & 1]) {
				case 0: return Bytes{ 0x61, v };
				case 1: return Bytes{ 0x6C, v };
				case 2: return Bytes{ (uint8_t)~ins };
				case 3: return Bytes{ 0x62, v };
				default: { Bytes d; if (l->cfg.tpdu) { d.push_back(ins); } d.push_back(1); d.push_back(0x61); d.push_back(v); return d; }
			}
		};
		fault("endless_link_behaviour");
	} else {
		fault("endless_card_behaviour");
	}
	t.full(3);
	evaluated();
	if (t.link.steps > 200) { probe("long_session"); }
	if (t.link.steps > 4) { nontrivial(); }
	if (run_index() < 3) { sample("endless card mode " + std::to_string(card.mode) + ", link change at " + std::to_string(at) + ": session ended after " + std::to_string(t.link.steps) + " reader calls"); }
	t.clear_all();
}

// P11 --------------------------------------------------------------------
static void add_log(Snapshot& s, const world::Link& l)
{
	for (auto& x : l.log) { s.lines.push_back("x " + hex(x.tx) + " " + std::to_string(x.r) + " " + hex(x.rx)); }
}
static std::string diff(const Snapshot& a, const Snapshot& b)
{
	for (size_t i = 0; i < std::max(a.lines.size(), b.lines.size()); ++i) {
		std::string x = i < a.lines.size() ? a.lines[i] : "(nothing)", y = i < b.lines.size() ? b.lines[i] : "(nothing)";
		if (x != y) { return "\"" + x.substr(0, 1500) + "\" versus \"" + y.substr(0, 1500) + "\""; }
	}
	return "";
}
static void check_reset(Txn& t)
{
	op_begin("reset");
	int r = emv_ctx_reset(&t.ctx);
	op_end();
	t.have_sel = false;
	evaluated();
	if (r) { violation("P11", "reset", "reset of a context failed"); }
	if (!from_list(t.ctx.params).empty() || !from_list(t.ctx.icc).empty() || !from_list(t.ctx.terminal).empty() || t.ctx.selected_app) { violation("P11", "reset", "transaction data left after reset"); }
	TlvList want, got = from_list(t.ctx.config);
	if (got != t.term.config) { violation("P11", "config", "configuration after reset is " + model::str(got)); }
	got = from_list(t.ctx.supported_aids);
	for (auto& a : t.term.aids) { want.push_back(model::Tlv{ 0x9F06, a.v }); }
	if (got != want) { violation("P11", "config", "supported applications after reset are " + model::str(got)); }
	if (t.ctx.ttl != &t.ttl) { violation("P11", "config", "transport lost by reset"); }
}

// the transaction whose result must not depend on the past
static void target(Txn& t, world::EmvCard card, const world::LinkCfg& cfg, bool compare)
{
	t.check = compare;
	t.ambiguous = false;
	t.snap.lines.clear();
	t.load_params();
	t.begin(&card, cfg);
	t.have_sel = false;
	t.sel_moved = false;
	t.full();
	add_log(t.snap, t.link);
	TlvList l = from_list(t.ctx.params);
	t.snap.lines.push_back("params " + model::str(l));
	t.snap.lines.push_back("config " + model::str(from_list(t.ctx.config)));
	t.card = nullptr;
}

static void run_p11()
{
	Scene s = gen_scene(pick(3) == 2, pick(3) == 2);
	static const uint8_t fills[] = { 0x00, 0xFF, 0xA5, 0x70, 0x9F };
	Txn a, b;
	a.fill = fills[pick(5)];
	a.term = s.term;
	b.term = s.term;
	b.fill = fills[pick(5)];
	bool two = pick(4) == 3;
	a.setup_ctx();
	if (two) { b.setup_ctx(); }
	// history
	unsigned episodes = 1 + pick(4);
	unsigned nops = 0;
	for (unsigned e = 0; e < episodes; ++e) {
		world::Swarm sw = world::gen_swarm(pick(2));
		world::EmvCard other = pick(3) == 0 ? s.card : world::gen_card(sw, s.term);
		Txn& t = two && pick(2) ? b : a;
		t.check = false;
		if (pick(8) != 7) { t.load_params(); }
		t.begin(&other, gen_link(pick(2)));
		if (pick(3) == 0) {
			t.full();
			probe("history_complete_session");
			++nops;
		} else {
			unsigned n = 1 + pick(7);
			for (unsigned i = 0; i < n; ++i) {
				++nops;
				switch (pick(9)) {
					case 0: case 1: t.build(); break;
					case 2: case 3: { size_t k = 0; for (auto* x = t.list.front; x; x = x->next) { ++k; } t.select(k ? pick((uint32_t)k + (pick(6) == 5)) : pick(2)); break; }
					case 4: case 5: t.initiate(); probe("history_initiate_any_state"); break;
					case 6: t.read(); break;
					case 7: t.clear_list(); break;
					case 8: check_reset(t); if (pick(2)) { t.load_params(); } break;
				}
			}
		}
		// end of session: sometimes neatly, sometimes abandoned
		if (pick(3) != 2) { t.clear_list(); }
		check_reset(t);
		t.card = nullptr;
	}
	a.clear_list();
	check_reset(a);
	if (two) { b.clear_list(); check_reset(b); }
	// target on the used context
	size_t mark = choice_mark();
	target(a, s.card, s.cfg, false);
	size_t end = choice_mark();
	Snapshot used = a.snap;
	check_reset(a);
	a.clear_list();
	// same on a new context with different memory contents
	choice_seek(mark);
	Txn f;
	f.term = s.term;
	f.fill = (uint8_t)(a.fill ^ 0xFF);
	f.setup_ctx();
	target(f, s.card, s.cfg, false);
	size_t end2 = choice_mark();
	evaluated();
	if (!(used == f.snap)) { violation("P11", "history", "result on a used context differs from a new one: " + diff(used, f.snap)); }
	if (end != end2) { violation("P11", "history", "course on a used context differs from a new one"); }
	// and what the model says
	nontrivial();
	probe("histories_compared");
	f.clear_all();
	a.clear_all();
	if (two) { b.clear_all(); }
	if (alloc_live()) { violation("P11", "leak", std::to_string(alloc_live()) + " memory blocks not released after everything was cleared"); }
	if (run_index() < 3) { sample(std::to_string(episodes) + " earlier sessions with " + std::to_string(nops) + " operations" + (two ? " on two contexts" : "") + ", then: " + world::describe(s.card).substr(0, 200) + ", " + std::to_string(used.lines.size()) + " observations equal"); }
}

// P12 --------------------------------------------------------------------
static void run_p12()
{
	Scene s = gen_scene(pick(6) == 5, false);
	uint8_t fill = (uint8_t)pick(256);
	// baseline
	size_t mark = choice_mark();
	std::vector<std::string> universe;
	uint64_t total;
	Snapshot base;
	{
		Txn t;
		t.fill = fill;
		t.term = s.term;
		t.setup_ctx();
		uint64_t c0 = alloc_count();
		target(t, s.card, s.cfg, true);
		total = alloc_count() - c0;
		base = t.snap;
		if (t.ambiguous) { run_abandon(); }
		t.clear_all();
	}
	size_t end = choice_end();
	// every application the card could legitimately contribute
	{
		for (int pse = 0; pse < 2; ++pse) {
			Txn t;
			t.check = false;
			t.term = s.term;
			t.setup_ctx();
			world::EmvCard c = s.card;
			c.override_at = -1;
			if (pse == 0) { c.has_pse = false; c.pse_sw = 0x6A82; }
			world::LinkCfg cfg;
			t.begin(&c, cfg);
			t.build();
			for (auto* x = t.list.front; x; x = x->next) { universe.push_back(app_str(x)); }
			t.clear_all();
		}
	}
	if (alloc_live()) { violation("P11", "leak", "leak without failures"); }
	choice_seek(end);
	// with failures
	unsigned where = pick(8);
	int64_t k = 1 + pick((uint32_t)std::min<uint64_t>(total ? total : 1, 4000));
	bool from = pick(3) == 2;
	Txn t;
	t.fill = fill;
	t.term = s.term;
	t.oom = true;
	t.universe = &universe;
	size_t oom_mark = choice_mark();
	(void)oom_mark;
	bool ready = true;
	if (where == 7) {
		// during set-up
		uint64_t n = s.term.config.size() * 2 + s.term.aids.size() * 2;
		int64_t kk = 1 + pick((uint32_t)(n ? n : 1));
		if (from) { alloc_fail_from(kk); } else { alloc_fail_at(kk); }
		t.setup_ctx();
		alloc_fail_clear();
		ready = !t.setup_failed;
		if (alloc_failed() && ready) { violation("P12", "silent", "adding configuration data reported success although memory ran out"); }
		probe("failure_during_setup");
	} else {
		t.setup_ctx();
	}
	if (ready) {
		if (from) { alloc_fail_from(k); } else { alloc_fail_at(k); }
		if (pick(4) == 3 && !from) { alloc_fail_from(0); }
		t.begin(&s.card, s.cfg);
		t.load_params();
		if (t.setup_failed) { probe("failure_during_parameters"); }
		else { t.full(4); }
		alloc_fail_clear();
	}
	bool failed = alloc_failed() > 0;
	evaluated();
	if (failed) { nontrivial(); }
	uint64_t nfail = alloc_failed();
	// the context can be cleared ...
	bool reuse = pick(2);
	if (!reuse || !ready) {
		t.clear_all();
		if (alloc_live()) { violation("P12", "leak", std::to_string(alloc_live()) + " memory blocks lost after memory ran out"); }
	} else {
		// ... or used again with the normal result
		t.clear_list();
		op_begin("reset");
		emv_ctx_reset(&t.ctx);
		op_end();
		t.oom = false;
		size_t here = choice_mark();
		choice_seek(mark);
		target(t, s.card, s.cfg, false);
		if (!(t.snap == base)) { violation("P12", "after", "transaction after a memory shortage differs: " + diff(base, t.snap)); }
		probe("reused_after_failure");
		choice_seek(here);
		t.clear_all();
		if (alloc_live()) { violation("P12", "leak", std::to_string(alloc_live()) + " memory blocks lost after memory ran out"); }
	}
	if (run_index() < 3) { sample("allocation " + std::to_string(k) + (from ? " and all following" : "") + " of " + std::to_string(total) + " failing (" + std::to_string(nfail) + " failures), then " + (reuse ? "reuse" : "clear") + "; " + world::describe(s.card).substr(0, 150)); }
}

// P13 --------------------------------------------------------------------
struct DebugEvent { unsigned src, level, type; std::string str; Bytes buf; bool operator==(const DebugEvent& o) const { return src == o.src && level == o.level && type == o.type && str == o.str && buf == o.buf; } };
static std::vector<DebugEvent>* events;
static unsigned clock_mode;
static uint64_t event_count;
static std::string debug_problem;

static void jump_clock()
{
	// the clock does what it likes between events
	switch (clock_mode) {
		case 0: break;
		case 1: clk.sec += (int64_t)(event_count * 977 % 4000) - 2000; break;
		case 2: clk.sec = (int64_t)(event_count * 2654435761u % 4294967296u); clk.nsec = (int64_t)(event_count * 7919 % 1000000000); break;
		case 3: clk.nsec = 999999999; clk.sec = 4294; break;
		case 4: clk.sec = -(int64_t)(event_count % 50); break;
	}
}
static void on_debug(unsigned ts, enum emv_debug_source_t src, enum emv_debug_level_t level, enum emv_debug_type_t type, const char* str, const void* buf, size_t len)
{
	++event_count;
	std::string m(str ? str : "(null)");
	// addresses are not comparable between executions
	if (m.find("0x") != std::string::npos || m.find("=(nil)") != std::string::npos) { m = m.substr(0, m.find('=')); }
	Bytes b;
	if (buf && type != EMV_DEBUG_TYPE_ATR) { b.assign((const uint8_t*)buf, (const uint8_t*)buf + len); }
	if (events) { events->push_back(DebugEvent{ (unsigned)src, (unsigned)level, (unsigned)type, m, b }); }
	if (!clk.fail) {
		uint32_t want = (uint32_t)((uint64_t)clk.sec * 1000000u + (uint64_t)(clk.nsec / 1000));
		if (ts != want && debug_problem.empty()) { debug_problem = "event \"" + m + "\" carries time " + std::to_string(ts) + " instead of " + std::to_string(want); }
	}
	jump_clock();
}

static void one_debug_pass(const Scene& s, Snapshot& snap, unsigned mask, unsigned level, bool func, std::vector<DebugEvent>& out, unsigned cmode, uint8_t fill)
{
	out.clear();
	events = &out;
	event_count = 0;
	clock_mode = cmode == 5 ? 0 : cmode;
	clk.sec = 1700000000; clk.nsec = 123456789; clk.fail = cmode == 5;
	Txn t;
	t.term = s.term;
	t.fill = fill;
	emv_debug_init(mask, (enum emv_debug_level_t)level, func ? &on_debug : nullptr);
	t.setup_ctx();
	target(t, s.card, s.cfg, false);
	// calls with invalid arguments have messages of their own
	op_begin("select");
	int r = emv_select_application(&t.ctx, &t.list, 99);
	r = r * 31 + emv_build_candidate_list(&t.ctx, nullptr);
	r = r * 31 + emv_build_candidate_list(nullptr, &t.list);
	r = r * 31 + emv_select_application(nullptr, &t.list, 0);
	r = r * 31 + emv_initiate_application_processing(nullptr, 5);
	r = r * 31 + emv_read_application_data(nullptr);
	r = r * 31 + emv_initiate_application_processing(&t.ctx, 5);
	op_end();
	t.snap.lines.push_back("invalid calls " + std::to_string(r));
	op_begin("atr");
	Bytes atr = { 0x3B, 0x00 };
	r = emv_atr_parse(atr.data(), atr.size());
	atr = Bytes{ 0x3B, 0x80, 0x01 };
	r = r * 31 + emv_atr_parse(atr.data(), atr.size());
	op_end();
	t.snap.lines.push_back("atr " + std::to_string(r));
	snap = t.snap;
	t.clear_all();
	emv_debug_init(0, EMV_DEBUG_NONE, nullptr);
	events = nullptr;
	clk.fail = false;
}

static void run_p13()
{
	Scene s = gen_scene(pick(2), pick(2));
	unsigned cmode[3] = { pick(6), pick(6), pick(6) };
	static const unsigned masks[] = { 1, 2, 4, 8, 0, 3, 5, 9, 6, 10, 12, 7, 14, 15, 0xFF, 0xF0 };
	unsigned mask = masks[pick(16)];
	if (pick(3) == 2) { mask = pick(256); }
	unsigned level = pick(6);
	bool func = pick(6) != 5;
	uint8_t fill = (uint8_t)pick(256);
	size_t mark = choice_mark();
	std::vector<DebugEvent> none, all, some;
	Snapshot a, b, c;
	debug_problem.clear();
	one_debug_pass(s, a, 0, 0, false, none, cmode[0], fill);
	size_t e1 = choice_mark();
	choice_seek(mark);
	one_debug_pass(s, b, 0xFF, EMV_DEBUG_ALL, true, all, cmode[1], fill);
	size_t e2 = choice_mark();
	choice_seek(mark);
	one_debug_pass(s, c, mask, level, func, some, cmode[2], (uint8_t)~fill);
	size_t e3 = choice_mark();
	evaluated();
	if (!none.empty()) { violation("P13", "events-when-off", std::to_string(none.size()) + " events delivered with debugging off"); }
	if (!(a == b) || e1 != e2) { violation("P13", "changed", "results with full debugging differ from without: " + diff(a, b)); }
	if (!(a == c) || e1 != e3) { violation("P13", "changed", "results with some debugging differ from without: " + diff(a, c)); }
	if (!debug_problem.empty()) { violation("P13", "time", debug_problem); }
	if (all.size() < 3) { violation("P13", "missing", "full debugging delivered only " + std::to_string(all.size()) + " events"); }
	std::vector<DebugEvent> want;
	if (func) { for (auto& x : all) { if ((x.src & mask) && x.level <= level) { want.push_back(x); } } }
	for (size_t i = 0; i < std::max(want.size(), some.size()); ++i) {
		if (i >= want.size()) { violation("P13", "filter", "event of source " + std::to_string(some[i].src) + " level " + std::to_string(some[i].level) + " delivered although sources are " + std::to_string(mask) + " level " + std::to_string(level) + ": " + some[i].str); }
		if (i >= some.size()) { violation("P13", "filter", "event of source " + std::to_string(want[i].src) + " level " + std::to_string(want[i].level) + " missing (sources " + std::to_string(mask) + " level " + std::to_string(level) + "): " + want[i].str); }
		if (!(want[i] == some[i])) { violation("P13", "filter", "event differs with sources " + std::to_string(mask) + " level " + std::to_string(level) + ": \"" + some[i].str + "\" " + hex(some[i].buf) + " versus \"" + want[i].str + "\" " + hex(want[i].buf)); }
	}
	// card exchanges are reported as they happened
	std::vector<std::string> tx, rx;
	for (auto& x : all) {
		if (x.type == EMV_DEBUG_TYPE_CTPDU) { tx.push_back(hex(x.buf)); }
		if (x.type == EMV_DEBUG_TYPE_RTPDU) { rx.push_back(hex(x.buf)); }
	}
	std::vector<std::string> ltx, lrx;
	for (auto& l : b.lines) {
		if (l.compare(0, 2, "x ") == 0) {
			size_t p = l.find(' ', 2), q = l.find(' ', p + 1);
			ltx.push_back(l.substr(2, p - 2));
			if (l.substr(p + 1, q - p - 1) == "0" && q + 1 < l.size()) { lrx.push_back(l.substr(q + 1)); }
		}
	}
	if (tx != ltx || rx != lrx) { violation("P13", "exchange-log", "reported card exchanges differ from those that took place"); }
	for (unsigned i = 0; i < 3; ++i) { static const char* n[] = { "clock_normal", "clock_back_and_forth", "clock_random", "clock_wrap", "clock_negative", "clock_failing" }; if (cmode[i]) { fault(n[cmode[i]]); } }
	nontrivial();
	probe("debug_events_compared", some.size());
	if (run_index() < 3) { sample("sources " + std::to_string(mask) + " level " + std::to_string(level) + ", clock modes " + std::to_string(cmode[0]) + std::to_string(cmode[1]) + std::to_string(cmode[2]) + ", " + std::to_string(all.size()) + " events in full, " + std::to_string(some.size()) + " after filtering; " + world::describe(s.card).substr(0, 150)); }
}

// P22 --------------------------------------------------------------------
static std::vector<std::vector<DebugEvent>> task_events;
static void on_task_debug(unsigned, enum emv_debug_source_t src, enum emv_debug_level_t level, enum emv_debug_type_t type, const char* str, const void* buf, size_t len)
{
	seam();
	std::string m(str ? str : "(null)");
	if (m.find("0x") != std::string::npos || m.find("=(nil)") != std::string::npos) { m = m.substr(0, m.find('=')); }
	Bytes b;
	if (buf && type != EMV_DEBUG_TYPE_ATR) { b.assign((const uint8_t*)buf, (const uint8_t*)buf + len); }
	task_events[current_task()].push_back(DebugEvent{ (unsigned)src, (unsigned)level, (unsigned)type, m, b });
	seam();
}
static void run_p22()
{
	unsigned n = 2 + (pick(4) == 3);
	std::vector<Scene> scenes;
	std::vector<int64_t> fail(n, 0);
	std::vector<bool> all(n, false);
	bool same = pick(4) == 3;
	for (unsigned i = 0; i < n; ++i) {
		scenes.push_back(i && same ? scenes[0] : gen_scene(pick(4) == 3, pick(3) == 2));
		if (i && same && pick(2)) { scenes[i].cfg = gen_link(pick(2)); }
	}
	if (pick(4) == 3) { unsigned i = pick(n); fail[i] = 1 + pick(300); all[i] = pick(2); }
	bool debug = pick(4) != 3;
	bool twice = pick(4) == 3;
	std::vector<Snapshot> alone(n), together(n);
	std::vector<std::vector<DebugEvent>> alone_events;
	std::vector<Task> tasks;
	bool phase2 = false;
	auto body = [&](unsigned i) {
		static const uint8_t fills[] = { 0xA5, 0x00, 0xFF };
		Txn t;
		t.check = false;
		t.fill = fills[i];
		t.term = scenes[i].term;
		t.oom = fail[i] != 0;
		t.setup_ctx();
		if (fail[i]) { if (all[i]) { alloc_fail_from(fail[i]); } else { alloc_fail_at(fail[i]); } }
		if (!t.setup_failed) { target(t, scenes[i].card, scenes[i].cfg, false); }
		if (twice) {
			t.clear_list();
			op_begin("reset");
			emv_ctx_reset(&t.ctx);
			op_end();
			Snapshot first = t.snap;
			if (!t.setup_failed) { target(t, scenes[i].card, scenes[i].cfg, false); }
			first.lines.insert(first.lines.end(), t.snap.lines.begin(), t.snap.lines.end());
			t.snap = first;
		}
		alloc_fail_clear();
		(phase2 ? together : alone)[i] = t.snap;
		t.clear_all();
	};
	if (debug) { emv_debug_init(EMV_DEBUG_SOURCE_ALL, EMV_DEBUG_ALL, &on_task_debug); }
	else { emv_debug_init(0, EMV_DEBUG_NONE, nullptr); }
	task_events.assign(n, {});
	alone_events.assign(n, {});
	for (unsigned i = 0; i < n; ++i) {
		size_t from = choice_mark();
		task_events.assign(4, {});
		alloc_reset();
		trace("[alone %u]", i);
		body(i);
		alone_events[i] = task_events[0];
		if (alloc_live()) { violation("P11", "leak", "leak in a single transaction"); }
		tasks.push_back(Task{ [&body, i] { body(i); }, from, choice_mark() });
	}
	std::vector<size_t> ends;
	for (auto& t : tasks) { ends.push_back(t.end); }
	// all at once
	own_everything(true);
	phase2 = true;
	alloc_reset();
	task_events.assign(4, {});
	run_tasks(tasks, pick(4));
	emv_debug_init(0, EMV_DEBUG_NONE, nullptr);
	evaluated(n);
	for (unsigned i = 0; i < n; ++i) {
		if (!(alone[i] == together[i])) { violation("P22", "influenced", "transaction " + std::to_string(i + 1) + " of " + std::to_string(n) + " differs from the same transaction alone: " + diff(alone[i], together[i])); }
		if (tasks[i].end != ends[i]) { violation("P22", "influenced", "the course of transaction " + std::to_string(i + 1) + " differs from the same transaction alone"); }
		if (!(alone_events[i] == task_events[i])) { violation("P22", "events", "debug events of transaction " + std::to_string(i + 1) + " differ from the same transaction alone"); }
	}
	if (alloc_live()) { violation("P22", "leak", std::to_string(alloc_live()) + " memory blocks not released after everything was cleared"); }
	own_everything(false);
	if (task_switches() > n) { nontrivial(); }
	probe("task_switches", task_switches());
	if (n > 2) { probe("three_transactions_at_once"); }
	if (debug) { probe("switching_at_debug_events"); }
	if (run_index() < 3) { sample(std::to_string(n) + " transactions, " + std::to_string(task_switches()) + " switches; first card: " + world::describe(scenes[0].card).substr(0, 150)); }
}

// P23 --------------------------------------------------------------------
struct Elem { uint32_t tag; Bytes val; uint8_t flags; bool operator==(const Elem& o) const { return tag == o.tag && val == o.val && flags == o.flags; } };
struct HeldApp { struct emv_app_t* p; std::string text; unsigned prio; bool conf; };
struct Lists {
	static const unsigned NL = 3, NA = 2;
	struct emv_tlv_list_t l[NL];
	struct emv_app_list_t a[NA];
	std::vector<Elem> ml[NL];
	std::vector<HeldApp> ma[NA];
	std::vector<std::pair<struct emv_tlv_t*, Elem>> held;
	std::vector<HeldApp> apps;
};
static std::string es(const Elem& e) { return model::str(TlvList{ model::Tlv{ e.tag, e.val } }) + "/" + std::to_string(e.flags); }
static bool read_list(const struct emv_tlv_list_t& l, std::vector<Elem>& out)
{
	const struct emv_tlv_t* last = nullptr;
	for (const struct emv_tlv_t* t = l.front; t; t = t->next) {
		out.push_back(Elem{ t->tag, t->length ? Bytes(t->value, t->value + t->length) : Bytes(), t->flags });
		last = t;
		if (out.size() > 5000) { return false; }
	}
	return last == l.back;
}
static void lists_check(const Lists& w, const std::string& op)
{
	for (unsigned i = 0; i < Lists::NL; ++i) {
		std::vector<Elem> got;
		bool ok = read_list(w.l[i], got);
		if (!ok || got != w.ml[i]) {
			std::string g, m;
			for (auto& e : got) { g += es(e) + " "; }
			for (auto& e : w.ml[i]) { m += es(e) + " "; }
			violation("P23", "list", "after " + op + " list " + std::to_string(i) + " holds " + g + (ok ? "" : "(inconsistent)") + " instead of " + m);
		}
	}
	for (unsigned i = 0; i < Lists::NA; ++i) {
		size_t k = 0;
		const struct emv_app_t* last = nullptr;
		for (const struct emv_app_t* a = w.a[i].front; a; a = a->next) {
			if (k >= w.ma[i].size() || a != w.ma[i][k].p) { violation("P23", "apps", "after " + op + " application list " + std::to_string(i) + " has another application at place " + std::to_string(k) + " of " + std::to_string(w.ma[i].size())); }
			if (app_str(a) != w.ma[i][k].text) { violation("P23", "apps", "after " + op + " an application changed to " + app_str(a) + " from " + w.ma[i][k].text); }
			last = a;
			++k;
		}
		if (k != w.ma[i].size()) { violation("P23", "apps", "after " + op + " application list " + std::to_string(i) + " holds " + std::to_string(k) + " applications instead of " + std::to_string(w.ma[i].size())); }
		if (last != w.a[i].back) { violation("P23", "apps", "after " + op + " the end of application list " + std::to_string(i) + " is wrong"); }
	}
	for (auto& h : w.held) {
		Elem e{ h.first->tag, h.first->length ? Bytes(h.first->value, h.first->value + h.first->length) : Bytes(), h.first->flags };
		if (!(e == h.second) || h.first->next) { violation("P23", "held", "after " + op + " an element taken from a list is " + es(e) + " instead of " + es(h.second)); }
	}
	for (auto& h : w.apps) { if (app_str(h.p) != h.text || h.p->next) { violation("P23", "held", "after " + op + " an application taken from a list changed"); } }
}
static void run_p23()
{
	static const uint32_t tags[] = { 0x5A, 0x57, 0x9F02, 0x50, 0x9F12, 0x87, 0x4F, 0xDF8101, 0x82, 0x94, 0xC2 };
	Lists w;
	for (auto& l : w.l) { l.front = l.back = nullptr; }
	for (auto& a : w.a) { a.front = a.back = nullptr; }
	world::Swarm sw = world::gen_swarm(pick(2));
	world::Terminal term = world::gen_terminal(sw);
	unsigned fail_den = pick(3) == 2 ? 2 + pick(10) : 0;
	unsigned nt = 1 + pick(11);
	unsigned n = 1 + pick(pick(4) == 3 ? 120 : 25);
	uint8_t fill = (uint8_t)pick(256);
	alloc_fill(fill);
	unsigned nops = 0, nfail = 0;
	for (unsigned k = 0; k < n; ++k) {
		unsigned i = pick(Lists::NL), j = pick(Lists::NL);
		struct emv_tlv_list_t* l = &w.l[i];
		std::vector<Elem>& m = w.ml[i];
		bool failing = fail_den && pick(fail_den) == fail_den - 1;
		uint64_t f0 = alloc_failed();
		if (failing) { int64_t at = 1 + pick(6); if (pick(2)) { alloc_fail_from(at); } else { alloc_fail_at(at); } }
		std::string op;
		unsigned what = pick(20);
		stack_fill(fill);
		op_begin("lists");
		switch (what) {
			case 0: case 1: case 2: {
				Elem e{ tags[pick(nt)], rbytes(pick(6) == 5 ? 0 : 1 + pick(pick(8) == 7 ? 200 : 12)), (uint8_t)pick(3) };
				op = "adding " + es(e);
				Bytes scratch = e.val;
				scratch.resize(scratch.size() + 1);
				int r = emv_tlv_list_push(l, e.tag, (unsigned)e.val.size(), scratch.data(), e.flags);
				for (auto& b : scratch) { b = 0xEE; }
				bool hit = alloc_failed() > f0;
				if (!r && hit) { violation("P23", "result", op + " reported success although memory ran out"); }
				if (r && !hit) { violation("P23", "result", op + " failed"); }
				if (!r) { m.push_back(e); }
				break;
			}
			case 3: case 4: {
				op = "taking the first element";
				struct emv_tlv_t* t = emv_tlv_list_pop(l);
				if (!t != m.empty()) { violation("P23", "result", op + (t ? " gave one from an empty list" : " gave nothing")); }
				if (t) { w.held.push_back({ t, m.front() }); m.erase(m.begin()); }
				break;
			}
			case 5: case 6: {
				uint32_t tag = tags[pick(11)];
				op = "searching";
				const struct emv_tlv_t* t = pick(2) ? emv_tlv_list_find(l, tag) : emv_tlv_list_find_const(l, tag);
				const struct emv_tlv_t* want = nullptr;
				for (const struct emv_tlv_t* x = l->front; x; x = x->next) { if (x->tag == tag) { want = x; break; } }
				if (t != want) { violation("P23", "find", "search for a tag did not give its first element"); }
				break;
			}
			case 7: {
				op = "looking for duplicates";
				bool want = false;
				for (size_t x = 0; x < m.size(); ++x) { for (size_t y = x + 1; y < m.size(); ++y) { want |= m[x].tag == m[y].tag; } }
				if (emv_tlv_list_has_duplicate(l) != want) { violation("P23", "duplicate", std::string("duplicates reported as ") + (want ? "absent" : "present")); }
				break;
			}
			case 8: case 9: {
				if (i == j) { break; }
				op = "appending list " + std::to_string(j) + " to list " + std::to_string(i);
				if (emv_tlv_list_append(l, &w.l[j])) { violation("P23", "result", op + " failed"); }
				m.insert(m.end(), w.ml[j].begin(), w.ml[j].end());
				w.ml[j].clear();
				probe("lists_appended");
				break;
			}
			case 10: {
				if (pick(2)) { break; }
				op = "clearing";
				emv_tlv_list_clear(l);
				m.clear();
				break;
			}
			case 11: case 12: {
				Bytes d = world::gen_structure(sw);
				op = "parsing " + hex(d);
				TlvList out;
				bool amb = false;
				int want = model::parse(d.data(), d.size(), out, amb);
				if (amb || d.empty()) { break; }
				// exactly sized, so that reading beyond it is noticed
				std::unique_ptr<uint8_t[]> x(new uint8_t[d.size()]);
				memcpy(x.get(), d.data(), d.size());
				int r = emv_tlv_parse(x.get(), d.size(), l);
				x.reset();
				bool hit = alloc_failed() > f0;
				if (!hit && (r != 0) != (want != 0)) { violation("P23", "parse", op + (r ? " failed" : " succeeded")); }
				if (!hit && r < 0) { violation("P23", "parse", op + " reported an internal error"); }
				if (hit && r >= 0) { violation("P23", "parse", op + " did not report that memory ran out"); }
				std::vector<Elem> got;
				read_list(*l, got);
				if (got.size() < m.size() || got.size() > m.size() + out.size() || (!r && got.size() != m.size() + out.size())) { violation("P23", "parse", op + " left " + std::to_string(got.size()) + " elements after " + std::to_string(m.size())); }
				for (size_t q = m.size(), o = 0; q < got.size(); ++o, ++q) { m.push_back(Elem{ out[o].tag, out[o].val, 0 }); }
				probe(r ? "list_parse_failed" : "list_parsed");
				break;
			}
			case 13: {
				op = "asking for emptiness";
				if (emv_tlv_list_is_empty(l) != m.empty() || emv_app_list_is_empty(&w.a[0]) != w.ma[0].empty()) { violation("P23", "result", "emptiness reported wrongly"); }
				break;
			}
			case 14: {
				op = "releasing";
				if (m.size() > 1 && pick(3) == 2) {
					op = "releasing an element that is still in a list";
					if (emv_tlv_free(l->front) <= 0) { violation("P23", "result", op + " was not refused"); }
					probe("release_refused");
				} else if (!w.held.empty()) {
					size_t h = pick((uint32_t)w.held.size());
					if (emv_tlv_free(w.held[h].first)) { violation("P23", "result", "releasing an element failed"); }
					w.held.erase(w.held.begin() + h);
				}
				break;
			}
			default: {
				unsigned ai = pick(Lists::NA);
				struct emv_app_list_t* al = &w.a[ai];
				std::vector<HeldApp>& am = w.ma[ai];
				unsigned q = pick(10);
				if (q < 4) {
					Bytes d;
					bool fci = pick(2), amb = false;
					model::App e;
					bool want;
					if (fci) { d = world::gen_structure_fci(sw); want = model::app_from_fci(d.data(), d.size(), e, amb); }
					else { d = world::gen_structure_entry(sw); want = model::app_from_entry({}, d.data(), d.size(), e, amb); }
					if (amb || d.empty()) { break; }
					op = "creating an application from " + hex(d);
					std::unique_ptr<uint8_t[]> x(new uint8_t[d.size()]);
					memcpy(x.get(), d.data(), d.size());
					struct emv_tlv_list_t none;
					none.front = none.back = nullptr;
					struct emv_app_t* p = fci ? emv_app_create_from_fci(x.get(), d.size()) : emv_app_create_from_pse(&none, x.get(), d.size());
					x.reset();
					bool hit = alloc_failed() > f0;
					if (p && hit) { violation("P23", "create", op + " succeeded although memory ran out"); }
					if (!hit && (p != nullptr) != want) { violation("P23", "create", op + (p ? " succeeded" : " failed")); }
					if (!p) { break; }
					if (from_list(p->tlv_list) != e.tlvs || Bytes(p->aid->value, p->aid->value + p->aid->length) != e.aid || p->priority != e.priority || p->confirmation_required != e.confirm) { violation("P23", "create", op + " gave " + app_str(p)); }
					HeldApp h{ p, app_str(p), p->priority, p->confirmation_required };
					if (emv_app_list_push(al, p)) { violation("P23", "result", "adding an application failed"); }
					am.push_back(h);
				} else if (q == 4) {
					op = "taking the first application";
					struct emv_app_t* p = emv_app_list_pop(al);
					if (p != (am.empty() ? nullptr : am[0].p)) { violation("P23", "apps", op + " did not give it"); }
					if (p) { w.apps.push_back(am[0]); am.erase(am.begin()); }
				} else if (q == 5) {
					unsigned idx = pick((uint32_t)am.size() + 2);
					op = "removing application " + std::to_string(idx);
					struct emv_app_t* p = emv_app_list_remove_index(al, idx);
					if (p != (idx < am.size() ? am[idx].p : nullptr)) { violation("P23", "apps", op + " of " + std::to_string(am.size()) + " gave something else"); }
					if (p) { w.apps.push_back(am[idx]); am.erase(am.begin() + idx); probe("application_removed"); }
				} else if (q == 6) {
					op = "sorting";
					if (emv_app_list_sort_priority(al)) { violation("P23", "result", "sorting failed"); }
					std::stable_sort(am.begin(), am.end(), [](const HeldApp& x, const HeldApp& y) { return (x.prio ? x.prio : 99) < (y.prio ? y.prio : 99); });
					if (am.size() > 2) { probe("applications_sorted"); }
				} else if (q == 7) {
					op = "asking for selection";
					bool want = am.size() > 1;
					for (auto& x : am) { want |= x.conf; }
					if (emv_app_list_selection_is_required(al) != want) { violation("P23", "result", "need of cardholder selection reported wrongly"); }
				} else if (q == 8) {
					if (w.apps.empty()) { break; }
					size_t h = pick((uint32_t)w.apps.size());
					if (pick(2)) {
						op = "adding an application again";
						if (emv_app_list_push(al, w.apps[h].p)) { violation("P23", "result", op + " failed"); }
						am.push_back(w.apps[h]);
					} else {
						op = "releasing an application";
						if (emv_app_free(w.apps[h].p)) { violation("P23", "result", op + " failed"); }
					}
					w.apps.erase(w.apps.begin() + h);
				} else if (pick(3) == 2) {
					op = "clearing applications";
					emv_app_list_clear(al);
					am.clear();
				} else if (am.size() > 1) {
					op = "releasing an application that is still in a list";
					if (emv_app_free(al->front) <= 0) { violation("P23", "result", op + " was not refused"); }
				}
				break;
			}
		}
		op_end();
		alloc_fail_clear();
		nfail += alloc_failed() > f0;
		++nops;
		if (op.empty()) { continue; }
		trace("%s", op.c_str());
		ev(0x23, what, m.size());
		evaluated();
		lists_check(w, op);
	}
	(void)term;
	op_begin("lists");
	for (auto& h : w.held) { emv_tlv_free(h.first); }
	for (auto& h : w.apps) { emv_app_free(h.p); }
	for (auto& l : w.l) { emv_tlv_list_clear(&l); }
	for (auto& a : w.a) { emv_app_list_clear(&a); }
	op_end();
	for (auto& l : w.l) { if (l.front || l.back) { violation("P23", "list", "a cleared list is not empty"); } }
	if (alloc_live()) { violation("P23", "leak", std::to_string(alloc_live()) + " memory blocks not released after everything was cleared"); }
	if (nops > 3) { nontrivial(); }
	if (run_index() < 3) { sample(std::to_string(nops) + " operations, " + std::to_string(nfail) + " without memory"); }
}

int main(int argc, char** argv)
{
	return main_driver(argc, argv, {
		{ "P01", run_p01, "ttl" },
		{ "P02", run_p02, "ttl" },
		{ "P03", run_p03, "*" },
		{ "P04", run_p04, "*" },
		{ "P05", run_stage, "build" },
		{ "P06", run_stage, "build" },
		{ "P07", run_stage, "select" },
		{ "P08", run_stage, "initiate" },
		{ "P09", run_stage, "initiate" },
		{ "P10", run_stage, "read" },
		{ "P11", run_p11, "*" },
		{ "P12", run_p12, "*" },
		{ "P13", run_p13, "*" },
		{ "P22", run_p22, "*" },
		{ "P23", run_p23, "*" },
		{ "P25", run_p25, "dol" },
		{ "P27", run_p27, "text" },
	});
}
