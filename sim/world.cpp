#include "world.hpp"
using namespace sim;

namespace world {

void put(Bytes& b, const Bytes& x) { b.insert(b.end(), x.begin(), x.end()); }

Bytes tlv(uint32_t tag, const Bytes& val, int form)
{
	Bytes o;
	for (int sh = 24; sh >= 0; sh -= 8) {
		if (tag >> sh) { o.push_back((uint8_t)(tag >> sh)); }
	}
	if (o.empty()) { o.push_back(0); }
	size_t n = val.size();
	if (n > 255 || form == 2) { o.push_back(0x82); o.push_back((uint8_t)(n >> 8)); o.push_back((uint8_t)n); }
	else if (n > 127 || form == 1) { o.push_back(0x81); o.push_back((uint8_t)n); }
	else { o.push_back((uint8_t)n); }
	put(o, val);
	return o;
}

// ================================================================= link
static const char* fault_names[F_COUNT] = { "link_reader_error", "link_empty_answer", "link_truncated_answer", "link_corrupted_byte",
	"link_extended_answer", "link_garbage_answer", "link_waiting_byte", "link_repeated_answer", "link_bad_procedure_byte", "link_unasked_data", "link_oversize_answer" };

Bytes Link::out(const Bytes& data, uint16_t sw, uint8_t ins)
{
	Bytes o;
	if (cfg.tpdu && !data.empty()) { o.push_back(ins); }
	put(o, data);
	o.push_back((uint8_t)(sw >> 8));
	o.push_back((uint8_t)sw);
	return o;
}

static uint8_t avail(size_t n) { return n >= 256 ? 0 : (uint8_t)n; }

// Deliver (the next piece of) the response to a command or GET RESPONSE that
// offered Le (0: 256)
Bytes Link::deliver(unsigned le, bool fetch)
{
	size_t rem = resp.data.size() - off;
	size_t max = le ? le : 256;
	uint16_t final_sw = warn_sent ? after_warn : resp.sw;
	if (rem == 0) {
		st = IDLE;
		return out({}, final_sw, cur_ins);
	}
	// wrong length: the card knows exactly how much it has
	if (cfg.segment && !sixc_sent && le != avail(rem) && dataless < 3 && pick(4) == 3) {
		sixc_sent = true;
		++dataless;
		probe("wrong_length_retry");
		ev(0x6C, fetch);
		st = RESEND;
		if (fetch) {
			resend = Bytes{ 0x00, 0xC0, 0x00, 0x00, avail(rem) };
		} else if (kase == 4) {
			resend = cmd;
			resend.back() = avail(rem);
		} else {
			resend.assign(cmd.begin(), cmd.begin() + 4);
			resend.push_back(avail(rem));
		}
		return Bytes{ 0x6C, avail(rem) };
	}
	size_t n = rem < max ? rem : max;
	if (cfg.segment && n > 1 && pick(3) == 2) { n = 1 + pick((uint32_t)n); probe("response_split"); }
	Bytes d(resp.data.begin() + off, resp.data.begin() + off + n);
	off += n;
	rem -= n;
	dataless = 0;
	sixc_sent = false;
	ev(0xD474, n > 255 ? 3 : n > 127 ? 2 : n > 1, rem > 0);
	if (rem) {
		st = PENDING;
		return out(d, (uint16_t)(0x6100 | (rem > 255 ? 0 : rem)), cur_ins);
	}
	st = IDLE;
	return out(d, final_sw, cur_ins);
}

// The card has the whole command
Bytes Link::answer_command()
{
	resp = card->handle(cmd);
	handled.push_back(Done{ cmd, resp, true });
	off = 0;
	warn_sent = false;
	after_warn = 0x9000;
	sixc_sent = false;
	dataless = 0;
	ev(0xC0DE, cmd[1], resp.sw);
	if (kase == 1 || kase == 3) { st = IDLE; return out({}, resp.sw, cur_ins); }
	bool warning = (resp.sw >> 8) == 0x62 || (resp.sw >> 8) == 0x63;
	if (resp.data.empty()) {
		if (warning && kase == 4) { warn_sent = true; dataless = 1; st = PENDING; return out({}, resp.sw, cur_ins); }
		st = IDLE;
		return out({}, resp.sw, cur_ins);
	}
	unsigned le = kase == 2 ? cmd[4] : cmd.back();
	bool must_fetch = cfg.tpdu && kase == 4;   // no direct response data at character level
	unsigned style = 0;
	if (cfg.segment) { style = pick(4); }
	if (warning && kase == 4 && (style == 3 || (must_fetch && style >= 1))) {
		// warning first, data on request
		probe("warning_before_data");
		warn_sent = true;
		// the data itself may carry success, the same or another warning
		if (pick(4) == 3) { after_warn = pick(2) ? resp.sw : (uint16_t)((pick(2) ? 0x6200 : 0x6300) | pick(256)); probe("warning_repeated_with_data"); }
		dataless = 1;
		st = PENDING;
		return out({}, resp.sw, cur_ins);
	}
	if (must_fetch || style == 2) {
		probe("response_announced");
		dataless = 1;
		st = PENDING;
		size_t rem = resp.data.size();
		return Bytes{ 0x61, avail(rem) };
	}
	return deliver(le, false);
}

Bytes Link::protocol(const Bytes& tx, uint8_t& ins)
{
	static const Bytes bad = { 0x6F, 0x00 };
	if (st == DATA) {
		// command data at character level
		put(cmd, tx);
		need -= tx.size() < need ? tx.size() : need;
		ins = cur_ins;
		if (need == 0) {
			if (kase == 4) { cmd.push_back(0x00); }
			return answer_command();
		}
	} else if (st == RESEND && tx == resend) {
		cur_ins = tx[1];
		ins = cur_ins;
		st = PENDING;
		return deliver(tx.back(), true);
	} else if (st == PENDING && tx.size() == 5 && tx[0] == 0 && tx[1] == 0xC0 && tx[2] == 0 && tx[3] == 0) {
		cur_ins = 0xC0;
		ins = cur_ins;
		if (warn_sent && cfg.segment && off == 0 && !resp.data.empty() && dataless == 1 && pick(4) == 3) {
			dataless++;
			return Bytes{ 0x61, avail(resp.data.size()) };
		}
		if (warn_sent && resp.data.empty()) {
			static const uint16_t nothing[] = { 0x9000, 0x6985, 0x6A88, 0x6F00, 0x6D00 };
			st = IDLE;
			return out({}, nothing[pick(5)], cur_ins);
		}
		return deliver(tx[4], true);
	} else {
		// new command
		st = IDLE;
		if (tx.size() < 4) { return bad; }
		cur_ins = tx[1];
		ins = cur_ins;
		if (!cfg.tpdu) {
			cmd = tx;
			kase = model::apdu_case(tx);
			if (!kase) { return bad; }
			return answer_command();
		}
		if (tx.size() != 5) { return bad; }
		// character level: only the header is known; which case it is is
		// a matter of the instruction
		cmd = tx;
		kase = 2;
		need = 0;
		if (tx[1] == 0xA4 || tx[1] == 0xA8 || hint_case) { kase = hint_case ? hint_case : 4; }
		if (kase == 1) { cmd.resize(4); return answer_command(); }
		if (kase >= 3) { need = tx[4]; }
		if (kase < 3) { return answer_command(); }
		st = DATA;
	}
	// ask for the (rest of the) command data
	if (cfg.segment && pick(3) == 2) { probe("single_byte_procedure"); ev(0xB17E); return Bytes{ (uint8_t)~cur_ins }; }
	ev(0xA11);
	return Bytes{ cur_ins };
}

int Link::trx(const void* tx, size_t tx_len, void* rx, size_t* rx_len)
{
	++steps;
	if (steps > cfg.step_cap) {
		if (on_cap) { on_cap(this); }
		return -77;
	}
	model::LinkStep s;
	s.tx.assign((const uint8_t*)tx, (const uint8_t*)tx + tx_len);
	s.r = 0;
	uint8_t ins = 0;
	Bytes a = adversary ? adversary(s.tx) : protocol(s.tx, ins);
	bool f = false;
	if (cfg.fault_step >= 0 && (int)steps - 1 == cfg.fault_step) { f = true; }
	else if (cfg.fault_den && pick(cfg.fault_den) == cfg.fault_den - 1) { f = true; }
	if (f) {
		unsigned k = pick(F_COUNT);
		for (unsigned i = 0; i < F_COUNT && !(cfg.kinds & (1u << k)); ++i) { k = (k + 1) % F_COUNT; }
		++faults;
		disturbed = true;
		if (!handled.empty()) { handled.back().clean = false; }
		switch (k) {
			case F_READER_ERROR: { static const int e[] = { -1, 1, 5, 2, -1000, 1000, 3 }; s.r = e[pick(7)]; break; }
			case F_EMPTY: a.clear(); break;
			case F_TRUNCATE: { size_t n = a.empty() ? 0 : 1 + pick((uint32_t)a.size()); a.resize(a.size() - (n > a.size() ? a.size() : n)); break; }
			case F_CORRUPT: if (!a.empty()) { size_t i = pick(2) ? a.size() - 1 - pick(2 < a.size() ? 2 : (uint32_t)a.size()) : pick((uint32_t)a.size()); a[i] ^= (uint8_t)(1u << pick(8)); } break;
			case F_EXTEND: put(a, rbytes(1 + pick(4))); break;
			case F_GARBAGE: a = rbytes(1 + pick(6)); break;
			case F_WAIT_BYTE: a = Bytes{ 0x60 }; break;
			case F_REPEAT: a = last; break;
			case F_PROCBYTE: { uint8_t p[] = { cur_ins, (uint8_t)~cur_ins, 0x61, 0x6C, 0x00, 0x90 }; a = Bytes{ p[pick(6)] }; break; }
			case F_DATA_UNASKED: { Bytes d = rbytes(1 + pick(20)); if (pick(2)) { d.insert(d.begin(), cur_ins); } put(d, Bytes{ 0x90, 0x00 }); a = d; break; }
			case F_OVERSIZE: { Bytes d(200 + pick(70), (uint8_t)pick(256)); d[0] = cur_ins; put(d, Bytes{ (uint8_t)(pick(2) ? 0x90 : 0x61), 0x00 }); a = d; break; }
			default: break;
		}
		fault(fault_names[k]);
	}
	last = a;
	size_t cap = *rx_len;
	if (s.r == 0 && a.size() > cap) {
		// the reader cannot deliver more than the buffer it was given
		s.r = -50;
		probe("reader_buffer_too_small");
	}
	if (s.r == 0) {
		memset(rx, junk, cap);
		if (!a.empty()) { memcpy(rx, a.data(), a.size()); }
		*rx_len = a.size();
		s.rx = a;
	}
	ev_bytes(1, s.tx.data(), s.tx.size());
	ev_bytes(2, s.rx.data(), s.rx.size());
	ev(3, s.r != 0, s.rx.size() > 2 ? 3 : s.rx.size());
	if (tracing()) { trace("  -> %s", hex(s.tx).c_str()); if (s.r) { trace("  <- reader error %d", s.r); } else { trace("  <- %s", hex(s.rx).c_str()); } }
	int r = s.r;
	if (keep_log) { log.push_back(s); }
	add_time(1000 + 100 * (tx_len + a.size()));
	clk.nsec += 1000000;
	if (clk.nsec >= 1000000000) { clk.nsec -= 1000000000; clk.sec++; }
	return r;
}

extern "C" int link_trx(void* ctx, const void* tx, size_t tx_len, void* rx, size_t* rx_len)
{
	sim::seam();
	int r = ((Link*)ctx)->trx(tx, tx_len, rx, rx_len);
	sim::seam();
	return r;
}

// ================================================================= card
static const char PSE[] = "1PAY.SYS.DDF01";

Resp EmvCard::handle(const Bytes& c)
{
	int n = cmd_no++;
	if (n == override_at) {
		fault("card_status_override");
		return Resp{ {}, override_sw };
	}
	if (c.size() < 4) { return Resp{ {}, 0x6700 }; }
	if (c[0] == 0x00 && c[1] == 0xA4 && c[2] == 0x04 && (c[3] == 0x00 || c[3] == 0x02) && c.size() >= 6) {
		Bytes name(c.begin() + 5, c.begin() + 5 + c[4]);
		if (c[3] == 0x00 && name == Bytes(PSE, PSE + 14)) {
			if (!has_pse) { return Resp{ {}, pse_sw == 0x9000 ? (uint16_t)0x6A82 : pse_sw }; }
			cur = -1;
			bool withdata = pse_sw == 0x9000 || (pse_sw >> 8) == 0x62;
			return Resp{ withdata ? pse_fci : Bytes(), pse_sw };
		}
		if (c[3] == 0x00 || name != last_name) { cursor = -1; }
		last_name = name;
		for (int i = cursor + 1; i < (int)apps.size(); ++i) {
			if (apps[i].aid.size() >= name.size() && std::equal(name.begin(), name.end(), apps[i].aid.begin())) {
				cursor = i;
				cur = i;
				bool withdata = apps[i].select_sw == 0x9000 || (apps[i].select_sw >> 8) == 0x62;
				return Resp{ withdata ? apps[i].fci : Bytes(), apps[i].select_sw };
			}
		}
		cursor = (int)apps.size();
		return Resp{ {}, 0x6A82 };
	}
	if (c[0] == 0x00 && c[1] == 0xB2) {
		unsigned sfi = c[3] >> 3, rec = c[2];
		if (cur == -1) {
			if (sfi != pse_sfi) { return Resp{ {}, 0x6A82 }; }
			if (rec < 1 || rec > dir.size()) { return Resp{ {}, end_of_records }; }
			return Resp{ dir[rec - 1].data, dir[rec - 1].sw };
		}
		if (cur >= 0) {
			auto it = apps[cur].files.find({ sfi, rec });
			if (it != apps[cur].files.end()) { return Resp{ it->second.data, it->second.sw }; }
			return Resp{ {}, 0x6A83 };
		}
		return Resp{ {}, 0x6985 };
	}
	if (c[0] == 0x80 && c[1] == 0xA8) {
		if (cur < 0) { return Resp{ {}, 0x6985 }; }
		gpo_cmds.push_back(c);
		return apps[cur].gpo;
	}
	return Resp{ {}, 0x6D00 };
}

// ================================================================= generators
uint16_t gen_sw()
{
	static const uint16_t t[] = { 0x6A82, 0x6283, 0x6A81, 0x6985, 0x6A83, 0x6F00, 0x6D00, 0x6E00, 0x6300, 0x63C2, 0x6200, 0x6282, 0x6400, 0x6581, 0x6700, 0x6982, 0x6A86, 0x9001, 0x9100 };
	return t[pick(sizeof(t) / sizeof(t[0]))];
}

Swarm gen_swarm(bool allow_bad)
{
	Swarm s;
	unsigned k = allow_bad ? pick(4) : 0;
	s.malformed = k == 0 ? 0 : k == 1 ? 3 : k == 2 ? 10 : 20;
	k = allow_bad ? pick(4) : 0;
	s.odd_sw = k == 0 ? 0 : k == 1 ? 2 : k == 2 ? 6 : 14;
	s.rich = pick(4) != 0;
	s.big = pick(8) == 7;
	s.maxapps = 1 + pick(5);
	if (pick(16) == 15) { s.maxapps = 6 + pick(20); }
	s.pse = pick(3) != 2;
	s.long_forms = pick(4) == 3;
	return s;
}
static int lf(const Swarm& s) { return s.long_forms ? (int)pick(3) : 0; }
static bool badly(const Swarm& s) { return s.malformed && pick(64) >= 64 - s.malformed; }
static uint16_t oksw(const Swarm& s) { return s.odd_sw && pick(64) >= 64 - s.odd_sw ? gen_sw() : 0x9000; }

static const Bytes RIDS[] = { { 0xA0, 0, 0, 0, 0x03 }, { 0xA0, 0, 0, 0, 0x04 }, { 0xA0, 0, 0, 0, 0x25 }, { 0xB0, 1, 2, 3, 4 } };

static Bytes gen_aid(size_t base_len)
{
	Bytes a = RIDS[pick(4)];
	size_t n = base_len;
	while (n--) { a.push_back((uint8_t)(pick(3) * 0x10)); }
	return a;
}

Terminal gen_terminal(const Swarm& s)
{
	Terminal t;
	unsigned n = 1 + pick(4);
	for (unsigned i = 0; i < n; ++i) {
		model::Aid a;
		a.v = gen_aid(pick(4));
		a.partial = pick(2);
		t.aids.push_back(a);
	}
	t.pos_entry = pick(3) ? (uint8_t)pick(256) : 0x05;
	static const uint32_t cfg_tags[] = { 0x9F1A, 0x9F35, 0x9F33, 0x9F40, 0x9F15, 0x9F16, 0x9F1C, 0x9F4E, 0x9F01, 0x9F1E, 0x9F3C, 0x9F3D, 0x5F57, 0x9F09, 0xDF01 };
	static const uint32_t par_tags[] = { 0x9F41, 0x9A, 0x9F21, 0x5F2A, 0x5F36, 0x9C, 0x9F02, 0x81, 0x9F03, 0x9F04, 0x9F37, 0x9F1A, 0x9F39, 0x95, 0x9B, 0x9F06, 0x9F35 };
	static const uint8_t cfg_len[] = { 2, 1, 3, 5, 2, 15, 8, 20, 6, 8, 2, 1, 1, 2, 3 };
	static const uint8_t par_len[] = { 4, 3, 3, 2, 1, 1, 6, 4, 6, 4, 4, 2, 1, 5, 2, 7, 1 };
	for (unsigned i = 0; i < 15; ++i) {
		if (pick(3) == 0) { continue; }
		size_t len = pick(6) == 5 ? pick(24) : cfg_len[i];
		t.config.push_back(Tlv{ cfg_tags[i], rbytes(len) });
	}
	// elements that the terminal also creates itself
	static const uint32_t own_tags[] = { 0x9F39, 0x9F06, 0x9B, 0x95 };
	static const uint8_t own_len[] = { 1, 7, 2, 5 };
	for (unsigned i = 0; i < 4; ++i) { if (pick(8) == 7) { t.config.push_back(Tlv{ own_tags[i], rbytes(own_len[i]) }); } }
	for (unsigned i = 0; i < 17; ++i) {
		if (i >= 11 ? pick(4) != 3 : pick(4) == 3) { continue; }
		size_t len = pick(6) == 5 ? pick(24) : par_len[i];
		t.params.push_back(Tlv{ par_tags[i], rbytes(len) });
	}
	if (pick(8) == 7 && !t.params.empty()) {
		Tlv d = t.params[pick((uint32_t)t.params.size())];
		d.val = rbytes(d.val.size());
		t.params.push_back(d);
	}
	(void)s;
	return t;
}

// spoil an encoded structure
static Bytes spoil(Bytes b)
{
	probe("malformed_structure");
	if (b.empty()) { return rbytes(1 + pick(3)); }
	switch (pick(10)) {
		case 0: b.resize(b.size() - 1 - pick((uint32_t)std::min<size_t>(b.size(), 6)) % b.size()); break;
		case 1: { size_t n = 1 + pick(3); for (size_t i = 0; i < n; ++i) { b.push_back((uint8_t)(pick(2) ? 0 : pick(256))); } break; }
		case 2: if (b.size() > 1) { b[1] = (uint8_t)(b[1] + 1); } break;
		case 3: if (b.size() > 1) { b[1] = (uint8_t)(b[1] - 1); } break;
		case 4: b[0] = (uint8_t)pick(256); break;
		case 5: b.clear(); break;
		case 6: b[pick((uint32_t)b.size())] = (uint8_t)pick(256); break;
		case 7: b.insert(b.begin() + pick((uint32_t)b.size()), (uint8_t)pick(256)); break;
		case 8: { // last field ends within its length octets
			b.push_back((uint8_t)(pick(2) ? 0x87 : 0x4F));
			unsigned c = 1 + pick(5);
			b.push_back((uint8_t)(0x80 | c));
			for (unsigned i = pick(c); i > 0; --i) { b.push_back(0); }
			probe("field_ends_within_length");
			break;
		}
		case 9: { // last field ends within its tag
			unsigned n = pick(5);
			b.push_back((uint8_t)(pick(2) ? 0x9F : 0xBF));
			while (n--) { b.push_back((uint8_t)(0x81 + pick(16))); }
			probe("field_ends_within_tag");
			break;
		}
	}
	return b;
}

static Bytes gen_text(size_t n, bool extended)
{
	Bytes b;
	static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ abcdefghijklmnopqrstuvwxyz0123456789";
	for (size_t i = 0; i < n; ++i) {
		unsigned k = extended ? pick(8) : pick(12);
		if (k == 7) { b.push_back((uint8_t)pick(256)); }
		else if (extended && k >= 4) { b.push_back((uint8_t)(0xA0 + pick(96))); }
		else { b.push_back((uint8_t)al[pick(sizeof(al) - 1)]); }
	}
	return b;
}

static void name_elements(const Swarm& s, Bytes& v, bool table)
{
	if (pick(5) != 4) { put(v, tlv(0x50, gen_text(pick(8) == 7 ? pick(40) : 1 + pick(16), false), lf(s))); }
	if (pick(3) == 2) { put(v, tlv(0x9F12, gen_text(pick(8) == 7 ? pick(24) : 1 + pick(16), true), lf(s))); }
	if (table && pick(3) == 2) { put(v, tlv(0x9F11, pick(8) == 7 ? rbytes(pick(3)) : Bytes{ (uint8_t)(1 + pick(16)) }, lf(s))); }
	if (pick(3) != 0) { put(v, tlv(0x87, pick(10) == 9 ? rbytes(pick(3)) : Bytes{ (uint8_t)((pick(4) == 3 ? 0x80 : 0) | pick(pick(2) ? 16 : 4)) }, lf(s))); }
}

static Bytes gen_pdol(const Swarm& s)
{
	static const uint32_t tags[] = { 0x9F02, 0x9A, 0x9F1A, 0x95, 0x9F37, 0x5F2A, 0x9C, 0x9F06, 0x9B, 0x9F39, 0x9F35, 0x9F21, 0x9F33, 0x9F40, 0x81, 0x9F03, 0x9F4E, 0x9F66, 0xDF8101, 0x9F15, 0x9F01, 0x9F1E, 0x9F41, 0x5F36, 0x9F3C, 0x9F16, 0xDF01, 0x5F57, 0x9F04, 0x9F3D, 0x9F1C };
	static const uint8_t lens[] = { 6, 3, 2, 5, 4, 2, 1, 16, 2, 1, 1, 3, 3, 5, 4, 6, 20, 4, 2, 2, 6, 8, 4, 1, 2, 15, 3, 1, 4, 1, 8 };
	Bytes d;
	unsigned n = 1 + pick(s.big ? 14 : 7);
	for (unsigned i = 0; i < n; ++i) {
		unsigned k = pick(31);
		for (int sh = 24; sh >= 0; sh -= 8) { if (tags[k] >> sh) { d.push_back((uint8_t)(tags[k] >> sh)); } }
		unsigned m = pick(4);
		d.push_back(m == 3 ? (uint8_t)pick(s.big ? 64 : 24) : lens[k]);
	}
	if (pick(16) == 15) {
		// steer the total to the edges of the length encoding
		std::vector<model::DolEntry> e;
		unsigned total = 0;
		if (model::dol_parse(d, e)) {
			for (auto& x : e) { total += x.len; }
			static const unsigned want[] = { 127, 128, 251, 252, 253, 255, 256, 300 };
			unsigned w = want[pick(8)];
			while (w > total) { unsigned k = w - total > 255 ? 255 : w - total; d.push_back(0x9F); d.push_back(0x37); d.push_back((uint8_t)k); total += k; }
			probe("pdol_edge_length");
		}
	}
	if (pick(64) == 63) { d.clear(); }
	if (badly(s)) { d = spoil(d); }
	return d;
}

Bytes gen_list(const Swarm& s) { return gen_pdol(s); }

Bytes gen_fci(const Swarm& s, const Bytes& aid, bool* ok)
{
	Bytes a5;
	name_elements(s, a5, true);
	if (pick(2)) { put(a5, tlv(0x9F38, gen_pdol(s), lf(s))); }
	if (s.rich) {
		if (pick(3) == 2) { put(a5, tlv(0x5F2D, Bytes{ 'e', 'n', 'n', 'l' }, lf(s))); }
		if (pick(3) == 2) { put(a5, tlv(0xBF0C, tlv(0x9F4D, Bytes{ 11, 10 }, lf(s)), lf(s))); }
		// elements that belong elsewhere
		if (pick(12) == 11) { put(a5, tlv(0x82, rbytes(2), lf(s))); probe("profile_in_fci"); }
		if (pick(12) == 11) { static const uint32_t m[] = { 0x5F24, 0x5A, 0x8C, 0x8D }; put(a5, tlv(m[pick(4)], rbytes(1 + pick(6)), lf(s))); }
		if (pick(16) == 15) { put(a5, tlv(0x94, Bytes{ 0x08, 1, 1, 0 }, lf(s))); probe("locator_in_fci"); }
		if (pick(6) == 5) { put(a5, tlv(0xDF8101, rbytes(pick(4)), lf(s))); }
	}
	Bytes name = aid;
	if (badly(s)) {
		unsigned k = pick(5);
		if (k == 0) { name.push_back(1); } else if (k == 1 && name.size() > 1) { name.pop_back(); } else if (k == 2) { name[name.size() - 1] ^= 1; } else if (k == 3) { name.clear(); }
		else { name.resize(20, 7); }
		probe("df_name_mismatch");
	}
	Bytes v;
	bool nodf = badly(s);
	if (!nodf) { put(v, tlv(0x84, name, lf(s))); }
	put(v, tlv(0xA5, badly(s) ? spoil(a5) : a5, lf(s)));
	if (pick(16) == 15) { put(v, tlv(0x84, rbytes(5 + pick(5)), lf(s))); }
	Bytes f = tlv(0x6F, v, lf(s));
	if (badly(s)) { f = spoil(f); }
	if (f.size() > 256) { f.resize(256); }
	if (ok) { *ok = !nodf; }
	return f;
}

static Bytes elements(const Swarm& s, const std::vector<uint32_t>& tags)
{
	Bytes v;
	for (uint32_t t : tags) {
		size_t n = s.big && pick(6) == 5 ? 60 + pick(70) : (pick(12) == 11 ? 0 : 1 + pick(10));
		put(v, tlv(t, rbytes(n), lf(s)));
	}
	return v;
}

static void gen_app_data(const Swarm& s, CardApp& a)
{
	// records
	static const uint32_t opt[] = { 0x57, 0x5F20, 0x5F28, 0x5F30, 0x5F34, 0x9F07, 0x9F08, 0x9F0D, 0x9F0E, 0x9F0F, 0x8E, 0x9F42, 0x9F44, 0x9F4A, 0x8F, 0x92, 0x90, 0x9F32, 0x9F46, 0x5F25 };
	std::vector<uint32_t> tags = { 0x5F24, 0x5A, 0x8C, 0x8D };
	uint32_t misplaced = 0;
	if (badly(s)) { unsigned k = pick(4); if (pick(2)) { misplaced = tags[k]; } tags.erase(tags.begin() + k); probe("mandatory_element_missing"); }
	unsigned no = pick(s.rich ? 10 : 3);
	for (unsigned i = 0; i < no; ++i) { uint32_t t = opt[(i * 2 + pick(2)) % 20]; tags.push_back(t); }
	if (badly(s)) { tags.push_back(tags[pick((uint32_t)tags.size())]); probe("redundant_element"); }
	// shuffle
	for (size_t i = tags.size(); i > 1; --i) { std::swap(tags[i - 1], tags[pick((uint32_t)i)]); }
	// distribute over AFL entries
	unsigned ne = 1 + pick(3);
	Bytes afl;
	size_t ti = 0;
	for (unsigned e = 0; e < ne; ++e) {
		unsigned sfi = pick(5) == 4 ? 11 + pick(20) : 1 + pick(10);
		unsigned first = pick(6) == 5 ? 1 + pick(255) : 1 + pick(3);
		unsigned nr = 1 + pick(s.big ? 6 : 3);
		if (first + nr - 1 > 255) { nr = 255 - first + 1; }
		unsigned last = first + nr - 1;
		for (unsigned r = first; r <= last; ++r) {
			std::vector<uint32_t> mine;
			bool final = e + 1 == ne && r == last;
			size_t take = final ? tags.size() - ti : std::min<size_t>(tags.size() - ti, pick(5));
			while (take--) { mine.push_back(tags[ti++]); }
			Bytes body = elements(s, mine);
			if (pick(10) == 9) { body = tlv(0x73, body, lf(s)); }
			if (badly(s)) { body = spoil(body); }
			int form = s.long_forms ? (int)pick(2) : 0;
			Bytes rec = tlv(0x70, body, form);
			if (rec.size() > 256) { rec = tlv(0x70, tlv(mine.empty() ? 0x9F55 : mine[0], rbytes(200))); probe("record_shortened"); }
			if (sfi > 10 && pick(3) == 2) { rec = pick(3) ? rbytes(pick(40)) : Bytes(); if (!rec.empty() && rec[0] == 0x70) { rec[0] = 0x71; } probe("record_outside_payment_files"); }
			else if (sfi > 10 && pick(3) == 2) {
				// outside the payment files the template may be followed by more
				Bytes more = elements(s, { (uint32_t)(0x9F60 + pick(16)) });
				put(rec, pick(2) ? tlv(0x70, more, form) : more);
				probe("record_with_trailing_elements");
			}
			if (badly(s)) { rec = spoil(rec); }
			if (rec.size() > 256) { rec.resize(256); }
			a.files[{ sfi, r }] = Rec{ rec, oksw(s) };
		}
		uint8_t oda = (uint8_t)pick(nr + 1);
		Bytes ent = { (uint8_t)(sfi << 3), (uint8_t)first, (uint8_t)last, oda };
		if (badly(s)) {
			probe("invalid_locator_entry");
			switch (pick(7)) {
				case 0: ent[0] |= 1 + pick(7); break;
				case 1: ent[0] = 0; break;
				case 2: ent[0] = 0xF8; break;
				case 3: ent[1] = 0; break;
				case 4: ent[2] = (uint8_t)(ent[1] - 1); break;
				case 5: ent[3] = (uint8_t)(nr + 1); break;
				case 6: ent.pop_back(); break;
			}
		}
		put(afl, ent);
	}
	Bytes aip = rbytes(2);
	Bytes g;
	if (pick(2)) {
		Bytes v = aip;
		put(v, afl);
		if (badly(s)) { v.resize(pick((uint32_t)v.size() + 1)); }
		g = tlv(0x80, v, lf(s));
	} else {
		Bytes v;
		bool noaip = badly(s), noafl = badly(s);
		std::vector<Bytes> el;
		if (!noaip) { el.push_back(tlv(0x82, badly(s) ? rbytes(pick(4)) : aip, lf(s))); }
		if (misplaced && pick(2)) { el.push_back(tlv(misplaced, rbytes(1 + pick(6)), lf(s))); probe("mandatory_element_elsewhere"); }
		if (!noafl) { el.push_back(tlv(0x94, badly(s) ? Bytes() : afl, lf(s))); }
		if (pick(3) == 2) { el.push_back(tlv(0x9F36, rbytes(2), lf(s))); }
		if (pick(4) == 3) { el.push_back(tlv(0x9F26, rbytes(8), lf(s))); }
		if (pick(8) == 7) { el.push_back(tlv(0xA5, tlv(0x9F27, rbytes(1)), lf(s))); }
		if (pick(8) == 7) { el.push_back(tlv(0x82, rbytes(2))); }
		for (size_t i = el.size(); i > 1; --i) { std::swap(el[i - 1], el[pick((uint32_t)i)]); }
		for (auto& x : el) { put(v, x); }
		if (badly(s)) { v = spoil(v); }
		g = tlv(0x77, v, lf(s));
	}
	if (badly(s)) { g = spoil(g); }
	if (badly(s)) { g = tlv(0x70 + pick(16), g); }
	if (g.size() > 256) { g.resize(256); }
	a.gpo.data = g;
	a.gpo.sw = oksw(s);
	if (s.odd_sw && pick(6) == 5) { a.gpo.sw = 0x6985; }
	if (a.gpo.sw != 0x9000 && (a.gpo.sw >> 8) != 0x62) { a.gpo.data.clear(); }
}

EmvCard gen_card(const Swarm& s, const Terminal& t)
{
	EmvCard c;
	unsigned n = pick(s.maxapps + 1);
	if (pick(3)) { n = 1 + pick(s.maxapps); }
	for (unsigned i = 0; i < n; ++i) {
		CardApp a;
		if (pick(5) != 4) {
			// something the terminal knows, possibly longer
			a.aid = t.aids[pick((uint32_t)t.aids.size())].v;
			if (pick(2)) { put(a.aid, Bytes{ (uint8_t)(pick(3) * 0x10) }); }
			if (pick(4) == 3) { put(a.aid, rbytes(1 + pick(3))); }
		} else {
			a.aid = gen_aid(pick(6));
		}
		if (a.aid.size() > 16) { a.aid.resize(16); }
		a.fci = gen_fci(s, a.aid);
		if (s.odd_sw && pick(3) == 2) { a.select_sw = pick(2) ? 0x6283 : oksw(s); }
		gen_app_data(s, a);
		c.apps.push_back(a);
	}
	c.has_pse = s.pse;
	if (!c.has_pse) {
		static const uint16_t none[] = { 0x6A82, 0x6A82, 0x6F00, 0x6D00, 0x6283, 0x6985 };
		c.pse_sw = none[pick(6)];
	} else {
		c.pse_sw = oksw(s);
		c.pse_sfi = pick(4) == 3 ? 1 + pick(30) : 1 + pick(10);
		Bytes a5;
		if (!badly(s)) { put(a5, tlv(0x88, badly(s) ? rbytes(pick(3)) : Bytes{ (uint8_t)c.pse_sfi }, lf(s))); }
		if (badly(s)) { put(a5, tlv(0x88, Bytes{ (uint8_t)(pick(2) ? 0 : 31 + pick(4)) })); }
		if (pick(3) == 2) { put(a5, tlv(0x5F2D, Bytes{ 'e', 'n' }, lf(s))); }
		if (pick(2)) { put(a5, tlv(0x9F11, Bytes{ (uint8_t)(1 + pick(16)) }, lf(s))); }
		Bytes v = tlv(0x84, Bytes(PSE, PSE + 14), lf(s));
		put(v, tlv(0xA5, badly(s) ? spoil(a5) : a5, lf(s)));
		c.pse_fci = tlv(0x6F, v, lf(s));
		if (badly(s)) { c.pse_fci = spoil(c.pse_fci); }
		if (c.pse_fci.size() > 256) { c.pse_fci.resize(256); }
		// directory
		std::vector<Bytes> entries;
		for (auto& a : c.apps) {
			if (pick(8) == 7) { continue; }
			unsigned copies = pick(12) == 11 ? 2 : 1;
			while (copies--) {
				Bytes e;
				Bytes name = a.aid;
				if (badly(s)) { unsigned k = pick(4); if (k == 0) { name.clear(); } else if (k == 1) { name.resize(pick(5)); } else if (k == 2) { name.resize(17 + pick(20), 3); } else { name.back() ^= 0x40; } }
				if (!badly(s)) { put(e, tlv(0x4F, name, lf(s))); }
				name_elements(s, e, pick(4) == 3);
				if (s.rich && pick(4) == 3) { put(e, tlv(0x73, tlv(0x9F0A, rbytes(pick(5)), lf(s)), lf(s))); }
				if (badly(s)) { e = spoil(e); }
				Bytes x = tlv(0x61, e, lf(s));
				if (badly(s)) { x = spoil(x); }
				entries.push_back(x);
			}
			if (pick(8) == 7) { entries.push_back(tlv(pick(2) ? 0x9F55 : 0x63, rbytes(pick(6)), lf(s))); }
		}
		size_t i = 0;
		while (i < entries.size() || pick(8) == 7) {
			Bytes body;
			unsigned per = 1 + pick(3);
			while (per-- && i < entries.size() && body.size() + entries[i].size() < 240) { put(body, entries[i++]); }
			if (i < entries.size() && body.empty()) { ++i; }
			Bytes rec = tlv(0x70, body, lf(s));
			if (badly(s)) { rec = spoil(rec); }
			if (rec.size() > 256) { rec.resize(256); }
			c.dir.push_back(Rec{ rec, oksw(s) });
			if (c.dir.back().sw != 0x9000 && pick(2)) { c.dir.back().data.clear(); }
			if (c.dir.size() > 30) { break; }
		}
	}
	if (s.odd_sw && pick(6) == 5) {
		c.override_at = (int)pick(12);
		c.override_sw = pick(3) ? gen_sw() : 0x6A81;
	}
	return c;
}

static Bytes nest(const Swarm& s, unsigned depth)
{
	static const uint32_t prim[] = { 0x5A, 0x57, 0x9F02, 0x50, 0x87, 0x4F, 0xDF8101, 0x82, 0x94, 0xC2 };
	static const uint32_t cons[] = { 0x61, 0x70, 0xA5, 0xBF0C, 0x73 };
	Bytes b;
	unsigned n = pick(5);
	for (unsigned i = 0; i < n && b.size() < 1000; ++i) {
		if (depth && pick(3) == 2) { put(b, tlv(cons[pick(5)], nest(s, depth - 1), lf(s))); }
		else { put(b, tlv(prim[pick(10)], rbytes(pick(8) == 7 ? 100 + pick(200) : pick(8)), lf(s))); }
	}
	if (badly(s)) { b = spoil(b); }
	return b;
}
Bytes gen_structure(const Swarm& s) { return nest(s, 1 + pick(4)); }
Bytes gen_structure_fci(const Swarm& s) { return gen_fci(s, gen_aid(pick(6)), nullptr); }
Bytes gen_structure_entry(const Swarm& s)
{
	Bytes e;
	if (!badly(s)) { put(e, tlv(0x4F, gen_aid(pick(6)), lf(s))); }
	name_elements(s, e, pick(4) == 3);
	if (s.rich && pick(4) == 3) { put(e, tlv(0x73, tlv(0x9F0A, rbytes(pick(5)), lf(s)), lf(s))); }
	if (badly(s)) { e = spoil(e); }
	return e;
}

std::string describe(const Terminal& t)
{
	std::string o = "aids{";
	for (auto& a : t.aids) { o += hex(a.v) + (a.partial ? "*" : "") + " "; }
	return o + "} config" + model::str(t.config) + " params" + model::str(t.params);
}
std::string describe(const EmvCard& c)
{
	char b[64];
	snprintf(b, sizeof(b), "%04X", c.pse_sw);
	std::string o = std::string("card{pse=") + (c.has_pse ? "yes" : "no") + "/" + b + " dir=" + std::to_string(c.dir.size()) + " apps=";
	for (auto& a : c.apps) { snprintf(b, sizeof(b), "%04X/%04X", a.select_sw, a.gpo.sw); o += hex(a.aid) + "/" + b + " "; }
	return o + "}";
}
}
