// Reader layer: power-up (P14), waiting (P15), connections (P16), reader
// features and properties (P17), against the simulated service.
#include "service.hpp"
#include "atr.hpp"
#include "pcsc.h"
#include "iso7816.h"
#include "emv.h"
#include <winscard.h>
#include <algorithm>
#include <memory>
using namespace sim;
using namespace svc;
using atr::AtrModel;
using atr::atr_model;
using atr::gen_atr;
using atr::damage;

static std::string num(long long v) { return std::to_string(v); }

// ---------------------------------------------------------------- answer to reset
static const char* field_diff(const AtrModel& m, const Bytes& a, const iso7816_atr_info_t& i, std::string* d)
{
	auto ne = [&](const char* n, long long got, long long want) { *d = std::string(n) + " is " + num(got) + ", the bytes received mean " + num(want); return n; };
#define F(n, g, w) do { if ((long long)(g) != (long long)(w)) { return ne(n, (long long)(g), (long long)(w)); } } while (0)
	F("ATR length", i.atr_len, a.size());
	if (memcmp(i.atr, a.data(), a.size()) != 0) { *d = "stored ATR differs"; return "atr"; }
	F("TS", i.TS, a[0]);
	F("T0", i.T0, a[1]);
	const uint8_t* const* t[4] = { i.TA, i.TB, i.TC, i.TD };
	static const char* tn[4] = { "TA", "TB", "TC", "TD" };
	for (int k = 0; k < 4; ++k) {
		for (int n = 1; n <= 4; ++n) {
			if ((t[k][n] != nullptr) != (m.off[k][n] != 0)) { *d = std::string(tn[k]) + num(n) + (t[k][n] ? " reported although absent" : " missing"); return "presence"; }
			if (t[k][n] && *t[k][n] != a[m.off[k][n]]) { *d = std::string(tn[k]) + num(n) + " has the wrong value"; return "value"; }
		}
	}
	F("number of historical bytes", i.K_count, m.K);
	if (m.K) {
		F("T1", i.T1, m.T1);
		F("historical length", i.historical_bytes_len, m.hist_len);
		if (m.hist_len && (!i.historical_bytes || memcmp(i.historical_bytes, &a[m.hist_off], m.hist_len) != 0)) { *d = "historical bytes differ"; return "historical"; }
	}
	F("status indicator presence", i.status_indicator_bytes != nullptr, m.si_off != 0);
	if (m.si_off) {
		F("status indicator length", i.status_indicator_bytes_len, m.si_len);
		if (m.si_len && memcmp(i.status_indicator_bytes, &a[m.si_off], m.si_len) != 0) { *d = "status indicator differs"; return "si"; }
	}
	F("life cycle status", i.status_indicator.LCS, m.LCS);
	F("status indicator SW1", i.status_indicator.SW1, m.SW1);
	F("status indicator SW2", i.status_indicator.SW2, m.SW2);
	if (m.tck) { F("TCK", i.TCK, m.tck_val); }
	F("Di", i.global.Di, m.Di);
	F("Fi", i.global.Fi, m.Fi);
	F("fmax", i.global.fmax * 10, m.fmax * 10);
	F("Vpp connected", i.global.Vpp_connected, m.vpp);
	if (m.vpp) { F("Vpp", i.global.Vpp, m.Vpp); F("Vpp course", i.global.Vpp_course, m.Vppc); F("Ipp", i.global.Ipp, m.Ipp); }
	F("N", i.global.N, m.N);
	F("GT", i.global.GT, m.GT);
	F("protocol", i.global.protocol, m.proto);
	F("specific mode", i.global.specific_mode, m.spec);
	if (m.spec) { F("specific protocol", i.global.specific_mode_protocol, m.spec_proto); F("implicit", i.global.etu_is_implicit, m.implicit); F("may change", i.global.specific_mode_may_change, m.may_change); }
	F("card classes", i.global.card_classes, m.classes);
	F("clock stop", i.global.clock_stop, m.clock_stop);
	F("SPU", i.global.spu, m.spu);
	F("WI", i.protocol_T0.WI, m.WI);
	F("WT", i.protocol_T0.WT, m.WT);
	F("CGT", i.protocol_T1.CGT, m.CGT);
	F("IFSI", i.protocol_T1.IFSI, m.IFSI);
	F("CWI", i.protocol_T1.CWI, m.CWI);
	F("CWT", i.protocol_T1.CWT, m.CWT);
	F("BWI", i.protocol_T1.BWI, m.BWI);
	F("BWT", i.protocol_T1.BWT, m.BWT);
	F("error detection", i.protocol_T1.error_detection_code, m.edc);
#undef F
	return nullptr;
}

static void check_atr(const Bytes& a)
{
	AtrModel m = atr_model(a);
	std::unique_ptr<uint8_t[]> exact(new uint8_t[a.size() ? a.size() : 1]);
	if (!a.empty()) { memcpy(exact.get(), a.data(), a.size()); }
	std::unique_ptr<iso7816_atr_info_t> info(new iso7816_atr_info_t);
	memset(info.get(), 0x5A + (int)pick(3), sizeof(*info));
	stack_fill((uint8_t)(0x11 * pick(16)));
	op_begin("atr");
	int r = iso7816_atr_parse(exact.get(), a.size(), info.get());
	op_end();
	stack_fill((uint8_t)(0x11 * pick(16)));
	op_begin("atr");
	int e = emv_atr_parse(exact.get(), a.size());
	op_end();
	trace("ATR %s: structure result %d, EMV result %d; model: structure %s, EMV %s (%s)", hex(a).c_str(), r, e, m.iso_ok ? m.iso_open ? "open" : "ok" : "bad", m.emv > 0 ? "accept" : m.emv == 0 ? "reject" : "open", m.why.c_str());
	ev(0xA7, (uint64_t)(r == 0), (uint64_t)(e + 100));
	ev_bytes(0xA8, a.data(), a.size());
	ev(0xA9, hash64(m.why.data(), m.why.size()), a.size() > 1 ? a[1] >> 4 : 0);
	evaluated();
	if (r < 0) { violation("P14", "internal", "ATR " + hex(a) + ": internal error " + num(r)); }
	if (m.iso_ok && !m.iso_open && r != 0) { violation("P14", "rejected", "well-formed ATR " + hex(a) + " is rejected by the structure parser with " + num(r)); }
	if (!m.iso_ok && r == 0) { violation("P14", "accepted", "malformed ATR " + hex(a) + " (" + m.why + ") is accepted by the structure parser"); }
	if (r == 0 && m.iso_ok) {
		std::string d;
		if (field_diff(m, a, *info, &d)) { violation("P14", "decoded", "ATR " + hex(a) + ": " + d); }
	}
	if (a.empty()) {
		if (e >= 0) { violation("P14", "empty", "an empty ATR is answered with " + num(e)); }
		return;
	}
	if (m.emv == 1 && e != 0) { violation("P14", "emv-rejected", "acceptable ATR " + hex(a) + " is refused with " + num(e)); }
	if (m.emv == 0 && e == 0) { violation("P14", "emv-accepted", "ATR " + hex(a) + " is accepted although " + (m.iso_ok ? "EMV does not allow its " : "it is malformed: ") + m.why); }
	if (e != 0 && e != EMV_OUTCOME_CARD_ERROR) { violation("P14", "outcome", "ATR " + hex(a) + " is refused with " + num(e) + " instead of the card error outcome"); }
	probe(m.iso_ok ? (m.emv > 0 ? "atr_acceptable" : m.emv == 0 ? "atr_emv_refused" : "atr_extended") : "atr_malformed");
	if (m.emv == 0) { probe(("refused: " + m.why).substr(0, 40).c_str()); }
}

static void run_p14()
{
	S.reset();
	S.who = "P16";
	unsigned n = 1 + pick(3);
	bool through = chance(1, 4);
	for (unsigned k = 0; k < n; ++k) {
		bool wf;
		Bytes a = gen_atr(&wf);
		unsigned dmg = pick(4);
		if (dmg == 1 || dmg == 2) { a = damage(a); }
		if (dmg == 3 && k == 0 && pick(8) == 0) {
			// truncate at every byte
			fault("atr_truncated", a.size());
			for (size_t l = 0; l < a.size(); ++l) { check_atr(Bytes(a.begin(), a.begin() + l)); }
		}
		if (!through || a.size() > 33) { check_atr(a); continue; }
		// as received from a reader at power-up
		S.reset();
		Card c;
		c.atr = a;
		c.uid_sw = 0x6A81;
		S.cards.push_back(c);
		Reader rd;
		rd.name = "Reader 0";
		rd.features.ok = false;
		S.readers.push_back(rd);
		S.insert(0, 0);
		pcsc_ctx_t ctx = nullptr;
		op_begin("init");
		int r = pcsc_init(&ctx);
		op_end();
		if (r) { violation("P16", "init", "initialisation failed"); }
		pcsc_reader_ctx_t rc = pcsc_get_reader(ctx, 0);
		op_begin("connect");
		r = pcsc_reader_connect(rc);
		op_end();
		uint8_t buf[PCSC_MAX_ATR_SIZE];
		size_t len = sizeof(buf);
		if (r == PCSC_CARD_TYPE_CONTACT) {
			op_begin("getatr");
			int g = pcsc_reader_get_atr(rc, buf, &len);
			op_end();
			if (g == 0) {
				evaluated();
				if (Bytes(buf, buf + len) != a) { violation("P14", "delivery", "the card sent " + hex(a) + ", the power-up reports " + hex(buf, len)); }
				check_atr(Bytes(buf, buf + len));
				probe("power_up");
			} else if (!a.empty()) { violation("P14", "delivery", "the ATR " + hex(a) + " of the connected card is not reported (" + num(g) + ")"); }
		}
		op_begin("release");
		pcsc_reader_disconnect(rc);
		pcsc_release(&ctx);
		op_end();
	}
	nontrivial();
	if (run_index() < 4) { bool wf; size_t mk = choice_mark(); sample("example of a generated ATR: " + hex(gen_atr(&wf))); (void)mk; }
}

// ---------------------------------------------------------------- common set-up
static Bytes contactless_atr(unsigned nh)
{
	Bytes a{ 0x3B, (uint8_t)(0x80 | nh), 0x80, 0x01 };
	Bytes h = rbytes(nh);
	a.insert(a.end(), h.begin(), h.end());
	uint8_t x = 0;
	for (size_t i = 1; i < a.size(); ++i) { x ^= a[i]; }
	a.push_back(x);
	return a;
}
static void gen_cards(unsigned n)
{
	for (unsigned i = 0; i < n; ++i) {
		Card c;
		c.id = (int)i;
		c.protocol = pick(2) ? SCARD_PROTOCOL_T1 : SCARD_PROTOCOL_T0;
		c.mute = pick(12) == 11;
		bool wf;
		unsigned k = pick(4);
		if (k == 3) {
			c.atr = contactless_atr(pick(16));
			unsigned u = pick(6);
			if (u < 3) { c.contactless = true; c.uid = rbytes(u == 0 ? 4 : u == 1 ? 7 : 10); }
			else if (u == 3) { c.uid_sw = 0x6A81; }
			else if (u == 4) { c.uid_sw = (uint16_t)(pick(2) ? 0x6A82 : 0x6300); }
			else { c.use_raw = true; c.uid_raw = rbytes(pick(20)); if (c.uid_raw.size() >= 2 && pick(2)) { c.uid_raw[c.uid_raw.size() - 2] = 0x90; c.uid_raw.back() = 0; } }
			// contact card whose ATR resembles that of a contactless card
			if (pick(3) == 2) {
				c.contactless = false;
				switch (pick(6)) {
					case 0: c.atr.push_back((uint8_t)pick(256)); break;
					case 1: c.atr.pop_back(); break;
					case 2: c.atr[0] = 0x3F; break;
					case 3: c.atr[1] &= 0x7F; break;
					case 4: c.atr[2] = 0x81; break;
					default: c.atr[3] = (uint8_t)(pick(2) ? 0x11 : 0x00); break;
				}
				probe("nearly_contactless_atr");
			}
		} else {
			c.atr = gen_atr(&wf);
			if (k == 2) { c.atr = rbytes(pick(33)); }
			// unique per card
			if (c.atr.size() > 2) { c.atr[c.atr.size() - 2] = (uint8_t)(0xC0 + i); }
			if (c.atr.size() > 33) { c.atr.resize(33); }
			c.uid_sw = 0x6A81;
		}
		S.cards.push_back(c);
	}
}
static void gen_readers(unsigned n)
{
	for (unsigned i = 0; i < n; ++i) {
		Reader r;
		r.name = "Reader " + num(i) + std::string(pick(3) * 7, 'x');
		r.features.ok = pick(2);
		S.readers.push_back(r);
	}
}
static pcsc_ctx_t init_ok(const char* p)
{
	pcsc_ctx_t ctx = nullptr;
	op_begin("init");
	int r = pcsc_init(&ctx);
	op_end();
	if (r || !ctx) { violation(p, "init", "initialisation failed although nothing went wrong"); }
	return ctx;
}

// ---------------------------------------------------------------- waiting
// how long the machine has been up when the program starts
static void gen_uptime()
{
	static const uint64_t edge[] = { 1ull << 31, 1ull << 32, 1000ull << 31, 1000ull << 32 }; // ms
	if (pick(3) != 2) { return; }
	uint64_t ms = edge[pick(4)];
	unsigned back = pick(4) == 3 ? pick(100) : pick(12000);
	S.mono_base = (ms - back) * 1000 + pick(1000);
	S.sync_clock();
	fault("long_uptime");
}

static void run_p15()
{
	S.reset();
	gen_uptime();
	unsigned nr = 1 + pick(4);
	gen_cards(1 + pick(3));
	gen_readers(nr);
	for (unsigned i = 0; i < nr; ++i) { if (pick(6) == 5) { S.insert((int)i, (int)pick((uint32_t)S.cards.size())); } }
	S.note();
	pcsc_ctx_t ctx = init_ok("P15");
	size_t cnt = pcsc_get_reader_count(ctx);
	if (cnt != nr) { violation("P16", "readers", "number of readers"); }
	unsigned lat = pick(3);
	S.latency_den = lat == 0 ? 0 : lat == 1 ? 6 : 2;
	S.fault_den = pick(4) == 3 ? 12 : 0;
	unsigned nops = 1 + pick(4);
	std::string desc;
	for (unsigned o = 0; o < nops; ++o) {
		// what will happen around this operation
		static const unsigned tmo[] = { 0, 1, 5, 50, 250, 1000, 5000, 20000 };
		unsigned timeout = pick(4) ? tmo[pick(8)] : pick(6000);
		uint64_t span = (uint64_t)std::max(timeout, 20u) * 1500;
		unsigned ne = pick(7);
		for (unsigned i = 0; i < ne; ++i) {
			uint64_t at = S.now + (pick(8) == 7 ? 0 : pick(6) == 5 ? (uint64_t)timeout * 1000 + pick(5) * 500 - 1000 : pick((uint32_t)std::min<uint64_t>(span, 4000000000u)));
			if ((int64_t)at < (int64_t)S.now) { at = S.now; }
			int r = (int)pick(nr);
			switch (pick(12)) {
				case 0: case 1: case 2: S.schedule(at, EV_INSERT, r, pick((uint32_t)S.cards.size())); break;
				case 3: S.schedule(at, EV_INSERT, r, pick((uint32_t)S.cards.size())); S.schedule(at + pick(200000), EV_REMOVE, r); break;
				case 4: case 5: S.schedule(at, EV_REMOVE, r); break;
				case 6: S.schedule(at, EV_UNPLUG, r); if (pick(2)) { S.schedule(at + pick(2000000), EV_PLUG, r); } break;
				case 7: S.schedule(at, EV_SPURIOUS, r); if (pick(2)) { S.schedule(at + pick(200000), EV_SPURIOUS, r); } break;
				case 8: S.schedule(at, pick(2) ? EV_HOLD : EV_SHARE, r); S.schedule(at + pick(500000), pick(2) ? EV_UNHOLD : EV_UNSHARE, r); break;
				case 9: S.schedule(at, EV_CLOCK_JUMP, r, (pick(2) ? 1 : -1) * (int64_t)pick(4) * 1700000000 - (int64_t)pick(2) * 5000000); break;
				case 10: S.schedule(at, EV_REMOVE, r); S.schedule(at, EV_INSERT, r, pick((uint32_t)S.cards.size())); break;
				case 11: if (pick(3) == 2) { S.schedule(at, EV_ERROR, r, (int64_t)0x8010001D); } break;
			}
		}
		unsigned what = pick(8);
		if (what == 7) {
			S.advance(S.now + pick(3000000));
			continue;
		}
		if (what == 6) {
			unsigned r = pick(nr);
			unsigned st = 0xABCD;
			uint64_t f0 = S.faults;
			op_begin("state");
			int x = pcsc_reader_get_state(pcsc_get_reader(ctx, r), &st);
			op_end();
			evaluated();
			trace("state of reader %u: %d 0x%x", r, x, st);
			if (x < 0 && S.faults == f0) { violation("P15", "state-error", "state of reader " + num(r) + " not available although the service works"); }
			if (x > 0) { violation("P15", "state-error", "unknown result " + num(x)); }
			if (x == 0 && ((st & 0xFFFF & ~SCARD_STATE_CHANGED) != (S.state((int)r) & 0xFFFF))) { violation("P15", "state", "state of reader " + num(r) + " reported as " + num(st & 0xFFFF) + ", it is " + num(S.state((int)r))); }
			continue;
		}
		size_t idx = pick(2) ? PCSC_READER_ANY : pick(nr);
		bool bogus = pick(40) == 39;
		if (bogus) { idx = nr + pick(3); }
		bool infinite = !bogus && pick(10) == 9;
		if (infinite) {
			int r = idx == PCSC_READER_ANY ? (int)pick(nr) : (int)idx;
			uint64_t at = S.now + 1000000 + (uint64_t)pick(100) * 60000000;
			if (!S.events.empty()) { at = std::max(at, S.events.back().at + 1000); }
			S.schedule(at, EV_PLUG, r);
			S.schedule(at + 1, EV_REMOVE, r);
			S.schedule(at + 2, EV_INSERT, r, pick((uint32_t)S.cards.size()));
		}
		size_t want = idx;
		S.pending_error = 0;
		S.advance(S.now);
		S.note();
		size_t h0 = S.hist.size() - 1;
		uint64_t t0 = S.now, f0 = S.faults, l0 = S.latency_total;
		trace("wait for %s, %s ms", idx == PCSC_READER_ANY ? "any reader" : ("reader " + num((long long)idx)).c_str(), infinite ? "unlimited" : num(timeout).c_str());
		S.calls = 0;
		op_begin("wait");
		int r = pcsc_wait_for_card(ctx, infinite ? PCSC_TIMEOUT_INFINITE : timeout, &idx);
		op_end();
		uint64_t t1 = S.now, lat_us = S.latency_total - l0;
		S.note();
		bool err = S.faults != f0;
		evaluated();
		trace("  result %d, reader %lld, after %llu us", r, (long long)idx, (unsigned long long)(t1 - t0));
		ev(0x3A17, (uint64_t)(r + 8), want == PCSC_READER_ANY);
		ev(0x3A18, (t1 - t0) / 1000 >= timeout, S.present());
		uint32_t mask = want == PCSC_READER_ANY ? (1u << nr) - 1 : bogus ? 0 : 1u << want;
		std::string ctxs = "waiting for " + (want == PCSC_READER_ANY ? std::string("any reader") : "reader " + num((long long)want)) + " for " + (infinite ? "ever" : num(timeout) + " ms");
		// how long was a wanted card present?
		uint64_t best = 0, runstart = 0;
		bool inrun = false, all = true;
		int best_reader = -1;
		for (unsigned q = 0; q < nr; ++q) {
			if (!(mask & (1u << q))) { continue; }
			inrun = false;
			bool whole = true;
			for (size_t k = h0; k < S.hist.size(); ++k) {
				bool p = S.hist[k].second & (1u << q);
				uint64_t at = S.hist[k].first;
				if (!p) { whole = false; }
				if (p && !inrun) { inrun = true; runstart = at; }
				if (inrun) {
					uint64_t end = p ? (k + 1 < S.hist.size() ? S.hist[k + 1].first : t1) : at;
					if (end - runstart > best) { best = end - runstart; best_reader = (int)q; }
					if (!p) { inrun = false; }
				}
			}
			if (whole) { best = std::max(best, (uint64_t)1 << 40); best_reader = (int)q; }
		}
		(void)all;
		uint64_t slack = lat_us + 2000;
		if (r == 0) {
			if (idx >= nr || !(mask & (1u << idx))) { violation("P15", "wrong-reader", ctxs + " reports reader " + num((long long)idx)); }
			bool ok = false;
			for (size_t k = h0; k < S.hist.size(); ++k) {
				uint64_t until = k + 1 < S.hist.size() ? S.hist[k + 1].first : t1;
				if (until + lat_us >= t1 && (S.hist[k].second & (1u << idx))) { ok = true; }
			}
			if (!ok) { violation("P15", "no-card", ctxs + " reports a card in reader " + num((long long)idx) + ", which has none"); }
			if (best != (uint64_t)1 << 40 && best > slack) { violation("P15", "late", ctxs + " reported the card only " + num((long long)best) + " us after it appeared in reader " + num(best_reader)); }
			if (best == (uint64_t)1 << 40 && t1 - t0 > slack) { violation("P15", "late", ctxs + " took " + num((long long)(t1 - t0)) + " us although a card was already present"); }
			if (!infinite && t1 - t0 > (uint64_t)timeout * 1000 + slack) { violation("P15", "overrun", ctxs + " took " + num((long long)(t1 - t0)) + " us"); }
			probe("card_found");
		} else if (r > 0) {
			if (infinite) { violation("P15", "early", ctxs + " ended after " + num((long long)(t1 - t0)) + " us without a card"); }
			if (!bogus && t1 - t0 + 1500 < (uint64_t)timeout * 1000) { violation("P15", "early", ctxs + " reports a timeout after " + num((long long)(t1 - t0)) + " us"); }
			if (t1 - t0 > (uint64_t)timeout * 1000 + slack) { violation("P15", "overrun", ctxs + " took " + num((long long)(t1 - t0)) + " us"); }
			if (best > slack && best_reader >= 0) {
				bool whole = best == (uint64_t)1 << 40;
				violation("P15", "missed", ctxs + " reports a timeout although reader " + num(best_reader) + " had a card " + (whole ? "throughout" : "for " + num((long long)best) + " us"));
			}
			probe("timed_out");
		} else {
			if (!err && !bogus) { violation("P15", "error", ctxs + " fails although the service works"); }
			if (!infinite && t1 - t0 > (uint64_t)timeout * 1000 + slack) { violation("P15", "overrun", ctxs + " took " + num((long long)(t1 - t0)) + " us"); }
			probe("wait_failed");
		}
		if (S.calls > 1) { probe("wait_resumed"); }
		desc += ctxs + " -> " + num(r) + " after " + num((long long)(t1 - t0)) + " us; ";
		nontrivial();
	}
	S.fault_den = 0;
	op_begin("release");
	pcsc_release(&ctx);
	op_end();
	if (run_index() < 4 && !desc.empty()) { sample(num(nr) + " readers: " + desc); }
}

// ---------------------------------------------------------------- connections
struct Conn { bool connected = false, unsure = false; int card = -1; uint32_t inserted = 0; };

static void run_p16()
{
	S.reset();
	unsigned nr = 1 + pick(3);
	gen_cards(2 + pick(3));
	gen_readers(nr);
	for (unsigned i = 0; i < nr; ++i) {
		if (pick(8) == 7) { S.readers[i].plugged = false; }
		if (pick(4)) { S.insert((int)i, (int)pick((uint32_t)S.cards.size())); }
	}
	// exchanges: the card answers with drawn bytes, or not at all
	struct X { Bytes got, gave; bool link_ok; unsigned n; } x{ {}, {}, false, 0 };
	X* xp = &x;
	for (auto& c : S.cards) {
		c.trx = [xp](const Bytes& tx, Bytes& rx, size_t) {
			xp->got = tx;
			xp->n++;
			xp->link_ok = pick(8) != 7;
			xp->gave = rbytes(pick(5) == 4 ? pick(300) : 2 + pick(12));
			rx = xp->gave;
			return xp->link_ok;
		};
	}
	unsigned mode = pick(4);
	S.fault_den = mode == 1 ? 15 : mode == 2 ? 4 : 0;
	S.fail_call = mode == 3 ? (int)pick(24) : -1;
	S.fail_kills = pick(2);
	S.set_junk_on_failure = pick(2);
	S.list_grows = pick(4) == 3;
	S.latency_den = pick(2) ? 0 : 3;
	pcsc_ctx_t ctx = nullptr;
	std::vector<int> map;               // reader index -> simulated reader
	std::vector<Conn> conn;
	unsigned nops = 3 + pick(12);
	std::string desc;
	auto find = [](const std::string& n) { for (size_t i = 0; i < S.readers.size(); ++i) { if (S.readers[i].name == n) { return (int)i; } } return -1; };
	auto release = [&]() {
		op_begin("release");
		pcsc_release(&ctx);
		op_end();
		evaluated();
		if (ctx) { violation("P16", "release", "context pointer survives the release"); }
		if (S.open_contexts()) { violation("P16", "context-leak", num((long long)S.open_contexts()) + " contexts open after the release"); }
		if (S.open_handles()) { violation("P16", "handle-leak", num((long long)S.open_handles()) + " connections open after the release"); }
		if (alloc_live()) { violation("P16", "memory-leak", num((long long)alloc_live()) + " allocations left after the release"); }
		conn.clear();
		map.clear();
		desc += "release; ";
	};
	for (unsigned o = 0; o < nops; ++o) {
		if (!ctx) {
			bool oom = pick(6) == 5;
			if (oom) { if (pick(2)) { alloc_fail_at(1 + pick(5)); } else { alloc_fail_from(1 + pick(5)); } }
			uint64_t f0 = S.faults, a0 = alloc_failed();
			S.list_calls = 0;
			op_begin("init");
			int r = pcsc_init(&ctx);
			op_end();
			alloc_fail_clear();
			evaluated();
			ev(0x16, 1, r == 0);
			trace("init: %d", r);
			desc += "init " + num(r) + "; ";
			size_t plugged = 0;
			for (auto& q : S.readers) { plugged += q.plugged; }
			if (r == 0) {
				if (!ctx) { violation("P16", "init", "success without a context"); }
				if (S.open_contexts() != 1) { violation("P16", "context-leak", num((long long)S.open_contexts()) + " contexts open after initialisation"); }
				if (S.open_handles() > S.disc_failed) { violation("P16", "handle-leak", num((long long)S.open_handles()) + " connections open after initialisation"); }
				size_t n = pcsc_get_reader_count(ctx);
				if (n != plugged) { violation("P16", "readers", num((long long)n) + " readers reported, " + num((long long)plugged) + " present"); }
				for (size_t i = 0, k = 0; i < S.readers.size(); ++i) {
					if (!S.readers[i].plugged) { continue; }
					const char* nm = pcsc_reader_get_name(pcsc_get_reader(ctx, k));
					if (!nm || S.readers[i].name != nm) { violation("P16", "readers", "reader " + num((long long)k) + " has the wrong name"); }
					++k;
				}
				for (size_t i = 0; i < n; ++i) { map.push_back(find(pcsc_reader_get_name(pcsc_get_reader(ctx, i)))); conn.push_back(Conn()); }
				if (pcsc_get_reader(ctx, n)) { violation("P16", "readers", "a reader beyond the last one"); }
			} else {
				if (r > 0) { violation("P16", "init", "unknown result " + num(r)); }
				if (S.open_contexts()) { violation("P16", "context-leak", "context left open after a failed initialisation"); }
				if (alloc_live()) { violation("P16", "memory-leak", num((long long)alloc_live()) + " allocations left after a failed initialisation"); }
				if (S.faults == f0 && alloc_failed() == a0 && plugged && !S.list_grows) { violation("P16", "init", "initialisation failed although nothing went wrong"); }
				if (pick(2)) {
					// releasing after a failure must be harmless
					op_begin("release");
					pcsc_release(&ctx);
					op_end();
				}
				ctx = nullptr;
				probe("init_failed");
				if (pick(2)) { S.fault_den = 0; }
				if (!plugged) { S.readers[0].plugged = true; }
			}
			nontrivial();
			continue;
		}
		if (map.empty()) { release(); continue; }
		// the world moves on
		if (pick(3) == 2) {
			int r = (int)pick(nr);
			static const EventKind k[] = { EV_INSERT, EV_REMOVE, EV_REMOVE, EV_HOLD, EV_UNHOLD, EV_SHARE, EV_UNSHARE, EV_UNPLUG, EV_PLUG };
			EventKind kk = k[pick(9)];
			S.apply(Event{ S.now, kk, r, (int64_t)pick((uint32_t)S.cards.size()) });
			if (kk == EV_REMOVE && pick(2)) { S.apply(Event{ S.now, EV_INSERT, r, (int64_t)pick((uint32_t)S.cards.size()) }); probe("card_swapped"); }
		}
		unsigned i = pick((uint32_t)map.size());
		int sr = map[i];
		pcsc_reader_ctx_t rc = pcsc_get_reader(ctx, i);
		Conn& c = conn[i];
		uint64_t f0 = S.faults, d0 = S.disc_failed;
		unsigned opk = pick(9);
		if (!c.connected && pick(2)) { opk = 0; }
		switch (opk) {
			case 0: case 1: {
				size_t before = S.open_handles_on(sr);
				const Reader& q = S.readers[sr];
				bool usable = q.plugged && q.card >= 0 && !q.held && !q.shared && !S.cards[q.card].mute;
				bool was = c.connected;
				// type expected
				int type = PCSC_CARD_TYPE_CONTACT;
				int card = q.card;
				if (usable) {
					const Card& k = S.cards[card];
					if (k.atr.size() > 4 && k.atr[0] == 0x3B && (k.atr[1] & 0x80) && k.atr[2] == 0x80 && k.atr[3] == 0x01 && k.atr.size() == 5u + (k.atr[1] & 15)) {
						Bytes a = k.use_raw ? k.uid_raw : k.contactless ? k.uid : Bytes();
						if (!k.use_raw) { uint16_t sw = k.contactless ? 0x9000 : k.uid_sw; a.push_back((uint8_t)(sw >> 8)); a.push_back((uint8_t)sw); }
						if (a.size() < 2 || a.size() > 12) { type = -1; }
						else {
							unsigned sw = a[a.size() - 2] << 8 | a.back();
							type = sw == 0x9000 ? PCSC_CARD_TYPE_CONTACTLESS : sw == 0x6A81 ? PCSC_CARD_TYPE_CONTACT : -1;
						}
					}
					if (k.atr.size() > 33) { type = -1; }
				}
				op_begin("connect");
				int r = pcsc_reader_connect(rc);
				op_end();
				evaluated();
				trace("connect reader %u: %d", i, r);
				ev(0x16, 2, (uint64_t)(r + 10) * 4 + usable * 2 + was);
				desc += "connect " + num(i) + " -> " + num(r) + "; ";
				bool lost = S.disc_failed != d0;   // a connection could not be closed
				if (r > 0) {
					if (!usable) { violation("P16", "connect", "connect succeeds without a usable card"); }
					if (type < 0) { violation("P16", "connect", "connect succeeds although the card identification failed"); }
					if (r != type) { violation("P16", "card-type", "card type " + num(r) + " instead of " + num(type)); }
					if (S.open_handles_on(sr) != 1) { violation("P16", "handle-leak", num((long long)S.open_handles_on(sr)) + " connections to the reader after connect"); }
					c.connected = true;
					c.unsure = false;
					c.card = card;
					c.inserted = q.inserted;
					probe("connected");
				} else {
					if (r == 0) { violation("P16", "connect", "connect reports no type"); }
					bool dead = false;   // an earlier connection could not be closed and is of no use any more
					for (auto& h : S.handles) { dead |= h.second.reader == sr && h.second.st == Handle::DEAD; }
					if (usable && type > 0 && !was && !before && !dead && S.faults == f0) { violation("P16", "connect", "connect fails although nothing went wrong"); }
					size_t now = S.open_handles_on(sr);
					if (now > 1) { violation("P16", "handle-leak", num((long long)now) + " connections to the reader after a failed connect"); }
					if (now && !was && !lost && !before) { violation("P16", "handle-leak", "failed connect leaves the card connected"); }
					c.connected = now && was;
					c.unsure = c.connected;
					probe("connect_failed");
				}
				break;
			}
			case 2: {
				op_begin("disconnect");
				int r = pcsc_reader_disconnect(rc);
				op_end();
				evaluated();
				trace("disconnect reader %u: %d", i, r);
				ev(0x16, 3, (uint64_t)(r + 10) * 2 + c.connected);
				desc += "disconnect " + num(i) + " -> " + num(r) + "; ";
				if (c.connected && r != 0 && S.faults == f0) {
					bool dead = false;
					for (auto& h : S.handles) { dead |= h.second.reader == sr && h.second.st == Handle::DEAD; }
					if (!dead) { violation("P16", "disconnect", "disconnect fails although nothing went wrong"); }
				}
				if (r == 0) {
					if (S.open_handles_on(sr) > (c.connected ? 0 : S.disc_failed)) { violation("P16", "handle-leak", "connection still open after disconnect"); }
					c.connected = false;
				} else if (c.connected) { c.unsure = true; c.connected = S.open_handles_on(sr) > 0; }
				break;
			}
			case 3: case 4: {
				std::unique_ptr<uint8_t[]> b(new uint8_t[PCSC_MAX_ATR_SIZE]);
				size_t len = PCSC_MAX_ATR_SIZE;
				op_begin("getatr");
				int r = pcsc_reader_get_atr(rc, b.get(), &len);
				op_end();
				evaluated();
				trace("ATR of reader %u: %d %s", i, r, r == 0 ? hex(b.get(), len).c_str() : "");
				ev(0x16, 4, (uint64_t)(r + 10) * 2 + c.connected);
				if (r == 0) {
					if (!c.connected && !c.unsure) { violation("P16", "stale", "ATR " + hex(b.get(), len) + " reported although no card is connected"); }
					if (Bytes(b.get(), b.get() + len) != S.cards[c.card].atr) { violation("P16", "wrong-card", "ATR " + hex(b.get(), len) + " reported, the connected card has " + hex(S.cards[c.card].atr)); }
					probe("atr_reported");
				} else if (c.connected && !c.unsure && S.open_handles_on(sr) && S.disc_failed == 0 && S.cards[c.card].atr.size()) {
					// a contact card must have its ATR reported
					const Card& k = S.cards[c.card];
					bool maybe_less = k.atr.size() > 4 && k.atr[2] == 0x80 && k.atr[3] == 0x01;
					if (!maybe_less) { violation("P16", "no-atr", "no ATR reported for the connected card"); }
				}
				break;
			}
			case 5: case 6: case 7: {
				Bytes tx = rbytes(1 + pick(12));
				if (tx[0] == 0xFF) { tx[0] = 0; }
				size_t cap = pick(4) == 3 ? pick(6) : 258;
				if (!cap) { cap = 2; }
				std::unique_ptr<uint8_t[]> b(new uint8_t[cap]);
				std::unique_ptr<uint8_t[]> t(new uint8_t[tx.size()]);
				memcpy(t.get(), tx.data(), tx.size());
				size_t len = cap;
				x = X{ {}, {}, false, 0 };
				op_begin("trx");
				int r = pcsc_reader_trx(rc, t.get(), tx.size(), b.get(), &len);
				op_end();
				evaluated();
				trace("exchange reader %u: %d", i, r);
				ev(0x16, 5, (uint64_t)(r + 10) * 4 + c.connected * 2 + (x.n > 0));
				desc += "exchange " + num(i) + " -> " + num(r) + "; ";
				if (x.n && x.got != tx) { violation("P16", "command", "the card received " + hex(x.got) + " instead of " + hex(tx)); }
				if (x.n > 1) { violation("P16", "command", "the command was sent " + num(x.n) + " times"); }
				if (r == 0) {
					if (!x.n || !x.link_ok || S.faults != f0) { violation("P16", "exchange", "exchange succeeds without an answer from the card"); }
					if (len > cap || Bytes(b.get(), b.get() + len) != x.gave) { violation("P16", "exchange", "the card answered " + hex(x.gave) + ", reported is " + hex(b.get(), std::min(len, cap))); }
					probe("exchanged");
				} else {
					if (r > 0) { violation("P16", "exchange", "unknown result " + num(r)); }
					bool alive = c.connected && !c.unsure && S.readers[sr].plugged && S.readers[sr].card >= 0 && S.readers[sr].inserted == c.inserted;
					bool dead = false;
					for (auto& h : S.handles) { dead |= h.second.reader == sr && h.second.st == Handle::DEAD; }
					if (alive && !dead && S.faults == f0 && S.open_handles_on(sr) == 1 && !(x.n && (!x.link_ok || x.gave.size() > cap))) { violation("P16", "exchange", "exchange with the connected card fails although nothing went wrong"); }
					probe("exchange_failed");
				}
				break;
			}
			case 8: release(); break;
		}
	}
	S.fault_den = 0;
	S.fail_call = -1;
	if (ctx) { release(); }
	evaluated();
	if (alloc_live()) { violation("P16", "memory-leak", "memory left at the end"); }
	if (S.open_contexts() || S.open_handles()) { violation("P16", "handle-leak", "connections left at the end"); }
	if (run_index() < 4) { sample(num(nr) + " readers: " + desc); }
}

// ---------------------------------------------------------------- features and properties
static void run_p17()
{
	S.reset();
	unsigned nr = 1 + pick(4);
	gen_cards(2);
	for (unsigned i = 0; i < nr; ++i) {
		Reader r;
		r.name = "Reader " + num(i);
		gen_answers(r);
		S.readers.push_back(r);
		if (pick(3) == 0) { S.insert((int)i, (int)pick(2)); }
		if (pick(12) == 11) { if (S.readers[i].card < 0) { S.insert((int)i, 0); } S.readers[i].held = true; }
	}
	unsigned fm = pick(4);
	if (fm == 2) { S.fail_call = 3 + (int)pick(nr * 5); }
	if (fm == 3) { S.fault_den = 0; }
	pcsc_ctx_t ctx = nullptr;
	stack_fill((uint8_t)(0x11 * pick(16)));
	op_begin("init");
	int r = pcsc_init(&ctx);
	op_end();
	if (r || !ctx) { violation("P17", "init", "a reader's answers make the initialisation fail"); }
	if (pcsc_get_reader_count(ctx) != nr) { violation("P17", "readers", "readers missing"); }
	for (unsigned i = 0; i < nr; ++i) {
		pcsc_reader_ctx_t rc = pcsc_get_reader(ctx, i);
		auto& del = S.delivered[(int)i];
		const Bytes* l = nullptr;
		auto it = del.find(0);
		if (it != del.end() && it->second.ok) { l = &it->second.data; }
		bool valid = l && l->size() % 6 == 0;
		std::map<unsigned, uint32_t> feat;
		if (valid) {
			for (size_t p = 0; p < l->size(); p += 6) {
				if ((*l)[p + 1] != 4) { valid = false; break; }
				uint32_t code = (uint32_t)(*l)[p + 2] << 24 | (uint32_t)(*l)[p + 3] << 16 | (uint32_t)(*l)[p + 4] << 8 | (*l)[p + 5];
				feat.insert({ (*l)[p], code });
			}
			if (!valid) { feat.clear(); }
		}
		if (!S.readers[i].held && it == del.end() && S.faults == 0) { violation("P17", "not-asked", "reader " + num(i) + " was not asked for its features"); }
		op_begin("props");
		for (unsigned t = 0; t < 300; ++t) {
			bool h = pcsc_reader_has_feature(rc, t);
			if (h != (feat.count(t) != 0)) { violation("P17", "feature", "reader " + num(i) + ": feature " + num(t) + (h ? " reported but not declared" : " declared but not reported") + (l ? valid ? "" : " (malformed answer)" : " (no answer)")); }
		}
		op_end();
		evaluated();
		if (feat.size()) { probe("features_reported"); }
		// properties
		auto answer = [&](unsigned tag) -> const Answer* {
			auto f = feat.find(tag);
			if (f == feat.end()) { return nullptr; }
			auto d = del.find(f->second);
			return d == del.end() ? nullptr : &d->second;
		};
		auto expected_answer = [&](unsigned tag) -> const Answer* {
			auto f = feat.find(tag);
			if (f == feat.end()) { return nullptr; }
			auto d = S.readers[i].controls.find(f->second);
			return d == S.readers[i].controls.end() ? nullptr : &d->second;
		};
		// must have been asked when nothing failed before
		bool clean = S.faults == 0;
		for (unsigned tag : { 0x0Au, 0x11u, 0x12u }) {
			const Answer* want = expected_answer(tag);
			if (!want) { continue; }
			if (clean && !answer(tag)) { violation("P17", "not-asked", "reader " + num(i) + " was not asked for the properties of feature " + num(tag)); }
			if (!want->ok || want->data.size() > 264 || (tag != 0x12 && want->data.size() != 4)) { clean = false; }
		}
		const Answer* tl = answer(0x12);
		Bytes props = tl && tl->ok ? tl->data : Bytes();
		const Answer* pin = answer(0x0A);
		const Answer* dsp = answer(0x11);
		bool pin_ok = pin && pin->ok && pin->data.size() == 4, dsp_ok = dsp && dsp->ok && dsp->data.size() == 4;
		// well-formed list?
		bool wf = true;
		std::map<unsigned, Bytes> pv;
		for (size_t p = 0; p < props.size();) {
			if (p + 2 > props.size() || p + 2 + props[p + 1] > props.size()) { wf = false; break; }
			pv.insert({ props[p], Bytes(props.begin() + p + 2, props.begin() + p + 2 + props[p + 1]) });
			p += 2 + props[p + 1];
		}
		for (unsigned k = 0; k < 12; ++k) {
			unsigned id = k < 10 ? svc::PROPERTIES[k] : pick(300);
			Bytes want;
			bool have = pv.count(id) != 0;
			if (have) { want = pv[id]; }
			bool have_fb = false;
			Bytes fb;
			if (id == 1 && pin_ok) { have_fb = true; fb = Bytes(pin->data.begin(), pin->data.begin() + 2); }
			if (id == 4 && dsp_ok) { have_fb = true; fb = Bytes(dsp->data.begin(), dsp->data.begin() + 2); }
			if (id == 5 && dsp_ok) { have_fb = true; fb = Bytes(dsp->data.begin() + 2, dsp->data.begin() + 4); }
			if (!have && have_fb) { want = fb; }
			size_t cap;
			switch (pick(4)) { case 0: cap = 300; break; case 1: cap = want.size(); break; case 2: cap = want.size() + 1; break; default: cap = want.size() ? want.size() - 1 : 0; }
			std::unique_ptr<uint8_t[]> b(new uint8_t[cap ? cap : 1]);
			size_t len = cap;
			op_begin("props");
			int g = pcsc_reader_get_property(rc, id, b.get(), &len);
			op_end();
			evaluated();
			std::string where = "reader " + num(i) + ": property " + num(id);
			if (g == 0) {
				Bytes got(b.get(), b.get() + std::min(len, cap));
				if (len > cap) { violation("P17", "property", where + " reported longer than the buffer"); }
				bool ok = (have || have_fb) && got == want;
				if (!wf && have_fb && got == fb) { ok = true; }
				if (!ok) { violation("P17", "property", where + " reported as " + hex(got) + ((have || have_fb) ? ", declared as " + hex(want) : " but not declared")); }
				probe("property_reported");
			} else if ((have || have_fb) && want.size() <= cap && wf) {
				violation("P17", "property", where + " declared as " + hex(want) + " but not reported (" + num(g) + ")");
			} else if ((have || have_fb) && want.size() > cap && g > 0 && wf) {
				violation("P17", "property", where + " is declared but reported as unknown when the buffer is too small");
			} else if (!have && !have_fb && wf && g < 0) {
				violation("P17", "property", where + " is not declared but requesting it fails with " + num(g));
			}
		}
		ev(0x17, valid * 8 + wf * 4 + pin_ok * 2 + dsp_ok, feat.size());
	}
	// the readers remain usable
	S.fail_call = -1;
	for (unsigned i = 0; i < nr; ++i) {
		if (S.readers[i].held || S.open_handles_on((int)i)) { continue; }
		if (S.readers[i].card < 0) { S.insert((int)i, 0); }
		Card& c = S.cards[S.readers[i].card];
		c.mute = false;
		c.atr = Bytes{ 0x3B, 0x00 };
		op_begin("connect");
		int t = pcsc_reader_connect(pcsc_get_reader(ctx, i));
		op_end();
		evaluated();
		if (t != PCSC_CARD_TYPE_CONTACT) { violation("P17", "unusable", "reader " + num(i) + " cannot be used after its answers (" + num(t) + ")"); }
		op_begin("disconnect");
		pcsc_reader_disconnect(pcsc_get_reader(ctx, i));
		op_end();
	}
	op_begin("release");
	pcsc_release(&ctx);
	op_end();
	nontrivial();
	if (run_index() < 4) { sample(num(nr) + " readers; the first answers the feature request with " + (S.readers[0].features.ok ? hex(S.readers[0].features.data).substr(0, 200) : "an error")); }
}

int main(int argc, char** argv)
{
	return main_driver(argc, argv, {
		{ "P14", run_p14, "atr" },
		{ "P15", run_p15, "wait,state" },
		{ "P16", run_p16, "init,connect,disconnect,getatr,trx,release" },
		{ "P17", run_p17, "init,props" },
	});
}
