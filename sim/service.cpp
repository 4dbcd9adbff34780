#include "service.hpp"
#include <winscard.h>
#include <reader.h>
#include <algorithm>
using namespace sim;

namespace svc {
Service S;

void Service::reset()
{
	*this = Service();
	wall_base = 1700000000ull * 1000000;
	mono_base = 0;
	on_sleep = [](uint64_t us) { S.advance(S.now + us); };
	sync_clock();
}
uint32_t Service::present() const
{
	uint32_t m = 0;
	for (size_t i = 0; i < readers.size(); ++i) { if (readers[i].plugged && readers[i].card >= 0) { m |= 1u << i; } }
	return m;
}
void Service::note()
{
	hist.push_back({ now, present() });
	std::vector<uint32_t> v;
	for (size_t i = 0; i < readers.size(); ++i) { v.push_back(state((int)i)); }
	states.push_back({ now, v });
}
void Service::sync_clock()
{
	sim::mono_us = (int64_t)(mono_base + now);
	uint64_t w = wall_base + (freeze_wall ? 0 : now);
	clk.sec = (int64_t)(w / 1000000);
	clk.nsec = (int64_t)(w % 1000000) * 1000;
	if (walls.empty() || walls.back().second != clk.sec) { walls.push_back({ now, clk.sec }); }
}
void Service::insert(int r, int c)
{
	Reader& x = readers[r];
	x.card = c;
	x.inserted = ++insert_no;
	++x.counter;
	if (cards[c].power) { cards[c].power(); }
}
void Service::remove(int r)
{
	Reader& x = readers[r];
	if (x.card >= 0) { x.card = -1; ++x.counter; }
	x.held = false;
	x.shared = false;
}
void Service::schedule(uint64_t at, EventKind k, int r, int64_t arg)
{
	Event e{ at, k, r, arg };
	auto it = std::upper_bound(events.begin(), events.end(), e, [](const Event& a, const Event& b) { return a.at < b.at; });
	events.insert(it, e);
}
static const char* evname(int k) { static const char* n[] = { "insert", "remove", "unplug", "plug", "hold", "unhold", "share", "unshare", "error", "spurious", "clock_jump" }; return n[k]; }
void Service::apply(const Event& e)
{
	trace("  t=%llu.%03llu ms: %s reader %d %lld", (unsigned long long)(e.at / 1000), (unsigned long long)(e.at % 1000), evname(e.kind), e.reader, (long long)e.arg);
	ev(0xE7E, e.kind, (uint64_t)e.reader);
	switch (e.kind) {
		case EV_INSERT: if (readers[e.reader].card < 0) { insert(e.reader, (int)e.arg); } break;
		case EV_REMOVE: remove(e.reader); break;
		case EV_UNPLUG: fault("reader_unplugged"); readers[e.reader].plugged = false; remove(e.reader); break;
		case EV_PLUG: readers[e.reader].plugged = true; ++readers[e.reader].counter; break;
		case EV_HOLD: if (!open_handles_on(e.reader) && readers[e.reader].card >= 0) { fault("card_seized"); readers[e.reader].held = true; } break;
		case EV_UNHOLD: readers[e.reader].held = false; break;
		case EV_SHARE: if (!open_handles_on(e.reader) && readers[e.reader].card >= 0) { readers[e.reader].shared = true; } break;
		case EV_UNSHARE: readers[e.reader].shared = false; break;
		case EV_ERROR: pending_error = (uint32_t)e.arg; break;
		case EV_SPURIOUS: fault("unrelated_change"); spurious_mask |= 1u << e.reader; ++readers[e.reader].counter; break;
		case EV_CLOCK_JUMP: fault("clock_jump"); wall_base += (uint64_t)e.arg; break;
	}
	note();
}
void Service::advance(uint64_t to)
{
	while (!events.empty() && events.front().at <= to) {
		Event e = events.front();
		events.erase(events.begin());
		if (e.at > now) { add_time(e.at - now); now = e.at; }
		apply(e);
	}
	if (to > now) { add_time(to - now); now = to; }
	sync_clock();
}
uint32_t Service::state(int r) const
{
	const Reader& x = readers[r];
	if (!x.plugged) { return SCARD_STATE_UNKNOWN; }
	if (x.unavailable) { return SCARD_STATE_UNAVAILABLE; }
	if (x.card < 0) { return SCARD_STATE_EMPTY; }
	uint32_t s = SCARD_STATE_PRESENT;
	if (cards[x.card].mute) { s |= SCARD_STATE_MUTE; }
	if (x.unpowered) { s |= SCARD_STATE_UNPOWERED; }
	bool own = false;
	for (auto& h : handles) { if (h.second.st == Handle::OPEN && h.second.reader == r && h.second.share == SCARD_SHARE_EXCLUSIVE) { own = true; } }
	if (x.held || own) { s |= SCARD_STATE_EXCLUSIVE; } else if (x.shared) { s |= SCARD_STATE_INUSE; }
	return s;
}
size_t Service::open_handles() const { size_t n = 0; for (auto& h : handles) { n += h.second.st == Handle::OPEN; } return n; }
size_t Service::open_handles_on(int r) const { size_t n = 0; for (auto& h : handles) { n += h.second.st == Handle::OPEN && h.second.reader == r; } return n; }
size_t Service::open_contexts() const { size_t n = 0; for (auto& c : ctxs) { n += c.second == 1; } return n; }
void Service::misuse(const char* cls, const std::string& m)
{
	trace("  misuse of the service: %s: %s", cls, m.c_str());
	violation(who, cls, m);
}
static const uint32_t errors[] = { 0x80100013, 0x8010001D, 0x8010001E, 0x80100001, 0x8010002F, 0x80100006, 0x80100003, 0x80100017 };
bool Service::call(const char* name, uint32_t* err)
{
	if (on_call) { on_call(); }
	uint64_t n = calls++;
	trace("t=%llu.%03llu ms: %s", (unsigned long long)(now / 1000), (unsigned long long)(now % 1000), name);
	ev(0x5CA, hash64(name, strlen(name)));
	if (calls > call_cap) { violation(prop(), "endless", std::string("more than ") + std::to_string(call_cap) + " service calls, the last one " + name); }
	if (latency_den && pick(latency_den) == latency_den - 1) {
		uint64_t d = 1 + pick(3000);
		latency_total += d;
		advance(now + d);
	} else {
		advance(now);
	}
	bool f = (fail_call >= 0 && n == (uint64_t)fail_call) || (fault_den && pick(fault_den) == fault_den - 1);
	if (f) {
		*err = errors[pick(8)];
		++faults;
		fault((std::string("fail_") + name).c_str());
		return true;
	}
	return false;
}
static Handle* use(long h, const char* who)
{
	auto it = S.handles.find(h);
	if (it == S.handles.end()) { S.misuse("unknown-handle", std::string(who) + " with a handle that was never opened (" + std::to_string(h) + ")"); return nullptr; }
	if (it->second.st == Handle::CLOSED) { S.misuse("closed-handle", std::string(who) + " with a handle that is already closed"); return nullptr; }
	return &it->second;
}
static bool usectx(long c, const char* who)
{
	auto it = S.ctxs.find(c);
	if (it == S.ctxs.end()) { S.misuse("unknown-context", std::string(who) + " with a context that was never established (" + std::to_string(c) + ")"); return false; }
	if (it->second != 1) { S.misuse("closed-context", std::string(who) + " with a context that is already released"); return false; }
	return true;
}
static const unsigned FEATURES[] = { 0x06, 0x07, 0x08, 0x09, 0x0A, 0x11, 0x12, 0x01, 0x13, 0x20, 0xFF };
const unsigned PROPERTIES[] = { 1, 4, 5, 6, 7, 0x0B, 0x0C, 2, 0x10, 0xFF };

static void add_feature(Bytes& l, unsigned tag, uint32_t code, unsigned len = 4)
{
	l.push_back((uint8_t)tag);
	l.push_back((uint8_t)len);
	for (int s = 24; s >= 0; s -= 8) { l.push_back((uint8_t)(code >> s)); }
}
void gen_answers(Reader& r)
{
	unsigned style = pick(8);
	Bytes l;
	unsigned n = pick(6) == 5 ? pick(46) : pick(8);
	bool used[256] = {};
	std::vector<unsigned> tags;
	if (pick(3)) { tags.push_back(0x12); }
	if (pick(3)) { tags.push_back(0x0A); }
	if (pick(3)) { tags.push_back(0x11); }
	for (unsigned k = 0; k < n; ++k) { tags.push_back(pick(4) ? FEATURES[pick(11)] : pick(256)); }
	// order is the reader's
	for (size_t k = tags.size(); k > 1; --k) { std::swap(tags[k - 1], tags[pick((uint32_t)k)]); }
	for (unsigned t : tags) {
		bool special = t == 0x0A || t == 0x11 || t == 0x12;
		if (special && used[t]) { continue; }
		used[t] = true;
		uint32_t code = pick(3) ? 0x42330000 + (uint32_t)t : (uint32_t)pick(0xFFFFFFFF);
		if (code == 0x42000000 + 3400 || !code) { code += 1 + t; }
		add_feature(l, t, code);
		if (!special) { continue; }
		Answer a;
		a.ok = pick(6) != 5;
		if (!a.ok) { a.claim = pick(2) ? pick(300) : 0; }
		if (t == 0x12) {
			unsigned m = pick(7);
			for (unsigned q = 0; q < m; ++q) {
				unsigned len = pick(5) == 4 ? pick(30) : 1 + pick(4);
				a.data.push_back((uint8_t)PROPERTIES[pick(10)]);
				a.data.push_back((uint8_t)len);
				Bytes v = rbytes(len);
				a.data.insert(a.data.end(), v.begin(), v.end());
			}
			if (pick(5) == 4) {
				switch (pick(4)) {
					case 0: if (!a.data.empty()) { a.data.resize(pick((uint32_t)a.data.size())); } break;
					case 1: a.data.push_back((uint8_t)PROPERTIES[pick(10)]); a.data.push_back((uint8_t)(1 + pick(255))); break;
					case 2: a.data.push_back((uint8_t)PROPERTIES[pick(10)]); break;
					case 3: if (!a.data.empty()) { a.data[pick((uint32_t)a.data.size())] = (uint8_t)pick(256); } break;
				}
				fault("property_answer_damaged");
			}
			if (pick(20) == 19) { a.data = rbytes(264); }
			if (pick(20) == 19) { a.data.resize(264 + pick(20)); }
		} else {
			a.data = rbytes(4);
			if (pick(5) == 4) { a.data.resize(pick(8)); fault("property_answer_damaged"); }
		}
		r.controls[code] = a;
	}
	if (style == 7) {
		fault("feature_answer_damaged");
		switch (pick(5)) {
			case 0: if (!l.empty()) { l.resize(pick((uint32_t)l.size())); } break;
			case 1: if (!l.empty()) { l[1 + 6 * pick((uint32_t)l.size() / 6)] = (uint8_t)pick(256); } break;
			case 2: { Bytes x = rbytes(1 + pick(7)); l.insert(l.end(), x.begin(), x.end()); break; }
			case 3: l = rbytes(pick(264)); break;
			case 4: l.resize(265 + pick(10)); break;
		}
	}
	r.features.data = l;
	r.features.ok = style != 6;
	if (!r.features.ok) { r.features.claim = pick(2) ? pick(300) : 0; fault("feature_request_refused"); }
}
static int find_reader(const char* name)
{
	for (size_t i = 0; i < S.readers.size(); ++i) { if (S.readers[i].name == name) { return (int)i; } }
	return -1;
}
}
using namespace svc;

extern "C" {
const SCARD_IO_REQUEST g_rgSCardT0Pci = { SCARD_PROTOCOL_T0, sizeof(SCARD_IO_REQUEST) };
const SCARD_IO_REQUEST g_rgSCardT1Pci = { SCARD_PROTOCOL_T1, sizeof(SCARD_IO_REQUEST) };
const SCARD_IO_REQUEST g_rgSCardRawPci = { SCARD_PROTOCOL_RAW, sizeof(SCARD_IO_REQUEST) };

const char* pcsc_stringify_error(const LONG) { return "simulated"; }
SCARD_IO_REQUEST* sim_unused_pci;

LONG SCardEstablishContext(DWORD, LPCVOID, LPCVOID, LPSCARDCONTEXT ctx)
{
	uint32_t e;
	if (S.call("SCardEstablishContext", &e)) { if (S.set_junk_on_failure) { *ctx = 0; } return (LONG)e; }
	long c = 0x1000000 + (++S.next_ctx) * 17;
	S.ctxs[c] = 1;
	*ctx = c;
	return SCARD_S_SUCCESS;
}
LONG SCardReleaseContext(SCARDCONTEXT ctx)
{
	uint32_t e;
	if (!usectx(ctx, "SCardReleaseContext")) { return (LONG)SCARD_E_INVALID_HANDLE; }
	bool f = S.call("SCardReleaseContext", &e);
	// the context is gone either way, and the connections made through it
	S.ctxs[ctx] = 0;
	for (auto& h : S.handles) { if (h.second.ctx == ctx && h.second.st == Handle::OPEN) { h.second.st = Handle::CLOSED; } }
	return f ? (LONG)e : SCARD_S_SUCCESS;
}
LONG SCardListReaders(SCARDCONTEXT ctx, LPCSTR, LPSTR out, LPDWORD len)
{
	uint32_t e;
	if (!usectx(ctx, "SCardListReaders")) { return (LONG)SCARD_E_INVALID_HANDLE; }
	if (S.call("SCardListReaders", &e)) { return (LONG)e; }
	if (++S.list_calls == 2 && S.list_grows) {
		for (auto& r : S.readers) { if (!r.plugged) { r.plugged = true; fault("reader_list_changed"); break; } }
	}
	std::string all;
	std::vector<int> names;
	for (size_t i = 0; i < S.readers.size(); ++i) { auto& r = S.readers[i]; if (r.plugged) { names.push_back((int)i); all += r.name; all += '\0'; } }
	if (all.empty()) { return (LONG)SCARD_E_NO_READERS_AVAILABLE; }
	all += '\0';
	if (!out) { *len = all.size(); return SCARD_S_SUCCESS; }
	if (*len < all.size()) { *len = all.size(); return (LONG)SCARD_E_INSUFFICIENT_BUFFER; }
	memcpy(out, all.data(), all.size());
	*len = all.size();
	S.listed = names;
	return SCARD_S_SUCCESS;
}
LONG SCardConnect(SCARDCONTEXT ctx, LPCSTR name, DWORD share, DWORD protocols, LPSCARDHANDLE handle, LPDWORD protocol)
{
	uint32_t e;
	if (!usectx(ctx, "SCardConnect")) { return (LONG)SCARD_E_INVALID_HANDLE; }
	bool f = S.call(share == SCARD_SHARE_DIRECT ? "SCardConnect(direct)" : "SCardConnect", &e);
	if (S.set_junk_on_failure) { *handle = 0; }
	if (f) { return (LONG)e; }
	int r = find_reader(name);
	if (r < 0) { return (LONG)SCARD_E_UNKNOWN_READER; }
	Reader& x = S.readers[r];
	if (!x.plugged) { return (LONG)SCARD_E_READER_UNAVAILABLE; }
	if (x.held || S.open_handles_on(r) || (x.shared && share == SCARD_SHARE_EXCLUSIVE)) { return (LONG)SCARD_E_SHARING_VIOLATION; }
	DWORD p = SCARD_PROTOCOL_UNDEFINED;
	if (share != SCARD_SHARE_DIRECT) {
		if (x.card < 0) { return (LONG)SCARD_E_NO_SMARTCARD; }
		Card& c = S.cards[x.card];
		if (c.mute) { return (LONG)SCARD_W_UNRESPONSIVE_CARD; }
		if (!(protocols & c.protocol)) { return (LONG)SCARD_E_PROTO_MISMATCH; }
		p = c.protocol;
	}
	long h = 0x2000000 + (++S.next_handle) * 13;
	S.handles[h] = Handle{ (int)ctx, r, (int)share, x.card >= 0 ? x.inserted : 0, x.card, Handle::OPEN, 1, 0 };
	*handle = h;
	*protocol = p;
	if (share != SCARD_SHARE_DIRECT) { S.connected_at = S.now; }
	return SCARD_S_SUCCESS;
}
LONG SCardDisconnect(SCARDHANDLE handle, DWORD disposition)
{
	uint32_t e;
	Handle* h = use(handle, "SCardDisconnect");
	if (!h) { return (LONG)SCARD_E_INVALID_HANDLE; }
	if (S.call("SCardDisconnect", &e)) {
		++S.disc_failed;
		if (S.fail_kills) { h->st = Handle::DEAD; }
		return (LONG)e;
	}
	if (h->st == Handle::DEAD) { return (LONG)SCARD_E_INVALID_HANDLE; }
	h->st = Handle::CLOSED;
	h->closed++;
	Reader& x = S.readers[h->reader];
	if (x.card >= 0 && x.inserted == h->inserted) {
		if (h->share == SCARD_SHARE_DIRECT && disposition != SCARD_LEAVE_CARD) { S.misuse("card-disturbed", "the card is reset or unpowered while only reading the reader's features"); }
		if (disposition != SCARD_LEAVE_CARD && S.cards[x.card].power) { S.cards[x.card].power(); }
	}
	return SCARD_S_SUCCESS;
}
static LONG card_gone(Handle* h)
{
	if (h->st == Handle::DEAD) { return (LONG)SCARD_E_INVALID_HANDLE; }
	Reader& x = S.readers[h->reader];
	if (!x.plugged) { return (LONG)SCARD_E_READER_UNAVAILABLE; }
	if (h->share != SCARD_SHARE_DIRECT && (x.card < 0 || x.inserted != h->inserted)) { return (LONG)SCARD_W_REMOVED_CARD; }
	return SCARD_S_SUCCESS;
}
LONG SCardStatus(SCARDHANDLE handle, LPSTR, LPDWORD, LPDWORD state, LPDWORD protocol, LPBYTE atr, LPDWORD atr_len)
{
	uint32_t e;
	Handle* h = use(handle, "SCardStatus");
	if (!h) { return (LONG)SCARD_E_INVALID_HANDLE; }
	if (S.call("SCardStatus", &e)) { return (LONG)e; }
	LONG g = card_gone(h);
	if (g) { return g; }
	Card& c = S.cards[h->card];
	if (state) { *state = SCARD_PRESENT | SCARD_POWERED | SCARD_NEGOTIABLE; }
	if (protocol) { *protocol = c.protocol; }
	if (atr_len) {
		DWORD cap = *atr_len;
		*atr_len = c.atr.size();
		if (atr) {
			if (cap < c.atr.size()) { return (LONG)SCARD_E_INSUFFICIENT_BUFFER; }
			if (!c.atr.empty()) { memcpy(atr, c.atr.data(), c.atr.size()); }
		}
	}
	return SCARD_S_SUCCESS;
}
LONG SCardControl(SCARDHANDLE handle, DWORD code, LPCVOID, DWORD, LPVOID out, DWORD cap, LPDWORD len)
{
	uint32_t e;
	Handle* h = use(handle, "SCardControl");
	if (!h) { return (LONG)SCARD_E_INVALID_HANDLE; }
	bool f = S.call(code == SCARD_CTL_CODE(3400) ? "SCardControl(features)" : "SCardControl(property)", &e);
	Reader& x = S.readers[h->reader];
	const Answer* a = nullptr;
	if (code == SCARD_CTL_CODE(3400)) { a = &x.features; } else {
		auto it = x.controls.find((uint32_t)code);
		if (it != x.controls.end()) { a = &it->second; }
	}
	// a failing call may leave a length, and part of an answer, behind
	auto remains = [&] {
		if (!a || !a->claim) { return; }
		*len = a->claim;
		size_t n = std::min<size_t>(std::min<size_t>(a->data.size(), a->claim), cap);
		if (n) { memcpy(out, a->data.data(), n); probe("answer_left_by_failing_call"); }
	};
	if (f) { remains(); return (LONG)e; }
	LONG g = card_gone(h);
	if (g) { return g; }
	if (!a) { probe("unknown_control_code"); return (LONG)SCARD_E_UNSUPPORTED_FEATURE; }
	S.delivered[h->reader][code == SCARD_CTL_CODE(3400) ? 0 : (uint32_t)code] = *a;
	if (!a->ok) { *len = a->claim; remains(); return (LONG)SCARD_E_UNSUPPORTED_FEATURE; }
	if (a->data.size() > cap) { S.delivered[h->reader][code == SCARD_CTL_CODE(3400) ? 0 : (uint32_t)code].ok = false; *len = a->data.size(); return (LONG)SCARD_E_INSUFFICIENT_BUFFER; }
	if (!a->data.empty()) { memcpy(out, a->data.data(), a->data.size()); }
	*len = a->data.size();
	return SCARD_S_SUCCESS;
}
LONG SCardGetStatusChange(SCARDCONTEXT ctx, DWORD timeout, SCARD_READERSTATE* st, DWORD n)
{
	uint32_t e;
	if (!usectx(ctx, "SCardGetStatusChange")) { return (LONG)SCARD_E_INVALID_HANDLE; }
	if (S.call("SCardGetStatusChange", &e)) { return (LONG)e; }
	// the service takes 32 bits of the time
	uint64_t deadline = S.now + (uint64_t)(uint32_t)timeout * 1000;
	bool inf = (uint32_t)timeout == (uint32_t)INFINITE;
	bool ign = pick(2);
	for (;;) {
		if (S.pending_error) { uint32_t x = S.pending_error; S.pending_error = 0; ++S.faults; fault("error_while_waiting"); return (LONG)x; }
		bool changed = false;
		for (DWORD i = 0; i < n; ++i) {
			uint32_t cur = (uint32_t)st[i].dwCurrentState;
			if (cur & SCARD_STATE_IGNORE) { st[i].dwEventState = ign ? SCARD_STATE_IGNORE : 0; continue; }
			int r = find_reader(st[i].szReader);
			if (r < 0) { return (LONG)SCARD_E_UNKNOWN_READER; }
			uint32_t s = S.state(r);
			bool ch = false;
			if ((cur & 0xFFFF) == SCARD_STATE_UNAWARE) { ch = true; }
			if ((s & SCARD_STATE_PRESENT) && !(cur & SCARD_STATE_PRESENT)) { ch = true; }
			if ((s & SCARD_STATE_EMPTY) && !(cur & SCARD_STATE_EMPTY)) { ch = true; }
			if ((s & SCARD_STATE_UNKNOWN) && !(cur & SCARD_STATE_UNKNOWN)) { ch = true; }
			if ((cur & SCARD_STATE_PRESENT) && (s & SCARD_STATE_PRESENT)) {
				if ((s & SCARD_STATE_EXCLUSIVE) && (cur & SCARD_STATE_INUSE)) { ch = true; }
				if (!(s & SCARD_STATE_EXCLUSIVE) && (cur & SCARD_STATE_EXCLUSIVE)) { ch = true; }
				if (!(s & SCARD_STATE_INUSE) && (cur & SCARD_STATE_INUSE)) { ch = true; }
			}
			if ((cur >> 16) && (cur >> 16) != (S.readers[r].counter & 0xFFFF)) { ch = true; }
			if (S.spurious_mask & (1u << r)) { ch = true; S.spurious_mask &= ~(1u << r); }
			st[i].dwEventState = s | ((S.readers[r].counter & 0xFFFF) << 16) | (ch ? SCARD_STATE_CHANGED : 0);
			if (r < (int)S.readers.size() && (s & SCARD_STATE_PRESENT)) {
				Card& c = S.cards[S.readers[r].card];
				st[i].cbAtr = std::min<size_t>(c.atr.size(), sizeof(st[i].rgbAtr));
				if (st[i].cbAtr) { memcpy(st[i].rgbAtr, c.atr.data(), st[i].cbAtr); }
			}
			changed |= ch;
		}
		if (changed) { return SCARD_S_SUCCESS; }
		if (!inf && S.now >= deadline) { return (LONG)SCARD_E_TIMEOUT; }
		if (S.events.empty() || (!inf && S.events.front().at > deadline)) {
			if (inf) { violation(prop(), "endless-wait", "waiting without limit although nothing will happen any more"); }
			S.advance(deadline);
			continue;
		}
		S.advance(S.events.front().at);
	}
}
LONG SCardTransmit(SCARDHANDLE handle, const SCARD_IO_REQUEST* pci, LPCBYTE tx, DWORD tx_len, SCARD_IO_REQUEST*, LPBYTE rx, LPDWORD rx_len)
{
	uint32_t e;
	Handle* h = use(handle, "SCardTransmit");
	if (!h) { return (LONG)SCARD_E_INVALID_HANDLE; }
	static const uint8_t getuid[] = { 0xFF, 0xCA, 0, 0, 0 };
	bool is_uid = tx_len == 5 && memcmp(tx, getuid, 5) == 0;
	Bytes t(tx, tx + tx_len), r;
	if (!is_uid) {
		if (S.xlog.empty()) { S.first_exchange = S.now; }
		S.xlog.push_back(model::LinkStep{ t, -1, Bytes() });
	}
	if (S.call("SCardTransmit", &e)) { return (LONG)e; }
	LONG g = card_gone(h);
	if (g) { return g; }
	if (h->share == SCARD_SHARE_DIRECT) { return (LONG)SCARD_E_PROTO_MISMATCH; }
	Card& c = S.cards[h->card];
	if (!pci || pci->dwProtocol != c.protocol) { return (LONG)SCARD_E_PROTO_MISMATCH; }
	ev_bytes(0x7A, tx, tx_len);
	if (is_uid) {
		if (c.use_raw) { r = c.uid_raw; } else {
			r = c.contactless ? c.uid : Bytes();
			uint16_t sw = c.contactless ? 0x9000 : c.uid_sw;
			r.push_back((uint8_t)(sw >> 8));
			r.push_back((uint8_t)sw);
		}
	} else if (!c.trx || !c.trx(t, r, *rx_len)) {
		return (LONG)SCARD_F_COMM_ERROR;
	}
	trace("  -> %s  <- %s", hex(t).c_str(), hex(r).c_str());
	if (r.size() > *rx_len) { *rx_len = r.size(); return (LONG)SCARD_E_INSUFFICIENT_BUFFER; }
	if (!r.empty()) { memcpy(rx, r.data(), r.size()); }
	*rx_len = r.size();
	if (!is_uid) { S.xlog.back().r = 0; S.xlog.back().rx = r; }
	return SCARD_S_SUCCESS;
}
}
