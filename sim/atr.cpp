#include "atr.hpp"
#include <algorithm>
#include <cstdarg>
using namespace sim;

static std::string num(long long v) { return std::to_string(v); }

namespace atr {

AtrModel atr_model(const Bytes& a)
{
	AtrModel m;
	memset(m.off, 0, sizeof(m.off));
	auto bad = [&](const std::string& w) -> AtrModel& { m.iso_ok = false; m.emv = 0; m.why = w; return m; };
	if (a.size() < 2 || a.size() > 33) { return bad("length"); }
	if (a[0] != 0x3B && a[0] != 0x3F) { return bad("TS"); }
	m.K = a[1] & 15;
	size_t pos = 2;
	unsigned y = a[1] >> 4, cur = 0;
	bool only_t0 = true, t15 = false;
	bool seen[3][16] = {};
	static const unsigned DI[16] = { 0, 1, 2, 4, 8, 16, 32, 64, 12, 20, 0, 0, 0, 0, 0, 0 };
	static const unsigned FI[16] = { 372, 372, 558, 744, 1116, 1488, 1860, 0, 0, 512, 768, 1024, 1536, 2048, 0, 0 };
	static const float FM[16] = { 4, 5, 6, 8, 12, 16, 20, 0, 0, 5, 7.5f, 10, 15, 20, 0, 0 };
	for (unsigned i = 1; i <= 4; ++i) {
		unsigned next = 0;
		bool more = false;
		for (unsigned k = 0; k < 4; ++k) {
			if (!(y & (1u << k))) { continue; }
			if (pos >= a.size()) { return bad("ends within the interface bytes"); }
			m.off[k][i] = (int)pos;
			uint8_t v = a[pos++];
			if (k == 3) {
				unsigned T = v & 15;
				if (i == 1 ? T > 1 : (T > 1 && T != 15)) { return bad("TD" + num(i) + " protocol"); }
				if (i == 1) { m.proto = T; }
				if (T) { only_t0 = false; }
				t15 |= T == 15;
				cur = T;
				next = v >> 4;
				more = true;
			} else if (i == 1) {
				if (k == 0) {
					if (!DI[v & 15] || !FI[v >> 4]) { return bad("TA1"); }
					m.Di = DI[v & 15]; m.Fi = FI[v >> 4]; m.fmax = FM[v >> 4];
				} else if (k == 1) {
					m.vpp = v != 0;
					if (v) {
						unsigned pi = v & 31, ii = v & 0x60;
						if (pi < 5 || pi > 25 || ii == 0x60) { return bad("TB1"); }
						m.Vpp = m.Vppc = pi * 1000;
						m.Ipp = ii == 0 ? 25 : ii == 0x20 ? 50 : 100;
					}
				} else { m.N = v; }
			} else if (i == 2) {
				if (k == 0) { m.spec = true; m.spec_proto = v & 15; m.implicit = v & 0x10; m.may_change = !(v & 0x80); }
				else if (k == 1) { if (!m.vpp || v < 50 || v > 250) { return bad("TB2"); } m.Vpp = v * 100; }
				else { if (!v) { return bad("TC2"); } m.WI = v; }
			} else {
				unsigned T = cur;
				bool again = seen[k][T];
				seen[k][T] = true;
				if (T == 15 && k == 0) {
					unsigned Y = v & 0x3F;
					if (Y < 1 || Y > 7) { if (again) { m.iso_open = true; } else { return bad("TA(T=15)"); } }
					if (!again) { m.classes = Y; m.clock_stop = v >> 6; }
				}
				if (T == 15 && k == 1 && !again) { m.spu = v == 0 ? 0 : (v & 0x80) ? 2 : 1; }
				if (T == 1 && k == 0) {
					if (v == 0 || v == 0xFF) { if (again) { m.iso_open = true; } else { return bad("TA(T=1)"); } }
					if (!again) { m.IFSI = v; }
				}
				if (T == 1 && k == 1) {
					if ((v >> 4) > 9) { if (again) { m.iso_open = true; } else { return bad("TB(T=1)"); } }
					if (!again) { m.BWI = v >> 4; m.CWI = v & 15; }
				}
				if (T == 1 && k == 2 && !again) { m.edc = v & 1; }
			}
		}
		if (!more) { break; }
		if (i == 4 && next) { return bad("more than four groups of interface bytes"); }
		y = next;
	}
	// TA TB TC of a group precede its TD, but belong to the protocol of the previous TD: handled through 'cur' above
	if (m.N != 0xFF) { m.GT = 12 + m.N; m.CGT = m.GT; } else { m.GT = m.proto == 0 ? 12 : 11; m.CGT = 11; }
	m.WT = m.WI * 960 * m.Di;
	m.CWT = 11 + (1u << m.CWI);
	m.BWT = 11 + (unsigned)((((uint64_t)1 << m.BWI) * 960 * 372 * m.Di) / m.Fi);
	if (pos + m.K > a.size()) { return bad("ends within the historical bytes"); }
	if (m.K) {
		m.T1 = a[pos];
		m.hist_off = (unsigned)pos + 1;
		m.hist_len = m.K - 1;
		if (m.T1 == 0x00) {
			if (m.hist_len < 3) { return bad("no room for the status indicator"); }
			m.hist_len -= 3;
			m.si_off = m.hist_off + m.hist_len;
			m.si_len = 3;
		}
		if (m.T1 == 0x00 || m.T1 == 0x80) {
			size_t p = m.hist_off, e = m.hist_off + m.hist_len;
			while (p < e) {
				unsigned t = a[p] >> 4, l = a[p] & 15;
				if (p + 1 + l > e) { return bad("historical data object exceeds the historical bytes"); }
				if (t == 8) { m.si_off = (unsigned)p + 1; m.si_len = l; }
				p += 1 + l;
			}
		}
		pos += m.K;
	}
	if (!only_t0) {
		if (pos >= a.size()) { return bad("check byte missing"); }
		m.tck = true;
		m.tck_val = a[pos++];
		uint8_t x = 0;
		for (size_t i = 1; i < pos; ++i) { x ^= a[i]; }
		if (x) { return bad("check byte"); }
	}
	if (m.si_off) {
		if (m.si_len == 1) { m.LCS = a[m.si_off]; }
		if (m.si_len == 2) { m.SW1 = a[m.si_off]; m.SW2 = a[m.si_off + 1]; }
		if (m.si_len == 3) { m.LCS = a[m.si_off]; m.SW1 = a[m.si_off + 1]; m.SW2 = a[m.si_off + 2]; }
	}
	if (pos != a.size()) { m.iso_open = true; m.why = "bytes follow"; }
	m.iso_ok = true;
	// EMV Level 1 rules
	auto has = [&](int k, int i) { return m.off[k][i] != 0; };
	auto val = [&](int k, int i) { return a[m.off[k][i]]; };
	auto emvbad = [&](const char* w) -> AtrModel& { m.emv = 0; m.why = w; return m; };
	if (has(0, 1)) {
		uint8_t v = val(0, 1);
		if (has(0, 2)) { if (!m.implicit && (v < 0x11 || v > 0x13)) { return emvbad("TA1 in specific mode"); } }
		else if ((v >> 4) == 0 || (v & 15) < 3) { return emvbad("TA1 in negotiable mode"); }
	}
	if (has(2, 1) && val(2, 1) != 0 && val(2, 1) != 0xFF) { return emvbad("TC1"); }
	if (has(0, 2)) {
		if (m.spec_proto != m.proto) { return emvbad("TA2 protocol"); }
		if (m.implicit) { return emvbad("TA2 implicit"); }
	}
	if (has(2, 2) && (m.proto != 0 || val(2, 2) != 0x0A)) { return emvbad("TC2"); }
	if (!has(3, 2)) { if (m.proto == 1) { return emvbad("TB3 absent for T=1"); } }
	else {
		unsigned T = val(3, 2) & 15;
		if (m.proto == 0 && T != 15) { return emvbad("TD2 for T=0"); }
		if (m.proto == 1 && T != 1) { return emvbad("TD2 for T=1"); }
		if (T == 1) {
			if (has(0, 3) && val(0, 3) < 0x10) { return emvbad("TA3"); }
			if (!has(1, 3)) { return emvbad("TB3 absent for T=1"); }
			unsigned v = val(1, 3), bwi = v >> 4, cwi = v & 15;
			if (bwi > 4 || cwi > 5) { return emvbad("TB3"); }
			int n = m.N == 0xFF ? -1 : (int)m.N;
			if (m.N == 0) { cwi = 1; }
			if ((1 << cwi) < n + 1) { return emvbad("TB3 and TC1"); }
			if (has(2, 3) && val(2, 3) != 0) { return emvbad("TC3"); }
		}
	}
	m.emv = m.iso_open ? -1 : 1;
	return m;
}

static Bytes gen_hist()
{
	Bytes h;
	unsigned kind = pick(6);
	if (kind == 0) { return h; }
	if (kind == 1) { h = rbytes(1 + pick(15)); return h; }
	unsigned maxn = 15;
	h.push_back(kind == 2 ? 0x10 : kind == 3 ? 0x80 : 0x00);
	if (kind == 2) { Bytes x = rbytes(pick(5)); h.insert(h.end(), x.begin(), x.end()); return h; }
	if (kind == 4) { maxn = 12; }
	if (kind == 5) { h[0] = pick(2) ? 0x80 : 0x00; if (!h[0]) { maxn = 12; } }
	unsigned n = pick(4);
	for (unsigned i = 0; i < n; ++i) {
		unsigned room = maxn - (unsigned)h.size();
		if (!room) { break; }
		unsigned l = pick(std::min(room, 7u));
		unsigned t = pick(3) == 0 ? 8 : pick(3) == 0 ? (pick(2) ? 3 : 7) : 1 + pick(15);
		h.push_back((uint8_t)(t << 4 | l));
		for (unsigned j = 0; j < l; ++j) { h.push_back((uint8_t)pick(256)); }
	}
	if (h[0] == 0 && chance(7, 8)) { Bytes x = rbytes(3); h.insert(h.end(), x.begin(), x.end()); }
	if (chance(1, 12) && !h.empty()) { h[pick((uint32_t)h.size())] ^= (uint8_t)(1u << pick(8)); }
	if (h.size() > 15) { h.resize(15); }
	return h;
}
Bytes gen_atr(bool* wellformed)
{
	Bytes a;
	a.push_back(pick(4) ? 0x3B : 0x3F);
	Bytes h = gen_hist();
	unsigned style = pick(4);
	bool t1 = false, tck = false;
	auto anyof = [](std::initializer_list<int> l) { return (uint8_t) * (l.begin() + pick((uint32_t)l.size())); };
	if (style == 0) {
		// T=0 as EMV cards have it
		unsigned y = 0;
		Bytes b;
		bool ta = pick(2), td = pick(2), ta2 = td && pick(3) == 0;
		if (ta) { y |= 1; b.push_back(ta2 ? anyof({ 0x11, 0x12, 0x13 }) : anyof({ 0x13, 0x14, 0x95, 0x96, 0x18, 0x94, 0xD9 })); }
		if (pick(2)) { y |= 2; b.push_back(anyof({ 0, 0x25, 0x05, 0x45, 0x19 })); }
		if (pick(2)) { y |= 4; b.push_back(anyof({ 0, 0xFF })); }
		if (td) {
			y |= 8;
			unsigned y2 = 0;
			Bytes c;
			if (ta2) { y2 |= 1; c.push_back(anyof({ 0x00, 0x80 })); }
			if (pick(2)) { y2 |= 4; c.push_back(0x0A); }
			if (pick(3) == 0) {
				y2 |= 8;
				unsigned y3 = 0;
				Bytes d;
				if (pick(2)) { y3 |= 1; d.push_back((uint8_t)(1 + pick(7) + 64 * pick(4))); }
				if (pick(2)) { y3 |= 2; d.push_back(anyof({ 0, 1, 0x80, 0xFF })); }
				c.push_back((uint8_t)(y3 << 4 | 15));
				c.insert(c.end(), d.begin(), d.end());
				tck = true;
			}
			b.push_back((uint8_t)(y2 << 4));
			b.insert(b.end(), c.begin(), c.end());
		}
		a.push_back((uint8_t)(y << 4 | h.size()));
		a.insert(a.end(), b.begin(), b.end());
	} else if (style == 1) {
		// T=1 as EMV cards have it
		tck = true;
		unsigned y = 8;
		Bytes b;
		bool ta2 = pick(3) == 0;
		if (pick(2)) { y |= 1; b.push_back(ta2 ? anyof({ 0x11, 0x12, 0x13 }) : anyof({ 0x13, 0x14, 0x95, 0x96, 0x18 })); }
		if (pick(2)) { y |= 2; b.push_back(0); }
		if (pick(2)) { y |= 4; b.push_back(anyof({ 0, 0xFF, 0xFF })); }
		unsigned y2 = 8;
		Bytes c;
		if (ta2) { y2 |= 1; c.push_back(anyof({ 0x01, 0x81 })); }
		unsigned y3 = 2;
		Bytes d;
		if (pick(2)) { y3 |= 1; d.push_back(pick(6) ? anyof({ 0x10, 0x20, 0xFE, 0x80 }) : anyof({ 0x0F, 0xFF, 0x00 })); }
		d.push_back((uint8_t)(pick(10) < 8 ? pick(5) << 4 | pick(6) : pick(256)));
		if (pick(3) == 0) { y3 |= 4; d.push_back(anyof({ 0, 0, 1 })); }
		if (pick(4) == 0) {
			y3 |= 8;
			unsigned y4 = pick(8);
			if (pick(4) == 0) { y4 |= 8; }
			bool f15 = pick(2);
			d.push_back((uint8_t)(y4 << 4 | (f15 ? 15 : 1)));
			if (y4 & 1) { d.push_back((uint8_t)(f15 ? 1 + pick(7) + 64 * pick(4) : anyof({ 0x10, 0x40, 0xFE }))); }
			if (y4 & 2) { d.push_back((uint8_t)(f15 ? pick(256) : pick(10) << 4 | pick(16))); }
			if (y4 & 4) { d.push_back((uint8_t)pick(256)); }
			if (y4 & 8) { d.push_back((uint8_t)(pick(8) == 0 ? pick(256) : anyof({ 0x00, 0x01, 0x0F }))); }
		}
		c.push_back((uint8_t)(y3 << 4 | 1));
		c.insert(c.end(), d.begin(), d.end());
		b.push_back((uint8_t)(y2 << 4 | 1));
		b.insert(b.end(), c.begin(), c.end());
		a.push_back((uint8_t)(y << 4 | h.size()));
		a.insert(a.end(), b.begin(), b.end());
		t1 = true;
	} else {
		// any structure
		unsigned y = pick(16);
		a.push_back((uint8_t)(y << 4 | h.size()));
		unsigned T = 0;
		for (unsigned i = 1; i <= 5; ++i) {
			if (y & 1) { a.push_back(i == 1 ? (pick(6) ? anyof({ 0x11, 0x13, 0x18, 0x95, 0x96, 0x01, 0x12, 0x97, 0xA3 }) : (uint8_t)pick(256)) : i == 2 ? anyof({ 0x00, 0x80, 0x01, 0x81, 0x10, 0x90, 0x11, 0x0F }) : (pick(6) ? (uint8_t)(1 + pick(7)) : (uint8_t)pick(256))); }
			if (y & 2) { a.push_back(i == 1 ? (pick(6) ? anyof({ 0, 0x25, 0x45, 0x65, 0x04, 0x1A, 0x19 }) : (uint8_t)pick(256)) : i == 2 ? anyof({ 50, 49, 250, 251, 100, 0 }) : (uint8_t)(pick(11) << 4 | pick(16))); }
			if (y & 4) { a.push_back(i == 1 ? (pick(3) ? anyof({ 0, 0xFF, 1, 2, 3, 31, 32, 254 }) : (uint8_t)pick(256)) : i == 2 ? anyof({ 0x0A, 0x0A, 0, 1, 0xFF }) : (uint8_t)pick(3)); }
			if (!(y & 8)) { break; }
			unsigned ny = pick(3) == 0 ? 0 : pick(16);
			T = i == 1 ? (pick(8) ? pick(2) : pick(16)) : (pick(8) ? anyof({ 0, 1, 15, 15, 1 }) : pick(16));
			if (T) { tck = true; }
			a.push_back((uint8_t)(ny << 4 | T));
			y = ny;
			if (a.size() > 17) { break; }
		}
	}
	(void)t1;
	a.insert(a.end(), h.begin(), h.end());
	if (tck) {
		uint8_t x = 0;
		for (size_t i = 1; i < a.size(); ++i) { x ^= a[i]; }
		a.push_back(x);
	}
	*wellformed = style < 2;
	return a;
}
Bytes damage(Bytes a)
{
	switch (pick(7)) {
		case 0: break;
		case 1: fault("atr_truncated"); a.resize(pick((uint32_t)a.size())); break;
		case 2: fault("atr_corrupted"); a[pick((uint32_t)a.size())] ^= (uint8_t)(1u << pick(8)); break;
		case 3: fault("atr_corrupted"); a[pick((uint32_t)a.size())] = (uint8_t)pick(256); break;
		case 4: fault("atr_extended"); { Bytes x = rbytes(1 + pick(3)); a.insert(a.end(), x.begin(), x.end()); } break;
		case 5: {
			// consistent change: a byte altered and the check byte repaired
			if (a.size() > 3) { size_t p = 1 + pick((uint32_t)a.size() - 2); uint8_t b = (uint8_t)pick(256); a.back() ^= a[p] ^ b; a[p] = b; }
			break;
		}
		case 6: fault("atr_byte_lost"); a.erase(a.begin() + pick((uint32_t)a.size())); break;
	}
	if (a.size() > 40) { a.resize(40); }
	return a;
}

// ---------------------------------------------------------------- description
static bool has(const AtrModel& m, int k, int i) { return i >= 1 && i <= 4 && m.off[k][i]; }
static std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
static std::string fmt(const char* f, ...)
{
	char b[400];
	va_list ap;
	va_start(ap, f);
	vsnprintf(b, sizeof(b), f, ap);
	va_end(ap);
	return b;
}
static std::string group(const AtrModel& m, int i)
{
	if (i > 4) { return ""; }
	std::string s = "Y" + num(i) + "=";
	bool first = true;
	for (int k = 0; k < 4; ++k) {
		if (!has(m, k, i)) { continue; }
		if (!first) { s += ","; }
		first = false;
		s += fmt("T%c%d", "ABCD"[k], i);
	}
	return s;
}
std::string describe(const AtrModel& m, const Bytes& a, int k, int i)
{
	auto val = [&](int kk, int ii) { return (unsigned)a[m.off[kk][ii]]; };
	if (k == 5) { return a[0] == 0x3B ? "Direct convention" : "Inverse convention"; }
	if (k == 4) { return group(m, 1) + "; K=" + num(m.K); }
	if (k == 6) {
		return m.T1 == 0 ? "COMPACT-TLV followed by mandatory status indicator" : m.T1 == 0x10 ? "DIR data reference" :
			m.T1 == 0x80 ? "COMPACT-TLV including optional status indicator" : m.T1 > 0x80 && m.T1 <= 0x8F ? "RFU" : "Proprietary";
	}
	if (k == 3) {
		unsigned T = val(3, i) & 15;
		return group(m, i + 1) + (T == 15 ? "; Global (T=15)" : "; Protocol T=" + num(T));
	}
	if (i == 1) {
		if (k == 0) {
			unsigned cyc = m.Fi / m.Di;
			return fmt("Fi=%u; Di=%u; %u cycles/ETU @ max %.1fMHz; max %lu bit/s", m.Fi, m.Di, cyc, (double)m.fmax, (unsigned long)(m.fmax * 1000000) / cyc);
		}
		if (k == 1) { return has(m, 1, 1) && m.vpp ? fmt("Vpp is connected; Vpp=%umV; Ipp=%umA", m.Vppc, m.Ipp) : "Vpp is not connected"; }
		return fmt("N=%u; GT=%u", m.N, m.GT);
	}
	if (i == 2) {
		if (k == 0) {
			if (!has(m, 0, 2)) { return "Negotiable mode"; }
			return fmt("Specific mode (%s); ETU%s; protocol T=%u", m.may_change ? "mutable" : "immutable", m.implicit ? " is implicit" : "=Fi/Di", m.spec_proto);
		}
		if (k == 1) { return has(m, 1, 1) && has(m, 1, 2) && m.vpp ? fmt("Vpp=%umV", m.Vpp) : "Vpp is not connected"; }
		return fmt("WI=%u; WT=%u", m.WI, m.WT);
	}
	unsigned T = val(3, i - 1) & 15;
	// only the first byte of its kind for a protocol is defined
	for (int j = 3; j < i; ++j) { if (has(m, k, j) && (val(3, j - 1) & 15) == T) { return ""; } }
	if (T == 15 && k == 0) {
		static const char* cs[4] = { "Not supported", "State L", "State H", "No preference" };
		std::string s = std::string("Clock stop: ") + cs[m.clock_stop] + "; Class: ";
		const char* c = "";
		if (m.classes & 1) { s += "A (5V)"; c = ", "; }
		if (m.classes & 2) { s += c; s += "B (3V)"; c = ", "; }
		if (m.classes & 4) { s += c; s += "C (1.8V)"; }
		return s;
	}
	if (T == 15 && k == 1) { return m.spu == 0 ? "SPU not used" : m.spu == 1 ? "Standard usage of SPU" : "Proprietary usage of SPU"; }
	if (T == 1 && k == 0) { return fmt("IFSI=%u", m.IFSI); }
	if (T == 1 && k == 1) { return fmt("CWT=%u; BWT=%u", m.CWT, m.BWT); }
	if (T == 1 && k == 2) { return m.edc ? "Cyclic Redundancy Check (CRC)" : "Longitudinal Redundancy Check (LRC)"; }
	return "Unimplemented";
}
std::vector<std::string> service_data(uint8_t v)
{
	std::vector<std::string> s;
	if (v & 0x80) { s.push_back("Application selection: by full DF name"); }
	if (v & 0x40) { s.push_back("Application selection: by partial DF name"); }
	if (v & 0x20) { s.push_back("BER-TLV data objects available in EF.DIR"); }
	if (v & 0x10) { s.push_back("BER-TLV data objects available in EF.ATR"); }
	std::string t = "EF.DIR and EF.ATR access services: ";
	switch (v >> 1 & 7) {
		case 4: t += "by READ BINARY command (transparent structure)"; break;
		case 0: t += "by READ RECORD(S) command (record structure)"; break;
		case 2: t += "by GET DATA command (TLV structure)"; break;
		default: t += "Unknown value"; break;
	}
	s.push_back(t);
	s.push_back(v & 1 ? "Card without MF" : "Card with MF");
	return s;
}
bool capabilities(const Bytes& v, std::vector<std::string>& s)
{
	static const char* sel[8] = { "DF selection: by full DF NAME", "DF selection: by partial DF NAME", "DF selection: by path", "DF selection: by file identifier", "DF selection: implicit",
		"Short EF identifier supported", "Record number supported", "Record identifier supported" };
	if (v.empty()) { return true; }
	for (int i = 0; i < 8; ++i) { if (v[0] >> (7 - i) & 1) { s.push_back(sel[i]); } }
	if (v.size() < 2) { return true; }
	static const char* wr[4] = { "one-time write", "proprietary", "write OR", "write AND" };
	if (v[1] & 0x80) { s.push_back("EFs of TLV structure supported"); }
	s.push_back(std::string("Behaviour of write functions: ") + wr[v[1] >> 5 & 3]);
	s.push_back(v[1] & 0x10 ? "FF as first byte of BER-TLV tag is valid" : "FF as first byte of BER-TLV tag is invalid / padding");
	if (v[1] & 15) { s.push_back("Data unit size: " + num(1ll << ((v[1] & 15) - 1)) + " bytes"); }
	if (v.size() < 3) { return true; }
	if (v[2] & 0x80) { s.push_back("Command chaining"); }
	if (v[2] & 0x40) { s.push_back("Extended Lc and Le fields"); }
	switch (v[2] >> 3 & 3) {
		case 0: s.push_back("No logical channel"); break;
		case 1: s.push_back("Logical channel number assignment: by the interface device"); break;
		case 2: s.push_back("Logical channel number assignment: by the card"); break;
		case 3: s.clear(); return false;
	}
	s.push_back("Maximum number of logical channels: " + ((v[2] & 7) == 7 ? std::string("8 or more") : num((v[2] & 7) + 1)));
	return true;
}
std::string life_cycle(uint8_t v)
{
	if (v == 0) { return "No information given"; }
	if (v == 1) { return "Creation state"; }
	if (v == 3) { return "Initialisation state"; }
	if (v == 5 || v == 7) { return "Operational state (activated)"; }
	if (v == 4 || v == 6) { return "Operational state (deactivated)"; }
	if (v >= 12 && v <= 15) { return "Termination state"; }
	return "Proprietary";
}
std::vector<TextLine> text(const AtrModel& m, const Bytes& a)
{
	std::vector<TextLine> t;
	auto line = [&](const std::string& s) { t.push_back({ s, true }); };
	auto open = [&](const std::string& s) { t.push_back({ s, false }); };
	line("ATR: " + hex(a));
	line(fmt("  TS  = 0x%02X: ", a[0]) + describe(m, a, 5, 0));
	line(fmt("  T0  = 0x%02X: ", a[1]) + describe(m, a, 4, 0));
	for (int i = 1; i <= 4; ++i) {
		if (i < 3 || has(m, 0, i) || has(m, 1, i) || has(m, 2, i) || has(m, 3, i)) { line("  ----"); }
		for (int k = 0; k < 4; ++k) {
			std::string n = fmt("  T%c%d", "ABCD"[k], i);
			if (has(m, k, i)) {
				std::string d = describe(m, a, k, i);
				n += fmt(" = 0x%02X: ", a[m.off[k][i]]);
				if (d.empty()) { open(n); } else { line(n + d); }
			} else if (k < 3 && i < 3) { line(n + " absent: " + describe(m, a, k, i)); }
		}
	}
	if (m.K) {
		line("  ----");
		line(fmt("  T1  = 0x%02X: ", m.T1) + describe(m, a, 6, 0));
		if (m.T1 != 0 && m.T1 != 0x80) {
			if (m.hist_len) { line("  Historical bytes: " + hex(Bytes(a.begin() + m.hist_off, a.begin() + m.hist_off + m.hist_len))); }
			else { t.push_back({ "  Historical bytes:", false, true }); }
		} else {
			static const char* names[16] = { "Unknown", "Country code", "Issuer identification number", "Card service data", "Initial access data", "Card issuer data", "Pre-issuing data", "Card capabilities", "Status indicator",
				"Unknown", "Unknown", "Unknown", "Unknown", "Unknown", "Unknown", "Application identifier (AID)" };
			size_t p = m.hist_off, e = m.hist_off + m.hist_len;
			while (p < e) {
				unsigned tag = a[p] >> 4, l = a[p] & 15;
				Bytes v(a.begin() + (long)p + 1, a.begin() + (long)p + 1 + l);
				std::string s = std::string("  ") + names[tag] + fmt(" (0x%X): [%u] ", tag, l);
				for (unsigned i = 0; i < l; ++i) { s += fmt("%s%02X", i ? " " : "", v[i]); }
				line(s);
				std::vector<std::string> d;
				if (tag == 3 && l) { d = service_data(v[0]); }
				if (tag == 7) { capabilities(v, d); }
				for (auto& x : d) { line("    - " + x); }
				p += 1 + l;
			}
		}
		if (m.si_off) {
			line("  ----");
			line(fmt("  LCS = %02X: ", m.LCS) + life_cycle((uint8_t)m.LCS));
			if (m.SW1 || m.SW2) { open(fmt("  SW  = %02X%02X: (", m.SW1, m.SW2)); }
		}
	}
	line("  ----");
	if (m.tck) { line(fmt("  TCK = 0x%02X", m.tck_val)); } else { t.push_back({ "  TCK", false, true }); }
	return t;
}
}
