#include "model.hpp"
#include "iso8859_table.inc"

namespace model {

Dec ber(const uint8_t* p, size_t n)
{
	Dec d = { 0, 0, 0, 0, false, false };
	if (n == 0) { return d; }
	d.r = -1;
	if (n < 2) { return d; }
	size_t i = 0;
	d.constructed = p[0] & 0x20;
	d.tag = p[i++];
	if ((d.tag & 0x1F) == 0x1F) {
		for (;;) {
			if (i >= n) { return d; }
			if (i == 4) { return d; } // tag too long
			uint8_t b = p[i++];
			d.tag = (d.tag << 8) | b;
			if (!(b & 0x80)) { break; }
		}
	}
	if (i >= n) { return d; }
	uint8_t l = p[i++];
	uint64_t len = 0;
	if (l == 0x80) { d.indef = true; return d; }
	if (l & 0x80) {
		unsigned c = l & 0x7F;
		if (c > 4 || i + c > n) { return d; }
		while (c--) { len = (len << 8) | p[i++]; }
	} else {
		len = l;
	}
	if (len > n - i) { return d; }
	d.off = i;
	d.len = (size_t)len;
	d.r = (int)(i + len);
	return d;
}

int parse(const uint8_t* p, size_t n, TlvList& out, bool& amb)
{
	while (n) {
		Dec d = ber(p, n);
		if (d.indef) { amb = true; return 1; }
		if (d.r <= 0) { return 1; }
		if (d.constructed) {
			if (parse(p + d.off, d.len, out, amb)) { return 1; }
		} else {
			out.push_back(Tlv{ d.tag, Bytes(p + d.off, p + d.off + d.len) });
		}
		p += d.r;
		n -= d.r;
	}
	return 0;
}

const Tlv* find(const TlvList& l, uint32_t tag)
{
	for (auto& t : l) { if (t.tag == tag) { return &t; } }
	return nullptr;
}

std::string str(const TlvList& l)
{
	std::string s = "[";
	for (auto& t : l) {
		char b[16];
		snprintf(b, sizeof(b), "%X=", t.tag);
		s += b;
		s += hex(t.val);
		s += " ";
	}
	return s + "]";
}

std::string iso8859_utf8(unsigned page, const std::string& s)
{
	std::string o;
	for (unsigned char c : s) {
		uint32_t u = c;
		if (c >= 0xA0) { u = iso8859_tab[page][c - 0xA0]; if (!u) { continue; } }
		if (u < 0x80) { o += (char)u; }
		else if (u < 0x800) { o += (char)(0xC0 | (u >> 6)); o += (char)(0x80 | (u & 0x3F)); }
		else { o += (char)(0xE0 | (u >> 12)); o += (char)(0x80 | ((u >> 6) & 0x3F)); o += (char)(0x80 | (u & 0x3F)); }
	}
	return o;
}

// false: the application cannot be used
static bool app_finish(App& a, const TlvList& code_table_source)
{
	unsigned page = 0;
	const Tlv* t = find(code_table_source, 0x9F11);
	if (t && t->val.size() == 1 && t->val[0] >= 1 && t->val[0] <= 15 && t->val[0] != 12) { page = t->val[0]; }
	bool done = false;
	if (page) {
		const Tlv* n = find(a.tlvs, 0x9F12);
		if (n) {
			std::string s;
			for (uint8_t c : n->val) {
				if (s.size() == 16) { break; }
				if ((c >= 0x20 && c <= 0x7E) || c >= 0xA0) { s += (char)c; }
			}
			std::string u = iso8859_utf8(page, s);
			if (!u.empty()) { a.name = u; done = true; }
		}
	}
	if (!done) {
		const Tlv* l = find(a.tlvs, 0x50);
		if (l) {
			for (uint8_t c : l->val) {
				if ((c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == ' ') { a.name += (char)c; }
			}
		} else {
			if (a.aid.empty()) { return false; }
			a.name = hex(a.aid);
		}
	}
	const Tlv* pr = find(a.tlvs, 0x87);
	if (pr && !pr->val.empty()) {
		a.priority = pr->val[0] & 0x0F;
		a.confirm = pr->val[0] & 0x80;
	}
	return true;
}

bool app_from_entry(const TlvList& pse, const uint8_t* p, size_t n, App& a, bool& amb)
{
	a = App();
	if (parse(p, n, a.tlvs, amb)) { return false; }
	const Tlv* t = find(a.tlvs, 0x4F);
	if (!t) { return false; }
	a.aid = t->val;
	return app_finish(a, pse);
}

bool app_from_fci(const uint8_t* p, size_t n, App& a, bool& amb)
{
	a = App();
	Dec d = ber(p, n);
	if (d.indef) { amb = true; return false; }
	if (d.r <= 0 || (size_t)d.r != n || d.tag != 0x6F) { return false; }
	if (parse(p + d.off, d.len, a.tlvs, amb)) { return false; }
	const Tlv* t = find(a.tlvs, 0x84);
	if (!t) { return false; }
	a.aid = t->val;
	return app_finish(a, a.tlvs);
}

bool supported(const Bytes& aid, const std::vector<Aid>& aids)
{
	for (auto& s : aids) {
		if (!s.partial && s.v == aid) { return true; }
		if (s.partial && s.v.size() <= aid.size() && std::equal(s.v.begin(), s.v.end(), aid.begin())) { return true; }
	}
	return false;
}

bool dol_parse(const Bytes& dol, std::vector<DolEntry>& out)
{
	if (dol.empty()) { return false; }
	size_t i = 0;
	while (i < dol.size()) {
		uint32_t tag = dol[i++];
		unsigned octets = 1;
		if ((tag & 0x1F) == 0x1F) {
			for (;;) {
				if (i >= dol.size() || octets == 4) { return false; }
				uint8_t b = dol[i++];
				++octets;
				tag = (tag << 8) | b;
				if (!(b & 0x80)) { break; }
			}
		}
		if (i >= dol.size()) { return false; }
		out.push_back(DolEntry{ tag, dol[i++] });
	}
	return true;
}

static bool numeric_terminal(uint32_t t)
{
	static const uint32_t n[] = { 0x9A, 0x9C, 0x5F2A, 0x5F36, 0x5F57, 0x9F01, 0x9F02, 0x9F03, 0x9F15, 0x9F1A, 0x9F21, 0x9F35, 0x9F39, 0x9F3C, 0x9F3D, 0x9F41 };
	for (uint32_t x : n) { if (x == t) { return true; } }
	return false;
}

Bytes dol_data(const std::vector<DolEntry>& d, const std::vector<const TlvList*>& sources)
{
	Bytes out;
	for (auto& e : d) {
		Bytes f(e.len, 0);
		const Tlv* t = nullptr;
		for (auto* s : sources) { if (!t) { t = find(*s, e.tag); } }
		if (t) {
			size_t n = std::min<size_t>(e.len, t->val.size());
			if (numeric_terminal(e.tag)) {
				std::copy(t->val.end() - n, t->val.end(), f.end() - n);
			} else {
				std::copy(t->val.begin(), t->val.begin() + n, f.begin());
			}
		}
		out.insert(out.end(), f.begin(), f.end());
	}
	return out;
}

int apdu_case(const Bytes& c)
{
	if (c.size() == 4) { return 1; }
	if (c.size() == 5) { return 2; }
	if (c.size() > 5 && c[4]) {
		if (c.size() == 5u + c[4]) { return 3; }
		if (c.size() == 6u + c[4]) { return 4; }
	}
	return 0;
}

ExecResult exec(const std::vector<LinkStep>& log, size_t& pos, bool tpdu, const Bytes& c, size_t cap)
{
	ExecResult res = { FAIL, {}, 0, "", 0 };
	int kase = apdu_case(c);
	Bytes expect;                 // next transmission
	Bytes header;                 // header most recently transmitted
	size_t data_at = 5, data_end = 5;
	bool sw_known = false;
	bool fetching = false;        // a GET RESPONSE is in progress
	unsigned no_data = 0;
	auto bad = [&](const std::string& w) { res.v = MISMATCH; res.why = w; return res; };
	auto done = [&](Verdict v, const char* w) { res.v = v; res.why = w; return res; };

	if (tpdu) {
		expect.assign(c.begin(), c.begin() + 4);
		expect.push_back(kase == 1 ? 0 : c[4]);
		header = expect;
		if (kase >= 3) { data_end = 5 + c[4]; }
	} else {
		expect = c;
		header.assign(c.begin(), c.begin() + 4);
		header.push_back(kase == 1 ? 0 : c[4]);
	}
	for (;;) {
		if (pos >= log.size()) { return bad("the terminal did not transmit " + hex(expect)); }
		const LinkStep& s = log[pos];
		if (s.tx != expect) { return bad("the terminal transmitted " + hex(s.tx) + " instead of " + hex(expect)); }
		++pos;
		++res.steps;
		const Bytes& rx = s.rx;
		if (s.r) { return done(FAIL, "reader error"); }
		if (rx.empty()) { return done(FAIL, "empty answer"); }
		if (kase == 1) {
			if (rx.size() != 2) { return done(FAIL, "answer to a command without data is not a status"); }
			res.sw = (uint16_t)(rx[0] << 8 | rx[1]);
			return done(OK, "");
		}
		if (rx.size() == 1) {
			if (!tpdu || data_at >= data_end) { return done(FAIL, "unexpected procedure byte"); }
			uint8_t ins = header[1];
			if (rx[0] == 0x60) { return done(FAIL, "waiting byte"); }
			if (rx[0] == ins) {
				expect.assign(c.begin() + data_at, c.begin() + data_end);
				data_at = data_end;
				continue;
			}
			if (rx[0] == (uint8_t)~ins) {
				expect.assign(1, c[data_at]);
				++data_at;
				continue;
			}
			return done(FAIL, "unknown procedure byte");
		}
		uint8_t sw1 = rx[rx.size() - 2], sw2 = rx[rx.size() - 1];
		size_t ndata = rx.size() - 2;
		const uint8_t* data = rx.data();
		bool had_data = false;
		// status words end the command data phase
		bool data_sent = data_at > 5;
		(void)data_sent;
		if ((sw1 == 0x61 || sw1 == 0x6C) && kase == 3) { return done(FAIL, "status not allowed for a command without response data"); }
		if (tpdu && ndata == 1) {
			if (rx[0] != header[1]) { return done(FAIL, "leading instruction byte missing"); }
			ndata = 0;
		} else if (tpdu && ndata > 1) {
			if (kase == 3) { return done(FAIL, "response data not allowed"); }
			if (rx[0] != header[1]) { return done(FAIL, "leading instruction byte missing"); }
			++data;
			--ndata;
			had_data = true;
		} else if (ndata > 0) {
			if (kase == 3) { return done(FAIL, "response data not allowed"); }
			had_data = true;
		}
		if (had_data) {
			if (res.data.size() + ndata + 2 > cap) { return done(FAIL, "response exceeds the capacity"); }
			res.data.insert(res.data.end(), data, data + ndata);
			no_data = 0;
		} else {
			++no_data;
		}
		bool get_response = false;
		if (sw1 == 0x61) {
			get_response = true;
		} else if (sw1 == 0x6C) {
			if (had_data) { return done(AMBIG, "wrong length status with data"); }
			if (kase == 4 && !fetching) {
				if (tpdu) { return done(FAIL, "wrong length status for a command with data in TPDU mode"); }
				expect = c;
				expect.back() = sw2;
			} else {
				expect.assign(header.begin(), header.begin() + 4);
				expect.push_back(sw2);
				header = expect;
			}
			data_at = data_end;
			if (no_data > 3) { return done(AMBIG, "endless status"); }
			continue;
		} else {
			bool warn = sw1 == 0x62 || sw1 == 0x63;
			if (!sw_known) {
				sw_known = true;
				res.sw = (uint16_t)(sw1 << 8 | sw2);
				if (res.sw == 0) { sw_known = false; }
				if (kase == 4 && rx.size() == 2 && warn) { get_response = true; }
			}
			if (!get_response) { return done(OK, ""); }
		}
		if (no_data > 3) { return done(AMBIG, "endless status"); }
		uint8_t le = (sw1 == 0x61 || (sw1 == 0x62 && sw2 >= 2 && sw2 <= 0x80)) ? sw2 : 0;
		expect = Bytes{ 0x00, 0xC0, 0x00, 0x00, le };
		header = expect;
		data_at = data_end;
		fetching = true;
	}
}
}
