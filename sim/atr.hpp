// Answers to reset: reference decoding and description, generation, damage.
#pragma once
#include "core.hpp"

namespace atr {
struct AtrModel {
	bool iso_ok = false;
	int emv = -1;                 // 1 accept, 0 reject, -1 not specified
	bool iso_open = false;        // acceptance not specified
	std::string why;
	int off[4][5];                // offsets of TA TB TC TD, 0: absent
	unsigned K = 0, hist_off = 0, hist_len = 0, si_off = 0, si_len = 0;
	bool tck = false; uint8_t tck_val = 0; uint8_t T1 = 0;
	unsigned Di = 1, Fi = 372; float fmax = 5;
	bool vpp = true; unsigned Vpp = 5000, Vppc = 5000, Ipp = 50;
	unsigned N = 0, GT = 12, CGT = 12, proto = 0;
	bool spec = false; unsigned spec_proto = 0; bool implicit = false, may_change = false;
	unsigned classes = 1, clock_stop = 0, spu = 0;
	unsigned WI = 10, WT = 0, IFSI = 32, CWI = 13, CWT = 0, BWI = 4, BWT = 0, edc = 0;
	unsigned LCS = 0, SW1 = 0, SW2 = 0;
};

AtrModel atr_model(const Bytes& a);
Bytes gen_atr(bool* wellformed);
Bytes damage(Bytes a);

// the description of an answer to reset, line by line
struct TextLine {
	std::string text;
	bool exact;             // false: only this beginning is specified
	bool optional = false;  // may be absent
};
std::vector<TextLine> text(const AtrModel& m, const Bytes& a);
// single descriptions; empty string: not specified
std::string describe(const AtrModel& m, const Bytes& a, int k, int i);   // k: 0 TA, 1 TB, 2 TC, 3 TD, 4 T0, 5 TS, 6 T1
std::vector<std::string> service_data(uint8_t v);
bool capabilities(const Bytes& v, std::vector<std::string>& out);        // false: not specified
std::string life_cycle(uint8_t v);
}
