// Reference model of the EMV terminal behaviour: written from the EMV and
// ISO 7816 rules, sharing no code with the system under test.
#pragma once
#include "core.hpp"

namespace model {

struct Tlv { uint32_t tag; Bytes val; bool operator==(const Tlv& o) const { return tag == o.tag && val == o.val; } };
typedef std::vector<Tlv> TlvList;

struct Dec { int r; uint32_t tag; size_t off, len; bool constructed; bool indef; };

// decode one BER-TLV object; r: bytes consumed, 0 end, <0 malformed
Dec ber(const uint8_t* p, size_t n);

// flatten; 0: ok, 1: malformed (elements before the defect are in out)
// indefinite lengths (not allowed by EMV) set ambiguous
int parse(const uint8_t* p, size_t n, TlvList& out, bool& ambiguous);

const Tlv* find(const TlvList& l, uint32_t tag);
std::string str(const TlvList& l);

struct App {
	Bytes aid;
	TlvList tlvs;
	std::string name;       // full expected display name
	unsigned priority = 0;
	bool confirm = false;
};
bool app_from_entry(const TlvList& pse, const uint8_t* p, size_t n, App& app, bool& ambiguous);
bool app_from_fci(const uint8_t* p, size_t n, App& app, bool& ambiguous);

struct Aid { Bytes v; bool partial; };
bool supported(const Bytes& aid, const std::vector<Aid>& aids);

// DOL: false if malformed
struct DolEntry { uint32_t tag; unsigned len; };
bool dol_parse(const Bytes& dol, std::vector<DolEntry>& out);
Bytes dol_data(const std::vector<DolEntry>& d, const std::vector<const TlvList*>& sources);

std::string iso8859_utf8(unsigned page, const std::string& s);

// ------------------------------------------------------------ link protocol
// One call of the reader: what the terminal sent and what the reader gave
struct LinkStep { Bytes tx; int r; Bytes rx; };

enum Verdict { OK, FAIL, AMBIG, MISMATCH };
struct ExecResult { Verdict v; Bytes data; uint16_t sw; std::string why; size_t steps; };

// interpret the recorded exchange of one command starting at log[pos]
ExecResult exec(const std::vector<LinkStep>& log, size_t& pos, bool tpdu, const Bytes& capdu, size_t cap);

// APDU case: 1,2,3,4 (short) or 0 if not supported
int apdu_case(const Bytes& c);
}
