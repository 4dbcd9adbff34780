// Simulated environment: the card, the reader link between terminal and card
// (block or character level, any legal segmentation) and its faults.
#pragma once
#include "core.hpp"
#include "model.hpp"

namespace world {
using model::Tlv;
using model::TlvList;

struct Resp { Bytes data; uint16_t sw; };

struct CardIf {
	virtual ~CardIf() {}
	virtual Resp handle(const Bytes& capdu) = 0;
	virtual void power_cycle() {}
};

// ------------------------------------------------------------ reader link
struct LinkCfg {
	bool tpdu = false;
	bool segment = false;       // split exchanges in every legal way
	unsigned fault_den = 0;     // per-step fault chance 1/den; 0: none
	int fault_step = -1;        // fault exactly at this step of the link
	unsigned kinds = 0xFFFF;    // enabled fault kinds (swarm)
	uint64_t step_cap = 20000;  // reader calls per run before "endless" is reported
};

enum FaultKind { F_READER_ERROR, F_EMPTY, F_TRUNCATE, F_CORRUPT, F_EXTEND, F_GARBAGE, F_WAIT_BYTE, F_REPEAT, F_PROCBYTE, F_DATA_UNASKED, F_OVERSIZE, F_COUNT };

struct Link {
	LinkCfg cfg;
	CardIf* card = nullptr;
	std::vector<model::LinkStep> log;
	uint8_t junk = 0x5C;
	uint64_t steps = 0, faults = 0;
	bool disturbed = false;        // a fault changed the current command

	// command in progress
	enum State { IDLE, DATA, PENDING, RESEND } st = IDLE;
	Bytes cmd;                     // complete or partial C-APDU
	size_t need = 0;               // command data bytes outstanding (TPDU)
	int kase = 0;
	Resp resp;                     // what the card answered
	size_t off = 0;
	bool warn_sent = false;
	uint16_t after_warn = 0x9000;  // status of the data that follows a warning
	bool sixc_sent = false;
	unsigned dataless = 0;
	Bytes resend;                  // expected repetition after a wrong-length status
	Bytes last;
	// what the card produced for the most recent completed command
	struct Done { Bytes capdu; Resp resp; bool clean; };
	std::vector<Done> handled;
	void (*on_cap)(Link*) = nullptr;
	std::function<Bytes(const Bytes&)> adversary;
	bool keep_log = true;

	void reset() { log.clear(); st = IDLE; handled.clear(); steps = 0; faults = 0; disturbed = false; last.clear(); }
	int trx(const void* tx, size_t tx_len, void* rx, size_t* rx_len);
	Bytes protocol(const Bytes& tx, uint8_t& ins);
	Bytes deliver(unsigned le, bool fetch);
	Bytes answer_command();
	Bytes out(const Bytes& data, uint16_t sw, uint8_t ins);
	uint8_t cur_ins = 0;
	int hint_case = 0;             // APDU case of the command in character mode (0: by instruction)
};
extern "C" int link_trx(void* ctx, const void* tx, size_t tx_len, void* rx, size_t* rx_len);

// ------------------------------------------------------------ TLV building
Bytes tlv(uint32_t tag, const Bytes& val, int len_form = 0);  // len_form 0 minimal, 1: 81, 2: 82
void put(Bytes& b, const Bytes& x);
inline Bytes cat(std::initializer_list<Bytes> l) { Bytes r; for (auto& x : l) { put(r, x); } return r; }

// ------------------------------------------------------------ EMV card
struct Rec { Bytes data; uint16_t sw; };
struct CardApp {
	Bytes aid;
	Bytes fci;
	uint16_t select_sw = 0x9000;
	Resp gpo;
	std::map<std::pair<unsigned, unsigned>, Rec> files;  // (sfi, record)
};
struct EmvCard : CardIf {
	bool has_pse = true;
	uint16_t pse_sw = 0x9000;
	Bytes pse_fci;
	unsigned pse_sfi = 1;
	std::vector<Rec> dir;
	std::vector<CardApp> apps;
	uint16_t end_of_records = 0x6A83;
	// override: the n-th command is answered with this status
	int override_at = -1;
	uint16_t override_sw = 0;
	// state
	int cmd_no = 0;
	int cur = -2;                 // -2 nothing, -1 PSE, n app
	int cursor = -1;
	Bytes last_name;
	bool gpo_done = false;
	std::vector<Bytes> gpo_cmds;
	Resp handle(const Bytes& capdu) override;
	void power_cycle() override { cmd_no = 0; cur = -2; cursor = -1; gpo_done = false; gpo_cmds.clear(); }
};

// ------------------------------------------------------------ generators
struct Swarm {
	unsigned malformed = 0;       // chance per structure, out of 64
	unsigned odd_sw = 0;          // chance per command status, out of 64
	bool rich = true;
	bool big = false;
	unsigned maxapps = 4;
	bool pse = true;
	unsigned pdol = 0;            // 0 random
	bool long_forms = false;
};
struct Terminal {
	std::vector<model::Aid> aids;
	TlvList config, params;
	uint8_t pos_entry = 0x05;
};
Swarm gen_swarm(bool allow_bad);
Terminal gen_terminal(const Swarm& s);
EmvCard gen_card(const Swarm& s, const Terminal& t);
Bytes gen_structure(const Swarm& s);        // nested data elements
Bytes gen_structure_fci(const Swarm& s);    // answer to a selection
Bytes gen_structure_entry(const Swarm& s);  // directory entry
std::string describe(const EmvCard& c);
std::string describe(const Terminal& t);
uint16_t gen_sw();
Bytes gen_list(const Swarm& s);      // a data object list
Bytes gen_fci(const Swarm& s, const Bytes& aid, bool* ok = nullptr);
}
