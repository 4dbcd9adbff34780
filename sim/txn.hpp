// One terminal session under test: drives the real library through its public
// functions over the simulated link and checks every step against the model.
#pragma once
#include "core.hpp"
#include "model.hpp"
#include "world.hpp"
extern "C" {
#include "emv.h"
#include "emv_ttl.h"
#include "emv_tal.h"
#include "emv_app.h"
#include "emv_tlv.h"
#include "emv_tags.h"
#include "emv_dol.h"
#include "emv_fields.h"
#include "emv_debug.h"
#include "emv_strings.h"
}

struct Snapshot {           // everything observable about one transaction
	std::vector<std::string> lines;
	bool operator==(const Snapshot& o) const { return lines == o.lines; }
};

model::TlvList from_list(const struct emv_tlv_list_t& l);
std::string app_str(const struct emv_app_t* a);

struct Txn {
	world::Terminal term;
	world::EmvCard* card = nullptr;
	world::Link link;
	struct emv_ttl_t ttl;
	struct emv_ctx_t ctx;
	struct emv_app_list_t list;

	// model state
	std::vector<model::App> cand;
	bool have_sel = false, sel_moved = false;
	model::App sel;
	model::TlvList icc;
	size_t pos = 0;
	bool ambiguous = false;
	bool check = true;        // compare with the model
	uint8_t fill = 0xA5;
	Snapshot snap;
	// memory shortage: an operation hit by it may report an error
	bool oom = false, setup_failed = false;
	const std::vector<std::string>* universe = nullptr;   // applications the card can contribute
	uint64_t failed0 = 0;
	bool hit() const { return oom && sim::alloc_failed() > failed0; }

	Txn();
	void setup_ctx();                 // emv_ctx_init + config + supported applications
	void load_params();
	void begin(world::EmvCard* c, const world::LinkCfg& cfg);   // new card inserted
	int build();
	int select(unsigned index);
	int initiate();
	int read();
	void full(unsigned max_attempts = 6, bool again = false);    // the whole transaction with choices
	void parts();                            // the same steps, function by function
	void lists();                            // data for request lists of the card
	void texts();                            // descriptions of elements
	std::function<void()> between;           // called between the steps of full()
	void clear_list();
	void clear_all();
	std::string tag(const char* stageprop) const;
	void check_list(const char* p, const char* what);

private:
	void pre(const char* stage);
	void post();
	struct Exec { model::Verdict v; Bytes data; uint16_t sw; };
	Exec command(const Bytes& capdu, const char* prop);
	void expect_no_more(const char* prop);
	int model_pse(std::vector<model::App>& out);
	int model_direct(std::vector<model::App>& out);
	int model_gpo(const Bytes& data, model::TlvList& out);
	int model_read(const Bytes& afl, model::TlvList& recs);
	int tal = 0;              // result expected from the application layer function
};
