// Simulated PC/SC service: readers, cards, a simulated clock and an event
// queue (insertions, removals, readers unplugged, other users, service
// errors). Implements the SCard functions that the library calls.
#pragma once
#include "core.hpp"
#include "world.hpp"

namespace svc {

struct Card {
	int id = 0;
	Bytes atr;
	bool contactless = false;
	Bytes uid;
	uint16_t uid_sw = 0x9000;    // status of the UID request
	Bytes uid_raw;               // complete odd answer to the UID request (if use_raw)
	bool use_raw = false;
	unsigned protocol = 1;       // SCARD_PROTOCOL_T0 or _T1
	bool mute = false;
	// command exchange: returns false for a link error
	std::function<bool(const Bytes& tx, Bytes& rx, size_t cap)> trx;
	std::function<void()> power;
};

struct Answer { bool ok = true; Bytes data; size_t claim = 0; };   // claim: length reported although the call failed

struct Reader {
	std::string name;
	bool plugged = true;
	int card = -1;               // index into cards, -1: empty
	bool held = false;           // another application holds the card exclusively
	bool shared = false;         // another application uses the card
	unsigned counter = 0;
	Answer features;
	std::map<uint32_t, Answer> controls;
	uint32_t inserted = 0;       // serial number of the insertion
	bool unpowered = false;      // the service has not powered the card
	bool unavailable = false;    // the service cannot tell the state
};

enum EventKind { EV_INSERT, EV_REMOVE, EV_UNPLUG, EV_PLUG, EV_HOLD, EV_UNHOLD, EV_SHARE, EV_UNSHARE, EV_ERROR, EV_SPURIOUS, EV_CLOCK_JUMP };
struct Event { uint64_t at; EventKind kind; int reader; int64_t arg; };

struct Handle { int ctx; int reader; int share; uint32_t inserted; int card; enum { OPEN, CLOSED, DEAD } st; unsigned opened, closed; };

struct Service {
	std::vector<Card> cards;
	std::vector<Reader> readers;
	std::vector<Event> events;   // sorted by time
	std::map<long, int> ctxs;    // context -> 1 open, 0 closed
	std::map<long, Handle> handles;
	long next_ctx = 0, next_handle = 0;
	uint64_t now = 0;            // microseconds
	uint64_t wall_base = 0;
	uint64_t mono_base = 0; // time since boot at the start
	uint64_t calls = 0, call_cap = 6000;
	uint64_t latency_total = 0;
	unsigned latency_den = 0;    // chance 1/den that a call takes time
	unsigned fault_den = 0;      // chance 1/den that a call fails
	int fail_call = -1;          // fail exactly this call (counting from 0)
	bool fail_kills = false;     // failing disconnect also invalidates the handle
	bool list_grows = false;     // a reader appears between the two list calls
	int list_calls = 0;
	std::vector<int> listed;     // readers named by the last list
	uint32_t pending_error = 0;  // for EV_ERROR in a wait
	unsigned insert_no = 0;
	uint32_t spurious_mask = 0;  // readers with an unexplained change not yet delivered
	uint64_t faults = 0;         // calls that returned an injected error
	std::vector<std::pair<uint64_t, uint32_t>> hist;   // time, readers with a card
	uint32_t present() const;
	void note();
	std::vector<std::pair<uint64_t, std::vector<uint32_t>>> states;   // time, state of every reader, whenever they change
	std::function<void()> on_call;
	uint64_t disc_failed = 0;
	std::map<int, int> tried;    // reader -> state of feature retrieval
	std::map<int, std::map<uint32_t, Answer>> delivered;   // reader -> code -> answer delivered (features under code 0)
	std::vector<model::LinkStep> xlog;   // command exchanges with cards (without identifier requests)
	std::vector<std::pair<uint64_t, int64_t>> walls;   // simulated time, wall clock second, whenever they change
	bool freeze_wall = false;
	uint64_t first_exchange = 0;
	uint64_t connected_at = 0;   // last successful exclusive connection
	bool set_junk_on_failure = false;
	std::string problem;         // protocol misuse by the caller (first one)
	std::string who = "P16";     // property that owns misuse

	void reset();
	void sync_clock();
	void advance(uint64_t to);   // applies the events due
	void apply(const Event& e);
	uint32_t state(int r) const; // SCARD_STATE bits
	void insert(int r, int card);
	void remove(int r);
	void schedule(uint64_t at, EventKind k, int r, int64_t arg = 0);
	size_t open_handles() const;
	size_t open_handles_on(int r) const;
	size_t open_contexts() const;
	bool call(const char* name, uint32_t* err);   // common part; true: inject this error
	void misuse(const char* cls, const std::string& m);
};
extern Service S;
extern const unsigned PROPERTIES[];
void gen_answers(Reader& r);   // answers to feature and property requests

}
