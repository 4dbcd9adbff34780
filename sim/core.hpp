// Deterministic simulation core: choice source, shared-memory run record,
// allocation ledger with fault injection, simulated clock, batch runner,
// minimiser and replay.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <memory>

typedef std::vector<uint8_t> Bytes;

std::string hex(const uint8_t* p, size_t n);
inline std::string hex(const Bytes& b) { return hex(b.data(), b.size()); }

// ---------------------------------------------------------------- choices
// Every decision of a run (generated data, schedule, fault) is one pick().
// A run is a pure function of the recorded sequence; zero is always the
// simplest alternative and is what an exhausted replay yields.
namespace sim {

uint32_t pick(uint32_t n);                 // 0..n-1
inline bool chance(uint32_t num, uint32_t den) { return pick(den) >= den - num; }
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + pick(hi - lo + 1); }
Bytes rbytes(size_t n);
size_t choice_mark();
void choice_rewind(size_t mark);           // following picks repeat the record
void choice_seek(size_t pos);
size_t choice_end();
uint64_t run_index();

// ---------------------------------------------------------------- tracing
void ev(uint64_t tag, uint64_t a = 0, uint64_t b = 0);    // abstract event: state measure and trace hash
void ev_bytes(uint64_t tag, const void* p, size_t n);     // raw: trace hash only
bool tracing();
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t trace_hash();
uint64_t abstract_hash();
uint64_t hash64(const void* p, size_t n, uint64_t h = 1469598103934665603ull);

// ---------------------------------------------------------------- reporting
enum { STAGE_HARNESS = 0 };
void set_stage(const char* stage);         // stage of the system under test (for crash attribution)
const char* stage();
void op_begin(const char* stage);          // arms the CPU-time watchdog for one operation
void op_end();
[[noreturn]] void violation(const std::string& prop, const char* cls, const std::string& msg);
void own_everything(bool on);              // from here on every failure belongs to the property being decided
void probe(const char* name, uint64_t n = 1);   // rare-condition reached
void fault(const char* kind, uint64_t n = 1);   // fault kind fired
void add_time(uint64_t us);                // simulated time covered
void evaluated(uint64_t n = 1);            // oracle evaluations
void nontrivial();                         // this run counts as non-trivial
void sample(const std::string& s);         // describe this run (kept for the first few)
[[noreturn]] void run_abandon();           // end the run (masked by another property's failure)
const std::string& prop();                 // property being decided
bool is_prop(const char* p);

// ---------------------------------------------------------------- allocation
struct AllocStats { uint64_t live, count, failed; };
void alloc_reset();                        // forget ledger and faults
void alloc_fill(uint8_t fill);             // content of fresh memory
void alloc_fail_at(int64_t k);             // fail the k-th request from now (1-based), <=0 off
void alloc_fail_from(int64_t k);           // fail every request from the k-th on
void alloc_fail_clear();
uint64_t alloc_count();
uint64_t alloc_failed();
uint64_t alloc_live();
void alloc_track_bad_free(bool on);
void stack_fill(uint8_t fill);             // dirty the stack below

// ---------------------------------------------------------------- clock
struct Clock { int64_t sec; int64_t nsec; bool fail; };
extern Clock clk;
extern int64_t mono_us;                    // monotonic clock; <0: follows clk
extern void (*on_sleep)(uint64_t us);
extern void (*on_clock)();                 // called before the system under test reads a clock



// ---------------------------------------------------------------- tasks
// Several tasks share the process as fibers; at every seam (reader call,
// memory request, debug event) the scheduler decides which one goes on. Each
// task has its own choice cursor, allocation faults and stage.
void seam();
unsigned current_task();
unsigned task_switches();
struct Task { std::function<void()> body; size_t cursor; size_t end; };
void run_tasks(std::vector<Task>& t, unsigned policy);

// per-binary entry points
struct PropDef { const char* id; void (*run)(); const char* stages; };
int main_driver(int argc, char** argv, const std::vector<PropDef>& props);

}
