#include "core.hpp"
#include <sys/personality.h>
#include <malloc.h>
#include <cstdarg>
#include <cstdarg>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <csetjmp>
#include <ucontext.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

std::string hex(const uint8_t* p, size_t n)
{
	static const char d[] = "0123456789ABCDEF";
	std::string s;
	s.reserve(n * 2);
	for (size_t i = 0; i < n; ++i) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
	return s;
}

namespace sim {

static const size_t MAX_CHOICES = 1 << 18;
static const size_t MAX_COUNTERS = 400;
struct Counter { char name[56]; char kind; uint64_t n; };

// Shared with the supervisor: survives the death of a worker
struct Shm {
	volatile uint32_t nchoice;
	uint32_t choices[MAX_CHOICES];
	volatile uint64_t run_index;
	volatile uint32_t in_run;
	volatile uint32_t has_violation;
	char vprop[16];
	char vclass[96];
	char vmsg[8192];
	char stage[64];
	char last_stage[64];
	char asan[4096];
	uint64_t runs, nontrivial, evals, sim_us, abandoned;
	Counter counters[MAX_COUNTERS];
	char samples[6][1500];
	uint32_t nsamples;
	uint64_t thash;
	volatile uint32_t done;
};
static Shm* shm;
static bool replaying, trace_on;
static uint64_t rs[2];
static size_t cpos, high;                  // position, furthest position of this run
static uint64_t th, ah;
static bool run_nontrivial;
static std::string g_prop;
static std::unordered_set<uint64_t> seen;
static jmp_buf abandon_jmp;
static std::string trace_text;

static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rnd()
{
	uint64_t s0 = rs[0], s1 = rs[1], r = s0 + s1;
	s1 ^= s0;
	rs[0] = rotl(s0, 24) ^ s1 ^ (s1 << 16);
	rs[1] = rotl(s1, 37);
	return r;
}
static uint64_t splitmix(uint64_t& x)
{
	uint64_t z = (x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

uint64_t hash64(const void* p, size_t n, uint64_t h)
{
	const uint8_t* b = (const uint8_t*)p;
	for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
	return h;
}

uint32_t pick(uint32_t n)
{
	if (n <= 1) { return 0; }
	uint32_t v;
	if (cpos < shm->nchoice) {
		v = shm->choices[cpos] % n;
		// first use normalises the record; later uses (after a rewind) only read it
		if (cpos >= high) { shm->choices[cpos] = v; }
		++cpos;
		if (cpos > high) { high = cpos; }
		return v;
	}
	if (replaying || shm->nchoice >= MAX_CHOICES) {
		v = 0;
		if (shm->nchoice >= MAX_CHOICES) { return 0; }
	} else {
		v = (uint32_t)(((rnd() >> 32) * (uint64_t)n) >> 32);
	}
	shm->choices[shm->nchoice] = v;
	shm->nchoice = shm->nchoice + 1;
	cpos = shm->nchoice;
	high = cpos;
	return v;
}
size_t choice_mark() { return cpos; }
void choice_rewind(size_t m) { cpos = m; }
void choice_seek(size_t p) { cpos = p; }
size_t choice_end() { return high; }
uint64_t run_index() { return shm->run_index; }

Bytes rbytes(size_t n)
{
	Bytes b(n);
	for (size_t i = 0; i < n; ++i) { b[i] = (uint8_t)pick(256); }
	return b;
}

void ev(uint64_t tag, uint64_t a, uint64_t b)
{
	uint64_t x[3] = { tag, a, b };
	th = hash64(x, sizeof(x), th);
	ah = hash64(x, sizeof(x), ah);
}
void ev_bytes(uint64_t tag, const void* p, size_t n)
{
	uint64_t x[2] = { tag, n };
	th = hash64(x, sizeof(x), th);
	th = hash64(p, n, th);
}
bool tracing() { return trace_on; }
void trace(const char* fmt, ...)
{
	if (!trace_on) { return; }
	char buf[4096];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	trace_text += buf;
	trace_text += '\n';
	if (trace_text.size() > 400000) { trace_on = false; trace_text += "... trace truncated\n"; }
}
uint64_t trace_hash() { return th; }
uint64_t abstract_hash() { return ah; }

void set_stage(const char* s) { snprintf(shm->stage, sizeof(shm->stage), "%s", s); }
const char* stage() { return shm->stage; }

static bool fibers_on;
static void arm(int sec)
{
	if (fibers_on) { return; }   // one watchdog for all tasks
	struct itimerval it;
	memset(&it, 0, sizeof(it));
	it.it_value.tv_sec = sec;
	setitimer(ITIMER_PROF, &it, nullptr);
}
static uint8_t stack_byte = 0xA5;
static __attribute__((noinline)) void stack_scrub();
static __attribute__((noinline)) void op_begin_(const char* s) { set_stage(s); snprintf(shm->last_stage, sizeof(shm->last_stage), "%s", s); arm(8); }
// what an operation may find on its stack is the same in every execution
__attribute__((noinline)) void op_begin(const char* s) { op_begin_(s); stack_scrub(); }
void op_end() { set_stage("harness"); arm(60); }

static void finish_violation()
{
	shm->thash = th;
	if (trace_on || replaying) {
		// written by the child itself when replaying
		const char* tf = getenv("SIM_TRACE_OUT");
		if (tf) {
			FILE* f = fopen(tf, "w");
			if (f) { fwrite(trace_text.data(), 1, trace_text.size(), f); fclose(f); }
		}
	}
	_exit(3);
}

static bool own_all;
void own_everything(bool on) { own_all = on; }
void violation(const std::string& p, const char* cls, const std::string& msg)
{
	if (p != g_prop && !own_all) { run_abandon(); }
	snprintf(shm->vprop, sizeof(shm->vprop), "%s", g_prop.c_str());
	snprintf(shm->vclass, sizeof(shm->vclass), "%s", cls);
	snprintf(shm->vmsg, sizeof(shm->vmsg), "%s", msg.c_str());
	shm->has_violation = 1;
	trace("VIOLATION %s: %s", cls, msg.c_str());
	finish_violation();
	abort();
}
void run_abandon()
{
	if (fibers_on) { violation(g_prop, "diverged", "an operation that ends when performed alone does not end like that between the others"); }
	shm->abandoned++;
	longjmp(abandon_jmp, 1);
}
static void count(char kind, const char* name, uint64_t n)
{
	for (size_t i = 0; i < MAX_COUNTERS; ++i) {
		Counter& c = shm->counters[i];
		if (!c.name[0]) {
			snprintf(c.name, sizeof(c.name), "%s", name);
			c.kind = kind; c.n = n;
			return;
		}
		if (c.kind == kind && strcmp(c.name, name) == 0) { c.n += n; return; }
	}
}
void probe(const char* name, uint64_t n) { count('p', name, n); }
void fault(const char* kind, uint64_t n) { count('f', kind, n); ev(0xFA017, hash64(kind, strlen(kind))); trace("  fault injected: %s", kind); }
void add_time(uint64_t us) { shm->sim_us += us; }
void evaluated(uint64_t n) { shm->evals += n; }
void nontrivial() { run_nontrivial = true; }
void sample(const std::string& s)
{
	if (shm->nsamples < 6) {
		snprintf(shm->samples[shm->nsamples], sizeof(shm->samples[0]), "run %llu: %s", (unsigned long long)shm->run_index, s.c_str());
		shm->nsamples++;
	}
}
const std::string& prop() { return g_prop; }
bool is_prop(const char* p) { return g_prop == p; }

// ---------------------------------------------------------------- allocation
static std::unordered_map<void*, size_t>* ledger;
static uint8_t fillb = 0xA5;
static int64_t fail_at, fail_from;
static uint64_t acount, afailed;
static bool ledger_on;

void alloc_reset() { if (!ledger) { ledger = new std::unordered_map<void*, size_t>(); } ledger->clear(); fail_at = fail_from = 0; acount = afailed = 0; ledger_on = true; }
void alloc_fill(uint8_t f) { fillb = f; }
void alloc_fail_at(int64_t k) { fail_at = k > 0 ? (int64_t)acount + k : 0; }
void alloc_fail_from(int64_t k) { fail_from = k > 0 ? (int64_t)acount + k : 0; }
void alloc_fail_clear() { fail_at = fail_from = 0; }
uint64_t alloc_count() { return acount; }
uint64_t alloc_failed() { return afailed; }
uint64_t alloc_live() { return ledger ? ledger->size() : 0; }

[[noreturn]] static void runaway()
{
	snprintf(shm->asan, sizeof(shm->asan), "hang: operation '%s' keeps allocating memory without end", shm->stage);
	shm->thash = th;
	_exit(25);
}
static bool should_fail()
{
	++acount;
	if (ledger && ledger->size() > 400000) { runaway(); }
	if ((fail_at && (int64_t)acount == fail_at) || (fail_from && (int64_t)acount >= fail_from)) {
		++afailed;
		fault("alloc_failure");
		return true;
	}
	return false;
}

static __attribute__((noinline)) void stack_scrub()
{
	uint8_t buf[24 * 1024];
	memset(buf, stack_byte, sizeof(buf));
	__asm__ volatile("" : : "r"(buf) : "memory");
}
__attribute__((noinline)) void stack_fill(uint8_t f)
{
	stack_byte = f;
	stack_scrub();
}

// tasks
struct Fiber {
	ucontext_t uc;
	char* stack = nullptr;
	void* fake = nullptr;
	bool done = false;
	char stage[32];
	uint64_t acount = 0, afailed = 0;
	int64_t fail_at = 0, fail_from = 0;
	uint8_t fill = 0xA5;
};
static const size_t FIBER_STACK = 1024 * 1024;
static Fiber fib[4];
static ucontext_t main_uc;
static void* main_fake;
static const void* main_bottom;
static size_t main_size;
static unsigned fcur, fpolicy, fswitches;
static size_t sched_cursor;
static std::vector<Task>* ftasks;

static void fiber_save(Fiber& f)
{
	memcpy(f.stage, shm->stage, sizeof(f.stage));
	f.stage[sizeof(f.stage) - 1] = 0;
	f.acount = acount; f.afailed = afailed; f.fail_at = fail_at; f.fail_from = fail_from; f.fill = fillb;
}
static void fiber_load(Fiber& f)
{
	acount = f.acount; afailed = f.afailed; fail_at = f.fail_at; fail_from = f.fail_from; fillb = f.fill;
	memcpy(shm->stage, f.stage, sizeof(f.stage));
}
static void fiber_entry()
{
	__sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
	(*ftasks)[fcur].body();
	fib[fcur].done = true;
	fiber_save(fib[fcur]);
	(*ftasks)[fcur].end = cpos;
	__sanitizer_start_switch_fiber(nullptr, main_bottom, main_size);
	setcontext(&main_uc);
}
static void fiber_to_main()
{
	Fiber& f = fib[fcur];
	fiber_save(f);
	(*ftasks)[fcur].cursor = cpos;
	__sanitizer_start_switch_fiber(&f.fake, main_bottom, main_size);
	swapcontext(&f.uc, &main_uc);
	__sanitizer_finish_switch_fiber(f.fake, nullptr, nullptr);
}
void seam()
{
	if (!fibers_on) { return; }
	(*ftasks)[fcur].cursor = cpos;
	cpos = sched_cursor;
	bool sw = false;
	switch (fpolicy) {
		case 0: sw = pick(32) == 31; break;
		case 1: sw = pick(8) == 7; break;
		case 2: sw = pick(2); break;
		default: sw = true; break;
	}
	sched_cursor = cpos;
	cpos = (*ftasks)[fcur].cursor;
	if (sw) { fiber_to_main(); }
}
unsigned current_task() { return fibers_on ? fcur : 0; }
unsigned task_switches() { return fswitches; }
void run_tasks(std::vector<Task>& t, unsigned policy)
{
	ftasks = &t;
	fpolicy = policy;
	fswitches = 0;
	sched_cursor = cpos;
	for (size_t i = 0; i < t.size(); ++i) {
		Fiber& f = fib[i];
		if (!f.stack) { f.stack = (char*)mmap(nullptr, FIBER_STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
		__asan_unpoison_memory_region(f.stack, FIBER_STACK);
		f.done = false;
		f.fake = nullptr;
		snprintf(f.stage, sizeof(f.stage), "harness");
		f.acount = f.afailed = 0;
		f.fail_at = f.fail_from = 0;
		f.fill = 0xA5;
		getcontext(&f.uc);
		f.uc.uc_stack.ss_sp = f.stack;
		f.uc.uc_stack.ss_size = FIBER_STACK;
		f.uc.uc_link = nullptr;
		makecontext(&f.uc, fiber_entry, 0);
	}
	Fiber m;
	fiber_save(m);
	arm(20);
	fibers_on = true;
	unsigned last = ~0u;
	for (;;) {
		std::vector<unsigned> ready;
		for (unsigned i = 0; i < t.size(); ++i) { if (!fib[i].done && i != last) { ready.push_back(i); } }
		if (ready.empty()) {
			if (last < t.size() && !fib[last].done) { ready.push_back(last); } else { break; }
		}
		cpos = sched_cursor;
		unsigned k = ready[pick((uint32_t)ready.size())];
		sched_cursor = cpos;
		if (k != last) { ++fswitches; trace("[task %u]", k); ev(0x5C4ED, k); }
		last = fcur = k;
		fiber_load(fib[k]);
		cpos = t[k].cursor;
		__sanitizer_start_switch_fiber(&main_fake, fib[k].stack, FIBER_STACK);
		swapcontext(&main_uc, &fib[k].uc);
		__sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
	}
	fibers_on = false;
	arm(60);
	fiber_load(m);
	cpos = sched_cursor;
}

Clock clk = { 1700000000, 0, false };
int64_t mono_us = -1;
void (*on_sleep)(uint64_t us) = nullptr;
void (*on_clock)() = nullptr;

}

// Allocation entry points of the system under test (its objects have their
// malloc/calloc/realloc/free references renamed to these)
extern "C" {
void* sim_malloc(size_t n)
{
	sim::seam();
	if (sim::should_fail()) { return nullptr; }
	void* p = malloc(n);
	if (p) {
		memset(p, sim::fillb, n);
		if (sim::ledger) { (*sim::ledger)[p] = n; }
	}
	return p;
}
void* sim_calloc(size_t a, size_t b)
{
	sim::seam();
	if (sim::should_fail()) { return nullptr; }
	void* p = calloc(a, b);
	if (p && sim::ledger) { (*sim::ledger)[p] = a * b; }
	return p;
}
void sim_free(void* p)
{
	if (!p) { return; }
	sim::seam();
	if (sim::ledger) {
		auto it = sim::ledger->find(p);
		if (it != sim::ledger->end()) {
			memset(p, 0xDD, it->second);
			sim::ledger->erase(it);
		}
		// not in the ledger: AddressSanitizer reports double and wild frees
	}
	free(p);
}
void* sim_realloc(void* p, size_t n)
{
	sim::seam();
	if (sim::should_fail()) { return nullptr; }
	void* q = malloc(n);
	if (!q) { return nullptr; }
	memset(q, sim::fillb, n);
	if (p) {
		size_t old = malloc_usable_size(p);
		if (sim::ledger) {
			auto it = sim::ledger->find(p);
			if (it != sim::ledger->end()) { old = it->second; sim::ledger->erase(it); }
		}
		memcpy(q, p, old < n ? old : n);
		free(p);
	}
	if (sim::ledger) { (*sim::ledger)[q] = n; }
	return q;
}
char* sim_strdup(const char* s)
{
	size_t n = strlen(s) + 1;
	char* p = (char*)sim_malloc(n);
	if (p) { memcpy(p, s, n); }
	return p;
}
char* sim_strndup(const char* s, size_t max)
{
	size_t n = strnlen(s, max);
	char* p = (char*)sim_malloc(n + 1);
	if (p) { memcpy(p, s, n); p[n] = 0; }
	return p;
}
void* sim_reallocarray(void* p, size_t a, size_t b) { return sim_realloc(p, a * b); }
int sim_vasprintf(char** out, const char* fmt, va_list ap)
{
	va_list ap2;
	va_copy(ap2, ap);
	int n = vsnprintf(nullptr, 0, fmt, ap2);
	va_end(ap2);
	if (n < 0) { return -1; }
	*out = (char*)sim_malloc((size_t)n + 1);
	if (!*out) { return -1; }
	return vsnprintf(*out, (size_t)n + 1, fmt, ap);
}
int sim_asprintf(char** out, const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int n = sim_vasprintf(out, fmt, ap);
	va_end(ap);
	return n;
}
ssize_t sim_getdelim(char** line, size_t* cap, int delim, FILE* f)
{
	size_t n = 0;
	for (;;) {
		int c = fgetc(f);
		if (c == EOF && n == 0) { return -1; }
		if (!*line || n + 2 > *cap) {
			size_t want = n + 2 < 120 ? 120 : 2 * (n + 2);
			char* p = (char*)sim_realloc(*line, want);
			if (!p) { return -1; }
			*line = p;
			*cap = want;
		}
		if (c == EOF) { break; }
		(*line)[n++] = (char)c;
		if (c == delim) { break; }
	}
	(*line)[n] = 0;
	return (ssize_t)n;
}
ssize_t sim_getline(char** line, size_t* cap, FILE* f) { return sim_getdelim(line, cap, '\n', f); }
int sim_timespec_get(struct timespec* t, int base)
{
	if (sim::on_clock) { sim::on_clock(); }
	if (sim::clk.fail) { return 0; }
	t->tv_sec = sim::clk.sec;
	t->tv_nsec = sim::clk.nsec;
	return base;
}
int sim_clock_gettime(clockid_t id, struct timespec* t)
{
	if (sim::on_clock) { sim::on_clock(); }
	if (sim::mono_us >= 0 && id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE) {
		t->tv_sec = sim::mono_us / 1000000;
		t->tv_nsec = sim::mono_us % 1000000 * 1000;
		return 0;
	}
	if (sim::clk.fail) { return -1; }
	t->tv_sec = sim::clk.sec;
	t->tv_nsec = sim::clk.nsec;
	return 0;
}
static void do_sleep(uint64_t us)
{
	if (sim::on_sleep) { sim::on_sleep(us); return; }
	sim::clk.nsec += (int64_t)(us % 1000000) * 1000;
	sim::clk.sec += (int64_t)(us / 1000000) + sim::clk.nsec / 1000000000;
	sim::clk.nsec %= 1000000000;
}
int sim_nanosleep(const struct timespec* t, struct timespec* rem)
{
	do_sleep((uint64_t)t->tv_sec * 1000000 + t->tv_nsec / 1000);
	if (rem) { rem->tv_sec = 0; rem->tv_nsec = 0; }
	return 0;
}
int sim_usleep(unsigned us) { do_sleep(us); return 0; }
unsigned sim_sleep(unsigned s) { do_sleep((uint64_t)s * 1000000); return 0; }
int sim_gettimeofday(struct timeval* tv, void*)
{
	tv->tv_sec = sim::clk.sec;
	tv->tv_usec = sim::clk.nsec / 1000;
	return 0;
}
time_t sim_time(time_t* t)
{
	if (sim::on_clock) { sim::on_clock(); }
	if (t) { *t = (time_t)sim::clk.sec; }
	return (time_t)sim::clk.sec;
}
}

// ---------------------------------------------------------------- driver
namespace sim {

static void on_asan(const char* msg)
{
	// first lines of the report identify the fault class
	std::string s(msg ? msg : "");
	snprintf(shm->asan, sizeof(shm->asan), "%s", s.substr(0, sizeof(shm->asan) - 1).c_str());
	shm->thash = th;
}
static void on_prof(int)
{
	snprintf(shm->asan, sizeof(shm->asan), "hang: operation did not return within the CPU budget");
	shm->thash = th;
	_exit(4);
}

static Shm* new_shm()
{
	void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); _exit(90); }
	return (Shm*)p;
}

static const PropDef* pd;
static uint64_t base_seed;

// one run; returns normally when the run ended without violation
static void one_run(uint64_t index)
{
	uint64_t x = base_seed * 0x9E3779B97F4A7C15ull + hash64(g_prop.data(), g_prop.size()) + index * 0xD1B54A32D192ED03ull;
	rs[0] = splitmix(x);
	rs[1] = splitmix(x);
	cpos = high = 0;
	th = ah = 1469598103934665603ull;
	run_nontrivial = false;
	trace_text.clear();
	alloc_reset();
	fillb = 0xA5;
	clk.sec = 1700000000; clk.nsec = 0; clk.fail = false;
	mono_us = -1;
	on_sleep = nullptr;
	on_clock = nullptr;
	own_all = false;
	set_stage("harness");
	shm->last_stage[0] = 0;
	arm(60);
	if (setjmp(abandon_jmp) == 0) {
		pd->run();
	}
	arm(0);
	shm->runs++;
	if (run_nontrivial) {
		if (seen.insert(ah).second) { shm->nontrivial++; }
	}
}

static void worker(Shm* s, uint64_t from, uint64_t step, uint64_t to, double deadline, const char* hashfile)
{
	shm = s;
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	signal(SIGPROF, on_prof);
	__asan_set_error_report_callback(on_asan);
	struct timespec ts;
	FILE* hl = getenv("SIM_HASHLOG") ? fopen((std::string(getenv("SIM_HASHLOG")) + "." + std::to_string(getpid())).c_str(), "w") : nullptr;
	for (uint64_t i = from; i < to; i += step) {
		clock_gettime(CLOCK_MONOTONIC, &ts);
		if (ts.tv_sec + ts.tv_nsec * 1e-9 > deadline) { break; }
		shm->nchoice = 0;
		shm->run_index = i;
		shm->in_run = 1;
		one_run(i);
		shm->in_run = 0;
		if (hl) { fprintf(hl, "%llu %016llx %u\n", (unsigned long long)i, (unsigned long long)th, shm->nchoice); }
	}
	if (hl) { fclose(hl); }
	FILE* f = fopen(hashfile, "ab");
	if (f) {
		for (uint64_t h : seen) { fwrite(&h, 8, 1, f); }
		fclose(f);
	}
	shm->done = 1;
	_exit(0);
}

struct Outcome { bool bad = false; std::string cls, msg, stage; uint64_t th = 0; std::vector<uint32_t> choices; std::string asan; bool masked = false; int status = 0; };

static bool stage_accepted(const std::string& st)
{
	std::string l = std::string(",") + pd->stages + ",";
	return l == ",*," || l.find("," + st + ",") != std::string::npos;
}

static std::string asan_class(const std::string& a)
{
	// "==1==ERROR: AddressSanitizer: heap-buffer-overflow on ..."
	size_t p = a.find("AddressSanitizer: ");
	if (p != std::string::npos) {
		p += 18;
		size_t e = a.find_first_of(" \n", p);
		return a.substr(p, e - p);
	}
	p = a.find("runtime error: ");
	if (p != std::string::npos) {
		return "ub";
	}
	return "";
}

static Outcome classify(Shm* s, int status)
{
	Outcome o;
	o.status = status;
	if (WIFEXITED(status) && WEXITSTATUS(status) == 0) { return o; }
	o.th = s->thash;
	o.choices.assign(s->choices, s->choices + s->nchoice);
	o.stage = s->stage;
	o.asan = s->asan;
	if (s->has_violation) {
		o.bad = true;
		o.cls = s->vclass;
		o.msg = s->vmsg;
		return o;
	}
	if (o.stage == "harness" && s->last_stage[0] && o.asan.compare(0, 5, "hang:") != 0 && !asan_class(o.asan).empty()) {
		// inspecting the results of an operation touched invalid memory
		if (!stage_accepted(s->last_stage)) { o.stage = s->last_stage; o.masked = true; return o; }
		o.bad = true;
		o.cls = "invalid-result:" + asan_class(o.asan) + "@" + s->last_stage;
		o.msg = std::string("the results left by ") + s->last_stage + " refer to invalid memory: " + o.asan.substr(0, 700);
		return o;
	}
	if (o.stage == "harness" || o.stage.empty()) {
		// failure of the simulator itself
		o.bad = true;
		o.cls = "HARNESS";
		o.msg = std::string("harness failure: ") + s->asan;
		return o;
	}
	if (!stage_accepted(o.stage)) { o.masked = true; return o; }
	o.bad = true;
	if (o.asan.compare(0, 5, "hang:") == 0) {
		o.cls = "hang@" + o.stage;
		o.msg = o.asan;
	} else {
		std::string c = asan_class(o.asan);
		if (c.empty()) {
			if (WIFSIGNALED(status)) { c = "signal-" + std::to_string(WTERMSIG(status)); }
			else { c = "exit-" + std::to_string(WEXITSTATUS(status)); }
		}
		o.cls = "crash:" + c + "@" + o.stage;
		o.msg = "memory or control fault in " + o.stage + ": " + o.asan.substr(0, 700);
	}
	return o;
}

// run a choice sequence in a fresh child
static Outcome run_choices(const std::vector<uint32_t>& ch, const char* trace_out, std::vector<uint32_t>* norm = nullptr, uint64_t* hash_out = nullptr)
{
	Shm* s = new_shm();
	int errs = memfd_create("errors", 0);
	fflush(nullptr);
	pid_t pid = fork();
	if (pid == 0) {
		shm = s;
		signal(SIGPROF, on_prof);
		__asan_set_error_report_callback(on_asan);
		dup2(errs, 2);
		replaying = true;
		size_t n = std::min(ch.size(), MAX_CHOICES);
		memcpy(s->choices, ch.data(), n * 4);
		s->nchoice = n;
		if (trace_out) { setenv("SIM_TRACE_OUT", trace_out, 1); trace_on = true; }
		one_run(0);
		s->thash = th;
		if (trace_out) {
			FILE* f = fopen(trace_out, "w");
			if (f) { fwrite(trace_text.data(), 1, trace_text.size(), f); fclose(f); }
		}
		_exit(0);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	Outcome o = classify(s, st);
	if (errs >= 0) {
		// undefined-behaviour reports go to the error stream only
		char t[400];
		ssize_t n = pread(errs, t, sizeof(t) - 1, 0);
		if (n > 0 && o.bad) {
			t[n] = 0;
			std::string m = t;
			if (m.find("runtime error") != std::string::npos) { o.msg += m.substr(0, m.find('\n')); }
		}
		close(errs);
	}
	if (norm) { norm->assign(s->choices, s->choices + s->nchoice); }
	if (hash_out) { *hash_out = s->thash; }
	munmap(s, sizeof(Shm));
	return o;
}

// run a sequence of whole runs in a fresh child (for violations that need
// what earlier runs in the same process left behind)
static Outcome run_sequence(const std::vector<uint64_t>& idx, const char* trace_out)
{
	Shm* s = new_shm();
	fflush(nullptr);
	pid_t pid = fork();
	if (pid == 0) {
		shm = s;
		signal(SIGPROF, on_prof);
		__asan_set_error_report_callback(on_asan);
		int nul = open("/dev/null", O_WRONLY);
		dup2(nul, 2);
		if (trace_out) { setenv("SIM_TRACE_OUT", trace_out, 1); }
		for (uint64_t i : idx) {
			s->nchoice = 0;
			s->run_index = i;
			if (trace_out && i == idx.back()) { trace_on = true; }
			one_run(i);
		}
		_exit(0);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	Outcome o = classify(s, st);
	if (o.bad && s->run_index != idx.back()) { o.bad = false; }
	munmap(s, sizeof(Shm));
	return o;
}

static double now()
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static std::vector<uint32_t> minimise(std::vector<uint32_t> best, const std::string& cls, double budget, unsigned* attempts)
{
	double end = now() + budget;
	auto ok = [&](const std::vector<uint32_t>& c, std::vector<uint32_t>* norm) {
		++*attempts;
		Outcome o = run_choices(c, nullptr, norm);
		return o.bad && o.cls == cls;
	};
	auto trim = [](std::vector<uint32_t>& v) { while (!v.empty() && v.back() == 0) { v.pop_back(); } };
	trim(best);
	bool progress = true;
	while (progress && now() < end) {
		progress = false;
		// delete chunks
		for (size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1 && now() < end; len /= 2) {
			for (size_t i = 0; i + len <= best.size() && now() < end;) {
				std::vector<uint32_t> c(best);
				c.erase(c.begin() + i, c.begin() + i + len);
				trim(c);
				if (ok(c, nullptr)) { best = c; progress = true; } else { i += len; }
			}
			if (len == 1) { break; }
		}
		// zero chunks
		for (size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1 && now() < end; len /= 2) {
			for (size_t i = 0; i < best.size() && now() < end; i += len) {
				std::vector<uint32_t> c(best);
				bool any = false;
				for (size_t j = i; j < std::min(i + len, c.size()); ++j) { any |= c[j] != 0; c[j] = 0; }
				if (!any) { continue; }
				trim(c);
				if (ok(c, nullptr)) { best = c; progress = true; }
			}
			if (len == 1) { break; }
		}
		// lower single values
		for (size_t i = 0; i < best.size() && now() < end; ++i) {
			while (best[i] > 1 && now() < end) {
				std::vector<uint32_t> c(best);
				c[i] = best[i] / 2;
				if (!ok(c, nullptr)) {
					c[i] = best[i] - 1;
					if (best[i] > 8 || !ok(c, nullptr)) { break; }
				}
				best = c; progress = true;
			}
		}
	}
	return best;
}

static std::string jstr(const std::string& s)
{
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') { o += "\\n"; }
		else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); o += b; }
		else { o += c; }
	}
	return o + "\"";
}

int main_driver(int argc, char** argv, const std::vector<PropDef>& props)
{
	// the same addresses in every execution, where the system allows it
	int pers = personality(0xffffffff);
	if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC") && personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) {
		setenv("SIM_REEXEC", "1", 1);
		execv("/proc/self/exe", argv);
	}
	std::string out = "/tmp/sim_out", replay, tracefile;
	uint64_t runs = 1000, from = 0, seed = 1;
	int jobs = 8;
	double tlimit = 600;
	std::vector<std::string> known;
	double minbudget = 25;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto val = [&]() -> std::string { if (i + 1 >= argc) { fprintf(stderr, "missing value\n"); _exit(91); } return argv[++i]; };
		if (a == "--prop") { g_prop = val(); }
		else if (a == "--seed") { seed = strtoull(val().c_str(), nullptr, 10); }
		else if (a == "--runs") { runs = strtoull(val().c_str(), nullptr, 10); }
		else if (a == "--from") { from = strtoull(val().c_str(), nullptr, 10); }
		else if (a == "--jobs") { jobs = atoi(val().c_str()); }
		else if (a == "--time") { tlimit = atof(val().c_str()); }
		else if (a == "--out") { out = val(); }
		else if (a == "--replay") { replay = val(); }
		else if (a == "--trace") { tracefile = val(); }
		else if (a == "--known") { known.push_back(val()); }
		else if (a == "--minbudget") { minbudget = atof(val().c_str()); }
		else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 92; }
	}
	for (auto& p : props) { if (g_prop == p.id) { pd = &p; } }
	if (!pd) { fprintf(stderr, "unknown property %s\n", g_prop.c_str()); return 93; }
	base_seed = seed;

	if (!replay.empty()) {
		// replay file: header lines "key value", then "choices n n n ..."
		FILE* f = fopen(replay.c_str(), "r");
		if (!f) { perror(replay.c_str()); return 94; }
		std::vector<uint32_t> ch;
		std::string line;
		int c;
		std::string all;
		while ((c = fgetc(f)) != EOF) { all += (char)c; }
		fclose(f);
		size_t p = all.find("\nsequence");
		if (p != std::string::npos) {
			std::vector<uint64_t> idx;
			char* e;
			const char* q = all.c_str() + p + 9;
			while (*q == ' ') { unsigned long long v = strtoull(q, &e, 10); if (e == q) { break; } idx.push_back(v); q = e; }
			size_t sp = all.find("\nseed ");
			if (sp != std::string::npos) { base_seed = strtoull(all.c_str() + sp + 6, nullptr, 10); }
			if (idx.empty()) { fprintf(stderr, "empty sequence\n"); return 95; }
			Outcome o = run_sequence(idx, tracefile.empty() ? nullptr : tracefile.c_str());
			printf("REPLAY prop=%s bad=%d class=%s hash=%016llx\n", g_prop.c_str(), o.bad, o.cls.c_str(), (unsigned long long)o.th);
			if (o.bad) { printf("%s\n", o.msg.c_str()); }
			return o.bad ? (o.cls == "HARNESS" ? 96 : 3) : 0;
		}
		p = all.find("\nchoices");
		if (p == std::string::npos) { fprintf(stderr, "no choices in replay file\n"); return 95; }
		p += 8;
		char* e;
		const char* q = all.c_str() + p;
		while (*q == ' ') {
			unsigned long v = strtoul(q, &e, 10);
			if (e == q) { break; }
			ch.push_back((uint32_t)v);
			q = e;
		}
		Outcome o = run_choices(ch, tracefile.empty() ? nullptr : tracefile.c_str());
		uint64_t h = o.th;
		printf("REPLAY prop=%s bad=%d class=%s hash=%016llx\n", g_prop.c_str(), o.bad, o.cls.c_str(), (unsigned long long)h);
		if (o.bad) { printf("%s\n", o.msg.c_str()); }
		return o.bad ? (o.cls == "HARNESS" ? 96 : 3) : 0;
	}

	double t0 = now();
	double deadline = t0 + tlimit;
	std::vector<Shm*> shms;
	std::vector<pid_t> pids;
	std::vector<uint64_t> start(jobs);
	std::string hashfile = out + ".hashes";
	unlink(hashfile.c_str());
	auto spawn = [&](int j) {
		fflush(nullptr);
		pid_t pid = fork();
		if (pid == 0) {
			int nul = open("/dev/null", O_WRONLY);
			dup2(nul, 2);
			worker(shms[j], start[j], jobs, from + runs, deadline, (hashfile + std::to_string(j)).c_str());
		}
		pids[j] = pid;
	};
	pids.resize(jobs);
	for (int j = 0; j < jobs; ++j) {
		shms.push_back(new_shm());
		start[j] = from + j;
		unlink((hashfile + std::to_string(j)).c_str());
		spawn(j);
	}
	int alive = jobs;
	bool found = false;
	Outcome bad;
	uint64_t bad_index = 0, masked = 0;
	std::map<std::string, uint64_t> known_hits;
	std::map<std::string, std::string> masked_ex;
	while (alive) {
		int st;
		pid_t p = wait(&st);
		if (p < 0) { if (errno == EINTR) { continue; } break; }
		int j = -1;
		for (int k = 0; k < jobs; ++k) { if (pids[k] == p) { j = k; } }
		if (j < 0) { continue; }
		Shm* s = shms[j];
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { pids[j] = -1; --alive; continue; }
		if (WIFSIGNALED(st) && found && WTERMSIG(st) == SIGKILL) { pids[j] = -1; --alive; continue; }
		Outcome o = classify(s, st);
		bool isknown = false;
		if (o.bad) {
			for (auto& k : known) { if (o.cls == k || (o.cls + ": " + o.msg).find(k) == 0) { isknown = true; known_hits[k]++; } }
		}
		if (o.bad && !isknown) {
			if (!found || s->run_index < bad_index) { bad = o; bad_index = s->run_index; }
			if (!found) {
				found = true;
				for (int k = 0; k < jobs; ++k) { if (k != j && pids[k] > 0) { kill(pids[k], SIGKILL); } }
			}
			pids[j] = -1;
			--alive;
			continue;
		}
		if (!o.bad && !o.masked && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
			// should not happen
			fprintf(stderr, "worker ended oddly status=%d\n", st);
			return 97;
		}
		if (o.masked) { ++masked; masked_ex[o.stage + ":" + asan_class(o.asan)]=""; }
		s->has_violation = 0;
		s->asan[0] = 0;
		start[j] = s->run_index + jobs;
		if (found || masked > 400 || now() > deadline) { pids[j] = -1; --alive; continue; }
		spawn(j);
	}
	double t1 = now();

	// aggregate
	std::unordered_set<uint64_t> all;
	for (int j = 0; j < jobs; ++j) {
		std::string hf = hashfile + std::to_string(j);
		FILE* f = fopen(hf.c_str(), "rb");
		if (f) {
			uint64_t h;
			while (fread(&h, 8, 1, f) == 1) { all.insert(h); }
			fclose(f);
			unlink(hf.c_str());
		}
	}
	uint64_t nruns = 0, nevals = 0, us = 0, aband = 0, nontriv = 0;
	std::map<std::string, uint64_t> fc, pc;
	std::vector<std::string> samples;
	for (Shm* s : shms) {
		nruns += s->runs; nevals += s->evals; us += s->sim_us; aband += s->abandoned; nontriv += s->nontrivial;
		for (auto& c : s->counters) {
			if (!c.name[0]) { break; }
			(c.kind == 'f' ? fc : pc)[c.name] += c.n;
		}
		for (uint32_t i = 0; i < s->nsamples && samples.size() < 8; ++i) { samples.push_back(s->samples[i]); }
	}
	FILE* f = fopen(out.c_str(), "w");
	if (!f) { perror(out.c_str()); return 98; }
	fprintf(f, "{\"runs\":%llu,\"evals\":%llu,\"sim_us\":%llu,\"abandoned\":%llu,\"masked\":%llu,\"distinct\":%llu,\"wall\":%.3f,\n",
		(unsigned long long)nruns, (unsigned long long)nevals, (unsigned long long)us, (unsigned long long)aband,
		(unsigned long long)masked, (unsigned long long)(all.empty() ? nontriv : all.size()), t1 - t0);
	auto dump = [&](const char* n, std::map<std::string, uint64_t>& m) {
		fprintf(f, "\"%s\":{", n);
		bool first = true;
		for (auto& kv : m) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
		fprintf(f, "},\n");
	};
	dump("faults", fc);
	dump("probes", pc);
	dump("known_hits", known_hits);
	fprintf(f, "\"samples\":[");
	for (size_t i = 0; i < samples.size(); ++i) { fprintf(f, "%s%s", i ? "," : "", jstr(samples[i]).c_str()); }
	fprintf(f, "],\n\"masked_stages\":[");
	{ bool first = true; for (auto& kv : masked_ex) { fprintf(f, "%s%s", first ? "" : ",", jstr(kv.first).c_str()); first = false; } }
	fprintf(f, "],\n");
	int rc = 0;
	if (found) {
		if (bad.cls == "HARNESS") {
			fprintf(stderr, "%s\n", bad.msg.c_str());
			rc = 96;
			fprintf(f, "\"error\":%s,", jstr(bad.msg).c_str());
		} else {
			// gate: the same choices twice give the same violation and trace
			Outcome a = run_choices(bad.choices, nullptr), b = run_choices(bad.choices, nullptr);
			if (!a.bad || !b.bad || a.cls != bad.cls || b.cls != bad.cls || a.th != b.th) {
				// depends on what earlier runs in the same process left behind?
				std::vector<uint64_t> idx;
				Outcome q1, q2;
				bool ok = false;
				for (uint64_t k = 2; !ok && k <= 4096; k *= 2) {
					idx.clear();
					for (uint64_t n = k; n-- > 0;) { if (bad_index >= from + n * jobs) { idx.push_back(bad_index - n * jobs); } }
					q1 = run_sequence(idx, nullptr);
					q2 = run_sequence(idx, nullptr);
					ok = q1.bad && q2.bad && q1.cls == bad.cls && q2.cls == bad.cls && q1.th == q2.th;
					if (idx.size() < k) { break; }
				}
				if (ok) {
					// drop earlier runs that do not matter
					double end = now() + minbudget;
					unsigned attempts = 0;
					for (size_t len = std::max<size_t>((idx.size() - 1) / 2, 1); len >= 1 && now() < end; len /= 2) {
						for (size_t i = 0; i + len < idx.size() && now() < end;) {
							std::vector<uint64_t> c(idx);
							c.erase(c.begin() + i, c.begin() + i + len);
							++attempts;
							Outcome o = run_sequence(c, nullptr);
							if (o.bad && o.cls == bad.cls) { idx = c; } else { i += len; }
						}
						if (len == 1) { break; }
					}
					std::string tf = out + ".trace";
					Outcome fin = run_sequence(idx, tf.c_str());
					std::string tr;
					FILE* t = fopen(tf.c_str(), "r");
					if (t) { int c; while ((c = fgetc(t)) != EOF) { tr += (char)c; } fclose(t); unlink(tf.c_str()); }
					std::string rf = out + ".replay";
					FILE* r = fopen(rf.c_str(), "w");
					fprintf(r, "property %s\nclass %s\nseed %llu run %llu\nhash %016llx\nminimised_runs %zu attempts %u\nsequence", g_prop.c_str(), fin.cls.c_str(),
						(unsigned long long)seed, (unsigned long long)bad_index, (unsigned long long)fin.th, idx.size(), attempts);
					for (uint64_t v : idx) { fprintf(r, " %llu", (unsigned long long)v); }
					fprintf(r, "\nviolation %s\n(needs the preceding runs in the same process)\n--- schedule and fault trace of the last run ---\n%s", fin.msg.c_str(), tr.c_str());
					fclose(r);
					fprintf(f, "\"violation\":{\"class\":%s,\"msg\":%s,\"run\":%llu,\"hash\":\"%016llx\",\"replay\":%s},",
						jstr(fin.cls).c_str(), jstr(fin.msg).c_str(), (unsigned long long)bad_index, (unsigned long long)fin.th, jstr(rf).c_str());
					rc = 3;
				} else {
					fprintf(stderr, "violation not reproducible: %s / %s / %s\n", bad.cls.c_str(), a.cls.c_str(), b.cls.c_str());
					fprintf(f, "\"error\":\"not reproducible: %s -> %s / %s\",", bad.cls.c_str(), a.cls.c_str(), b.cls.c_str());
					rc = 99;
				}
			} else {
				unsigned attempts = 0;
				std::vector<uint32_t> m = minimise(bad.choices, bad.cls, minbudget, &attempts);
				std::string tf = out + ".trace";
				Outcome fin = run_choices(m, tf.c_str());
				std::string tr;
				FILE* t = fopen(tf.c_str(), "r");
				if (t) { int c; while ((c = fgetc(t)) != EOF) { tr += (char)c; } fclose(t); unlink(tf.c_str()); }
				std::string rf = out + ".replay";
				FILE* r = fopen(rf.c_str(), "w");
				fprintf(r, "property %s\nclass %s\nseed %llu run %llu\nhash %016llx\noriginal_choices %zu minimised_choices %zu attempts %u\nchoices",
					g_prop.c_str(), fin.cls.c_str(), (unsigned long long)seed, (unsigned long long)bad_index, (unsigned long long)fin.th,
					bad.choices.size(), m.size(), attempts);
				for (uint32_t v : m) { fprintf(r, " %u", v); }
				fprintf(r, "\nviolation %s\n--- minimised schedule and fault trace ---\n%s", fin.msg.c_str(), tr.c_str());
				fclose(r);
				fprintf(f, "\"violation\":{\"class\":%s,\"msg\":%s,\"run\":%llu,\"hash\":\"%016llx\",\"replay\":%s},",
					jstr(fin.cls).c_str(), jstr(fin.msg).c_str(), (unsigned long long)bad_index, (unsigned long long)fin.th, jstr(rf).c_str());
				rc = 3;
			}
		}
	}
	fprintf(f, "\"rc\":%d}\n", rc);
	fclose(f);
	return rc;
}
}

extern "C" const char* __asan_default_options()
{
	return "detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=23:allocator_may_return_null=1:symbolize=0:handle_abort=1:quarantine_size_mb=16:malloc_context_size=1:max_malloc_fill_size=0:detect_odr_violation=0:print_summary=0:check_initialization_order=0";
}
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=24"; }
