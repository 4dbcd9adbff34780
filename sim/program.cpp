#include "program.hpp"
#include <argp.h>
#include <csetjmp>
#include <cerrno>
#include <cstdarg>
#include <stdio_ext.h>
using namespace sim;

extern char __start_tooldata[] __attribute__((weak));
extern char __stop_tooldata[] __attribute__((weak));

namespace prog {
Input in;
std::string out, err, dbg;
bool divert, exited, usage_error;
static jmp_buf exit_jmp;
static int exit_code;
static FILE* real[3];
static Bytes initial;
static char obuf[1 << 16], ebuf[1 << 16], ibuf[1 << 12];

// (plain loops: the interceptors must not look at the section's padding)
__attribute__((no_sanitize("address"), noinline, optimize("no-tree-loop-distribute-patterns"))) static void copy_plain(volatile char* d, const volatile char* s, size_t n)
{
	for (size_t i = 0; i < n; ++i) { d[i] = s[i]; }
}
static void variables()
{
	if (!__start_tooldata) { return; }
	size_t n = (size_t)(__stop_tooldata - __start_tooldata);
	if (initial.empty()) { initial.resize(n); copy_plain((char*)initial.data(), __start_tooldata, n); }
	else { copy_plain(__start_tooldata, (char*)initial.data(), n); }
}
static ssize_t wr_out(void*, const char* b, size_t n)
{
	(divert ? dbg : out).append(b, n);
	if (out.size() > (8u << 20)) { violation(prop(), "endless", "the program prints without end; the last output is \"" + out.substr(out.size() - 200) + "\""); }
	if (dbg.size() > (64u << 20)) { violation(prop(), "endless", "the program prints debug messages without end"); }
	return (ssize_t)n;
}
static ssize_t wr_err(void*, const char* b, size_t n)
{
	err.append(b, n);
	if (err.size() > (8u << 20)) { violation(prop(), "endless", "the program prints errors without end"); }
	return (ssize_t)n;
}
static ssize_t rd_in(void*, char* b, size_t n)
{
	fflush(stdout);
	++in.reads;
	if (in.pos >= in.data.size()) {
		if (++in.end_reads > 200) { violation(prop(), "endless", "the program reads again and again although its input has ended"); }
		if (in.error_at_end) { fault("input_error"); errno = EIO; return -1; }
		trace("  input ends");
		return 0;
	}
	size_t left = in.data.size() - in.pos;
	if (n > left) { n = left; }
	if (in.chunk) { size_t k = in.chunk(n); if (k < 1) { k = 1; } if (k < n) { n = k; } }
	memcpy(b, &in.data[in.pos], n);
	in.pos += n;
	ev(0x1D, n > 16 ? 16 : n);
	return (ssize_t)n;
}
void reset()
{
	if (real[1]) { stdin = real[0]; stdout = real[1]; stderr = real[2]; }
	in = Input();
	out.clear();
	err.clear();
	dbg.clear();
	divert = exited = usage_error = false;
}
static FILE* f[3];
void open_streams()
{
	if (!real[1]) { real[0] = stdin; real[1] = stdout; real[2] = stderr; }
	cookie_io_functions_t io[3] = { { rd_in, nullptr, nullptr, nullptr }, { nullptr, wr_out, nullptr, nullptr }, { nullptr, wr_err, nullptr, nullptr } };
	const char* mode[3] = { "r", "w", "w" };
	char* buf[3] = { ibuf, obuf, ebuf };
	size_t bs[3] = { sizeof(ibuf), sizeof(obuf), sizeof(ebuf) };
	for (int i = 0; i < 3; ++i) {
		f[i] = fopencookie(nullptr, mode[i], io[i]);
		__fsetlocking(f[i], FSETLOCKING_BYCALLER);
		setvbuf(f[i], buf[i], _IOFBF, bs[i]);
	}
	stdin = f[0]; stdout = f[1]; stderr = f[2];
}
void close_streams()
{
	fflush(f[1]);
	fflush(f[2]);
	stdin = real[0]; stdout = real[1]; stderr = real[2];
	for (int i = 0; i < 3; ++i) { fclose(f[i]); }
}
int run(int (*tool)(int, char**), const std::vector<std::string>& args, const char* st)
{
	variables();
	std::vector<std::vector<char>> store;
	for (auto& a : args) { store.emplace_back(a.begin(), a.end()); store.back().push_back(0); }
	static std::vector<char*> argv;
	argv.clear();
	for (auto& s : store) { argv.push_back(s.data()); }
	argv.push_back(nullptr);
	open_streams();
	static volatile int code;
	op_begin(st);
	if (setjmp(exit_jmp) == 0) { code = tool((int)args.size(), argv.data()); }
	else { code = exit_code; exited = true; }
	divert = false;
	fflush(f[1]);
	fflush(f[2]);
	op_end();
	close_streams();
	return code;
}
}
using namespace prog;
extern "C" {
__attribute__((noreturn)) void sim_exit(int c) { exit_code = c; longjmp(exit_jmp, 1); }
error_t sim_argp_parse(const struct argp* a, int argc, char** argv, unsigned flags, int* idx, void* input)
{
	return argp_parse(a, argc, argv, flags | ARGP_NO_EXIT, idx, input);
}
void sim_argp_error(const struct argp_state*, const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vfprintf(stderr, fmt, ap);
	va_end(ap);
	fputc('\n', stderr);
	usage_error = true;
	exit_code = 64;
	longjmp(exit_jmp, 1);
}
}
