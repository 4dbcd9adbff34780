// Runs a whole command-line program of the repository inside the simulator:
// standard streams, exit and argument errors are simulated, and its variables
// start from their initial values in every run.
#pragma once
#include "core.hpp"

namespace prog {
struct Input {
	Bytes data;
	size_t pos = 0;
	bool error_at_end = false;     // the stream fails instead of ending
	std::function<size_t(size_t)> chunk;   // bytes delivered by a read (of at most that many)
	uint64_t reads = 0, end_reads = 0;
};
extern Input in;
extern std::string out, err, dbg;
extern bool divert;                // debug output in progress
extern bool exited;                // left through exit() or an argument error
extern bool usage_error;
void reset();
// standard streams without a program
void open_streams();
void close_streams();
int run(int (*main)(int, char**), const std::vector<std::string>& args, const char* stage);
}
