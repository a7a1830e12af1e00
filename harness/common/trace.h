// Event trace writer and batch driver shared by all harnesses. Compiled with the prelude.
#ifndef VERIF_TRACE_H
#define VERIF_TRACE_H
#include <cstdarg>
#include <cstdint>
#include <functional>
#include <string>
namespace vtrace {
// One ndjson object per call; printf style, e.g. Emit("{\"e\":\"W\",\"s\":%d}", s)
void Emit(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::size_t Lines();
struct Options {
    std::string mode{"default"};
    std::uint64_t seed{1};
    std::uint64_t first{0};
    std::uint64_t runs{100};
    std::uint64_t group{50};
    std::uint64_t max_lines{50000};
    std::string out{"/dev/stdout"};
    double seconds{1e9};
    std::string arg;      // free for the harness
};
Options Parse(int argc, char** argv);
// Executes run(i) for i in [first, first+runs) in forked children (groups); a child that dies adds an Abort event.
int Drive(const Options& o, const std::function<void(std::uint64_t)>& run);
}
#endif
