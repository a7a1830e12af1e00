// compiled WITHOUT the prelude
#include "trace.h"
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
namespace vtrace {
namespace {
std::string g_buf;
std::size_t g_lines{0};
int g_fd{1};
void Flush() {
    std::size_t o = 0;
    while (o < g_buf.size()) { const ssize_t n = ::write(g_fd, g_buf.data() + o, g_buf.size() - o); if (n <= 0) break; o += static_cast<std::size_t>(n); }
    g_buf.clear();
}
void OnDeath(int sig) {
    char line[64];
    const int n = std::snprintf(line, sizeof line, "{\"e\":\"Abort\",\"sig\":%d}\n", sig);
    Flush();
    if (::write(g_fd, line, static_cast<std::size_t>(n)) < 0) {}
    _exit(99);
}
}  // namespace
void Emit(const char* fmt, ...) {
    char tmp[16384];
    va_list ap; va_start(ap, fmt); const int n = std::vsnprintf(tmp, sizeof tmp, fmt, ap); va_end(ap);
    if (n < 0 || n >= static_cast<int>(sizeof tmp)) { std::fprintf(stderr, "trace: line too long\n"); _exit(70); }
    g_buf.append(tmp, static_cast<std::size_t>(n));
    g_buf.push_back('\n');
    ++g_lines;
}
std::size_t Lines() { return g_lines; }
Options Parse(int argc, char** argv) {
    Options o;
    for (int i = 1; i + 1 < argc; i += 2) {
        const std::string k = argv[i]; const char* v = argv[i + 1];
        if (k == "--mode") o.mode = v; else if (k == "--seed") o.seed = std::strtoull(v, nullptr, 10);
        else if (k == "--first") o.first = std::strtoull(v, nullptr, 10); else if (k == "--runs") o.runs = std::strtoull(v, nullptr, 10);
        else if (k == "--group") o.group = std::strtoull(v, nullptr, 10); else if (k == "--out") o.out = v;
        else if (k == "--max-lines") o.max_lines = std::strtoull(v, nullptr, 10);
        else if (k == "--seconds") o.seconds = std::strtod(v, nullptr); else if (k == "--arg") o.arg = v;
        else { std::fprintf(stderr, "unknown option %s\n", k.c_str()); std::exit(70); }
    }
    return o;
}
int Drive(const Options& o, const std::function<void(std::uint64_t)>& run) {
    g_fd = ::open(o.out.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0644);
    if (g_fd < 0) { std::perror("trace: open"); return 70; }
    std::size_t lines = 0, done = 0;
    const auto t0 = std::chrono::steady_clock::now();
    for (std::uint64_t i = o.first; i < o.first + o.runs; i += o.group) {
        const std::uint64_t end = std::min(i + o.group, o.first + o.runs);
        int p[2];
        if (::pipe(p) != 0) return 70;
        const pid_t pid = ::fork();
        if (pid < 0) return 70;
        if (pid == 0) {
            ::close(p[0]);
            static char alt[65536];
            stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; ::sigaltstack(&ss, nullptr);
            for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM}) { struct sigaction sa{}; sa.sa_handler = OnDeath; sa.sa_flags = SA_ONSTACK; ::sigaction(s, &sa, nullptr); }
            g_buf.reserve(1 << 20);
            std::uint64_t n = 0;
            for (std::uint64_t k = i; k < end; ++k) { ::alarm(60); run(k); Flush(); ++n; if (lines + g_lines >= o.max_lines) break; }
            const std::uint64_t r[2] = {g_lines, n};
            if (::write(p[1], r, sizeof r) < 0) {}
            std::fflush(nullptr);
            _exit(0);
        }
        ::close(p[1]);
        std::uint64_t r[2] = {0, 0};
        const bool got = ::read(p[0], r, sizeof r) == static_cast<ssize_t>(sizeof r);
        ::close(p[0]);
        int st = 0;
        ::waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
            const int code = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
            if (code == 70) { std::fprintf(stderr, "harness error in group starting at run %llu\n", static_cast<unsigned long long>(i)); return 70; }
            if (code != 99) { char line[64]; const int n = std::snprintf(line, sizeof line, "{\"e\":\"Abort\",\"sig\":%d}\n", code); if (::write(g_fd, line, static_cast<std::size_t>(n)) < 0) {} }
            break;   // the first abort ends the batch: everything behind it would only repeat it
        }
        if (got) { lines += r[0]; done += r[1]; }
        if (lines >= o.max_lines) break;
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > o.seconds) break;
    }
    std::printf("runs=%zu lines=%zu\n", done, lines);
    return 0;
}
}  // namespace vtrace
