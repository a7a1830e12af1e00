// Stand-in for score_baselibs futurecpp assertions.  A failed contract is reported through a replaceable handler; the
// default prints the condition and aborts (the "assertion" outcome the harnesses look for).
#ifndef VSHIM_ASSERT_HPP
#define VSHIM_ASSERT_HPP
#include "score/utility.hpp"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
namespace score { namespace cpp {
struct handler_parameters { const char* file; std::int32_t line; const char* function; const char* condition; const char* message; };
using assertion_handler = void (*)(const handler_parameters&);
inline assertion_handler& vshim_assertion_handler() { static assertion_handler h = nullptr; return h; }
inline void set_assertion_handler(assertion_handler h) { vshim_assertion_handler() = h; }
[[noreturn]] inline void vshim_assert_fail(const char* f, int l, const char* fn, const char* c, const char* m)
{
    if (vshim_assertion_handler() != nullptr) { vshim_assertion_handler()(handler_parameters{f, l, fn, c, m}); }
    std::fprintf(stderr, "ASSERTION-FAILED %s:%d %s: %s %s\n", f, l, fn, c, m);
    std::abort();
}
}}
#define VSHIM_ASSERT2(c, m) ((c) ? static_cast<void>(0) : ::score::cpp::vshim_assert_fail(__FILE__, __LINE__, __func__, #c, m))
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(c, m) VSHIM_ASSERT2((c), m)
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD_MESSAGE(c, m) VSHIM_ASSERT2((c), m)
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_MESSAGE(c, m) VSHIM_ASSERT2((c), m)
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_MESSAGE(c, m) VSHIM_ASSERT2((c), m)
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG_MESSAGE(c, m) VSHIM_ASSERT2((c), m)
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD(c) VSHIM_ASSERT2((c), "")
#define SCORE_LANGUAGE_FUTURECPP_ASSERT(c) VSHIM_ASSERT2((c), "")
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_PROD(c) VSHIM_ASSERT2((c), "")
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION(c) VSHIM_ASSERT2((c), "")
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(c) VSHIM_ASSERT2((c), "")
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(c) VSHIM_ASSERT2((c), "")
#define SCORE_LANGUAGE_FUTURECPP_UNREACHABLE_MESSAGE(m) ::score::cpp::vshim_assert_fail(__FILE__, __LINE__, __func__, "unreachable", m)
#define SCORE_LANGUAGE_FUTURECPP_UNREACHABLE() ::score::cpp::vshim_assert_fail(__FILE__, __LINE__, __func__, "unreachable", "")
#endif
