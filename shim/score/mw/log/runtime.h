#ifndef VSHIM_LOG_RUNTIME_H
#define VSHIM_LOG_RUNTIME_H
namespace score { namespace mw { namespace log {
class Recorder {};
inline Recorder& GetDefaultLogRecorder() { static Recorder r; return r; }
inline Recorder& GetFallbackLogRecorder() { static Recorder r; return r; }
}}}
#endif
