#ifndef VSHIM_JSON_WRITER_H
#define VSHIM_JSON_WRITER_H
#include "score/json/json_parser.h"
namespace score { namespace json {
class JsonWriter
{
  public:
    Result<std::string> ToBuffer(const Object& o) { std::string s; obj(o, s); return s; }
    Result<std::string> ToBuffer(const Any& a) { std::string s; any(a, s); return s; }
  private:
    static void q(const std::string& x, std::string& s) { s += '"'; for (char c : x) { if (c == '"' || c == '\\') { s += '\\'; s += c; } else if (c == '\n') { s += "\\n"; } else { s += c; } } s += '"'; }
    static void obj(const Object& o, std::string& s) { s += '{'; bool f = true; for (const auto& e : o) { if (!f) { s += ','; } f = false; q(e.first, s); s += ':'; any(e.second, s); } s += '}'; }
    static void any(const Any& a, std::string& s) { std::visit([&s](const auto& v) { using T = std::decay_t<decltype(v)>; if constexpr (std::is_same_v<T, Null>) { s += "null"; } else if constexpr (std::is_same_v<T, bool>) { s += v ? "true" : "false"; } else if constexpr (std::is_same_v<T, std::string>) { q(v, s); } else if constexpr (std::is_same_v<T, std::unique_ptr<Object>>) { obj(*v, s); } else if constexpr (std::is_same_v<T, std::unique_ptr<List>>) { s += '['; bool f = true; for (const auto& e : *v) { if (!f) { s += ','; } f = false; any(e, s); } s += ']'; } else { s += std::to_string(v); } }, a.v_); }
};
}}
#endif
