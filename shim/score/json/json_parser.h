#ifndef VSHIM_JSON_H
#define VSHIM_JSON_H
#include "score/os/vshim_os.h"
#include "score/result/result.h"
#include <cstdint>
#include <fstream>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <string_view>
#include <unordered_map>
#include <variant>
#include <vector>
namespace score { namespace json {
enum class Error : score::result::ErrorCode { kUnknownError = 1, kWrongType, kKeyNotFound, kParsingError, kInvalidFilePath };
class JsonDomain final : public score::result::ErrorDomain { public: std::string_view MessageFor(const score::result::ErrorCode&) const noexcept override { return "json error"; } };
inline constexpr JsonDomain vshim_json_dom{};
constexpr score::result::Error MakeError(Error c, std::string_view m = {}) noexcept { return {static_cast<score::result::ErrorCode>(c), vshim_json_dom, m}; }
class Null { public: friend bool operator==(Null, Null) { return true; } };
class Any; class Object;
class List : public std::vector<Any> { public: using std::vector<Any>::vector; };
class Any
{
  public:
    Any() = default; Any(const Any&) = delete; Any& operator=(const Any&) = delete; Any(Any&&) noexcept = default; Any& operator=(Any&&) noexcept = default; inline ~Any();
    Any(bool b) : v_(b) {} explicit Any(std::string s) : v_(std::move(s)) {} explicit Any(const char* s) : v_(std::string(s)) {} explicit Any(std::string_view s) : v_(std::string(s)) {} Any(Null) {}
    template <typename T, typename = std::enable_if_t<std::is_arithmetic_v<T> && !std::is_same_v<T, bool>>> Any(T t) { if constexpr (std::is_floating_point_v<T>) { v_ = static_cast<double>(t); } else if constexpr (std::is_signed_v<T>) { if (t < 0) { v_ = static_cast<std::int64_t>(t); } else { v_ = static_cast<std::uint64_t>(t); } } else { v_ = static_cast<std::uint64_t>(t); } }
    inline Any(Object o); inline Any(List l); inline Any(std::unique_ptr<Object> o); inline Any(std::unique_ptr<List> l);
    inline Any CloneByValue() const;
    template <typename T> auto As() const
    {
        if constexpr (std::is_same_v<T, Object> || std::is_same_v<T, List>) { using R = std::reference_wrapper<const T>; const auto* p = std::get_if<std::unique_ptr<T>>(&v_); return p != nullptr ? Result<R>{R(**p)} : Result<R>{MakeUnexpected(Error::kWrongType)}; }
        else if constexpr (std::is_same_v<T, std::string>) { using R = std::reference_wrapper<const std::string>; const auto* p = std::get_if<std::string>(&v_); return p != nullptr ? Result<R>{R(*p)} : Result<R>{MakeUnexpected(Error::kWrongType)}; }
        else if constexpr (std::is_same_v<T, std::string_view>) { const auto* p = std::get_if<std::string>(&v_); return p != nullptr ? Result<T>{T(*p)} : Result<T>{MakeUnexpected(Error::kWrongType)}; }
        else if constexpr (std::is_same_v<T, bool>) { const auto* p = std::get_if<bool>(&v_); return p != nullptr ? Result<bool>{*p} : Result<bool>{MakeUnexpected(Error::kWrongType)}; }
        else if constexpr (std::is_arithmetic_v<T>) { return num<T>(); }
        else { return Result<T>{MakeUnexpected(Error::kWrongType)}; }
    }
    template <typename T> auto As()
    {
        if constexpr (std::is_same_v<T, Object> || std::is_same_v<T, List>) { using R = std::reference_wrapper<T>; auto* p = std::get_if<std::unique_ptr<T>>(&v_); return p != nullptr ? Result<R>{R(**p)} : Result<R>{MakeUnexpected(Error::kWrongType)}; }
        else if constexpr (std::is_same_v<T, std::string>) { using R = std::reference_wrapper<std::string>; auto* p = std::get_if<std::string>(&v_); return p != nullptr ? Result<R>{R(*p)} : Result<R>{MakeUnexpected(Error::kWrongType)}; }
        else { return static_cast<const Any&>(*this).As<T>(); }
    }
    inline friend bool operator==(const Any& a, const Any& b);
    std::variant<Null, bool, double, std::int64_t, std::uint64_t, std::string, std::unique_ptr<Object>, std::unique_ptr<List>> v_{};
  private:
    template <typename T> Result<T> num() const
    {
        if (const auto* u = std::get_if<std::uint64_t>(&v_)) { if constexpr (std::is_floating_point_v<T>) { return static_cast<T>(*u); } else { if (*u <= static_cast<std::uint64_t>(std::numeric_limits<T>::max())) { return static_cast<T>(*u); } } }
        if (const auto* i = std::get_if<std::int64_t>(&v_)) { if constexpr (std::is_floating_point_v<T>) { return static_cast<T>(*i); } else if constexpr (std::is_signed_v<T>) { if (*i >= static_cast<std::int64_t>(std::numeric_limits<T>::min())) { return static_cast<T>(*i); } } }
        if (const auto* d = std::get_if<double>(&v_)) { if constexpr (std::is_floating_point_v<T>) { return static_cast<T>(*d); } }
        return MakeUnexpected(Error::kWrongType);
    }
};
struct VshimKey : std::string { using std::string::string; VshimKey(const std::string& s) : std::string(s) {} VshimKey(std::string&& s) : std::string(std::move(s)) {} VshimKey(std::string_view s) : std::string(s) {} std::string_view GetAsStringView() const noexcept { return *this; } };
class Object
{
  public:
    using M = std::map<VshimKey, Any, std::less<>>; using iterator = M::iterator; using const_iterator = M::const_iterator; using value_type = M::value_type;
    iterator begin() { return m_.begin(); } iterator end() { return m_.end(); } const_iterator begin() const { return m_.begin(); } const_iterator end() const { return m_.end(); } const_iterator cbegin() const { return m_.begin(); } const_iterator cend() const { return m_.end(); }
    iterator find(std::string_view k) { return m_.find(k); } const_iterator find(std::string_view k) const { return m_.find(k); }
    template <typename K, typename V> std::pair<iterator, bool> emplace(K&& k, V&& v) { return m_.emplace(std::string(std::forward<K>(k)), Any(std::forward<V>(v))); }
    template <typename K, typename V> std::pair<iterator, bool> insert(std::pair<K, V>&& p) { return m_.emplace(std::string(p.first), Any(std::move(p.second))); }
    Any& operator[](std::string_view k) { return m_[std::string(k)]; }
    Any& at(std::string_view k) { return m_.find(k)->second; } const Any& at(std::string_view k) const { return m_.find(k)->second; }
    std::size_t size() const { return m_.size(); } bool empty() const { return m_.empty(); } std::size_t count(std::string_view k) const { return m_.count(std::string(k)); }
    std::size_t erase(const std::string& k) { return m_.erase(k); }
    M m_{};
};
inline Any::~Any() = default;
inline Any::Any(Object o) : v_(std::make_unique<Object>(std::move(o))) {} inline Any::Any(List l) : v_(std::make_unique<List>(std::move(l))) {} inline Any::Any(std::unique_ptr<Object> o) : v_(std::move(o)) {} inline Any::Any(std::unique_ptr<List> l) : v_(std::move(l)) {}
inline Any Any::CloneByValue() const { if (const auto* o = std::get_if<std::unique_ptr<Object>>(&v_)) { Object r; for (const auto& e : **o) { r.m_.emplace(e.first, e.second.CloneByValue()); } return Any(std::move(r)); } if (const auto* l = std::get_if<std::unique_ptr<List>>(&v_)) { List r; for (const auto& e : **l) { r.push_back(e.CloneByValue()); } return Any(std::move(r)); } Any r; if (const auto* b = std::get_if<bool>(&v_)) { r.v_ = *b; } else if (const auto* d = std::get_if<double>(&v_)) { r.v_ = *d; } else if (const auto* i = std::get_if<std::int64_t>(&v_)) { r.v_ = *i; } else if (const auto* u = std::get_if<std::uint64_t>(&v_)) { r.v_ = *u; } else if (const auto* s = std::get_if<std::string>(&v_)) { r.v_ = *s; } return r; }
inline bool operator==(const Any& a, const Any& b) { if (a.v_.index() != b.v_.index()) { return false; } if (const auto* o = std::get_if<std::unique_ptr<Object>>(&a.v_)) { return (*o)->m_ == std::get<std::unique_ptr<Object>>(b.v_)->m_; } if (const auto* l = std::get_if<std::unique_ptr<List>>(&a.v_)) { return static_cast<const std::vector<Any>&>(**l) == static_cast<const std::vector<Any>&>(*std::get<std::unique_ptr<List>>(b.v_)); } return a.v_ == b.v_; }
inline bool operator==(const Object& a, const Object& b) { return a.m_ == b.m_; }
inline namespace literals {}
class JsonParser
{
  public:
    Result<Any> FromBuffer(std::string_view s) const noexcept { P p{s, 0U, true}; Any a = p.val(0); p.ws(); if (!p.ok || p.i != s.size()) { return MakeUnexpected(Error::kParsingError); } return a; }
    Result<Any> FromFile(std::string_view f) const noexcept { std::ifstream i(::vshim::map_path(f)); if (!i) { return MakeUnexpected(Error::kInvalidFilePath); } std::stringstream b; b << i.rdbuf(); const std::string s = b.str(); return FromBuffer(s); }
  private:
    struct P
    {
        std::string_view s; std::size_t i; bool ok;
        void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r')) { ++i; } }
        bool eat(char c) { ws(); if (i < s.size() && s[i] == c) { ++i; return true; } return false; }
        std::string str() { std::string r; if (!eat('"')) { ok = false; return r; } while (i < s.size() && s[i] != '"') { if (s[i] == '\\' && i + 1U < s.size()) { ++i; switch (s[i]) { case 'n': r += '\n'; break; case 't': r += '\t'; break; default: r += s[i]; } } else { r += s[i]; } ++i; } if (i >= s.size()) { ok = false; } else { ++i; } return r; }
        Any val(int d)
        {
            ws(); if (d > 100 || i >= s.size()) { ok = false; return Any{}; }
            const char c = s[i];
            if (c == '{') { ++i; Object o; if (eat('}')) { return Any(std::move(o)); } do { ws(); std::string k = str(); if (!ok || !eat(':')) { ok = false; return Any{}; } Any v = val(d + 1); if (!ok) { return Any{}; } o.m_.insert_or_assign(std::move(k), std::move(v)); } while (eat(',')); if (!eat('}')) { ok = false; } return Any(std::move(o)); }
            if (c == '[') { ++i; List l; if (eat(']')) { return Any(std::move(l)); } do { l.push_back(val(d + 1)); if (!ok) { return Any{}; } } while (eat(',')); if (!eat(']')) { ok = false; } return Any(std::move(l)); }
            if (c == '"') { return Any(str()); }
            if (s.substr(i, 4) == "true") { i += 4U; return Any(true); } if (s.substr(i, 5) == "false") { i += 5U; return Any(false); } if (s.substr(i, 4) == "null") { i += 4U; return Any{}; }
            std::size_t j = i; bool fl = false; while (j < s.size() && (std::string_view("+-0123456789.eE").find(s[j]) != std::string_view::npos)) { fl = fl || s[j] == '.' || s[j] == 'e' || s[j] == 'E'; ++j; }
            if (j == i) { ok = false; return Any{}; }
            const std::string n(s.substr(i, j - i)); i = j; char* e = nullptr; Any r;
            if (fl) { r = Any(std::strtod(n.c_str(), &e)); } else if (n[0] == '-') { r = Any(static_cast<std::int64_t>(std::strtoll(n.c_str(), &e, 10))); } else { r = Any(static_cast<std::uint64_t>(std::strtoull(n.c_str(), &e, 10))); }
            if (e == nullptr || *e != '\0') { ok = false; } return r;
        }
    };
};
inline Any operator""_json(const char* s, std::size_t n) { return JsonParser{}.FromBuffer(std::string_view(s, n)).value(); }
}}
#endif
