// Stand-in for the parts of Abseil's formatting library that understand AbslStringify; the installed Abseil predates it.
// Format strings are checked as strictly as Abseil's compile-time checks: one argument per conversion, of a matching type.
#ifndef MC_STUB_ABSL_FORMAT_H
#define MC_STUB_ABSL_FORMAT_H
#include <cstdio>
#include <cstdlib>
#include <initializer_list>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
namespace absl {
namespace stub {
[[noreturn]] inline void bad(const char* what) { throw std::string(what); }
struct sink {  // what Abseil passes to AbslStringify
  std::string text;
  void Append(size_t count, char ch) { text.append(count, ch); }
  void Append(const std::string& v) { text += v; }
  bool PutPaddedString(const std::string& v, int width, int precision, bool left) {
    std::string s = precision >= 0 ? v.substr(0, (size_t)precision) : v;
    std::string pad(width > (int)s.size() ? (size_t)(width - (int)s.size()) : 0, ' ');
    text += left ? s + pad : pad + s; return true;
  }
};
struct overload_last {}; struct overload : overload_last {};
template <class T> auto to_text(const T& x, overload) -> decltype(AbslStringify(std::declval<sink&>(), x), std::string()) { sink s; AbslStringify(s, x); return s.text; }
template <class T> std::enable_if_t<std::is_same<T, bool>::value, std::string> to_text(const T& x, overload_last) { return x ? "true" : "false"; }
template <class T> std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value && !std::is_same<T, char>::value, std::string> to_text(const T& x, overload_last) { return std::to_string(x); }
template <class T> std::enable_if_t<std::is_floating_point<T>::value, std::string> to_text(const T& x, overload_last) { char b[64]; snprintf(b, sizeof b, "%g", (double)x); return b; }
template <class T> std::enable_if_t<std::is_convertible<T, std::string>::value, std::string> to_text(const T& x, overload_last) { return std::string(x); }
template <class T> std::string text(const T& x) { return to_text(x, overload()); }
enum kind { integer, floating, string, user };
template <class T> kind kind_of(const T&) { using D = std::decay_t<T>; return std::is_integral<D>::value ? integer : std::is_floating_point<D>::value ? floating : std::is_convertible<T, std::string>::value ? string : user; }
struct arg { kind k; std::string text; };
inline std::string format(const std::string& f, std::initializer_list<arg> args) {
  std::string out; auto a = args.begin();
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] != '%') { out += f[i]; continue; }
    if (++i == f.size()) bad("format ends in %");
    if (f[i] == '%') { out += '%'; continue; }
    while (i < f.size() && (f[i] == 'l' || f[i] == 'z' || f[i] == 't' || f[i] == 'j' || f[i] == 'h')) i++;
    if (a == args.end()) bad("more conversions than arguments");
    const char c = i < f.size() ? f[i] : 0;
    if (c == 'd' || c == 'i' || c == 'u') { if (a->k != integer) bad("integer conversion of something else"); }
    else if (c == 's') { if (a->k != string) bad("%s of something that is no string"); }
    else if (c != 'v') bad("conversion unknown to the stand-in");
    out += a->text; ++a;
  }
  if (a != args.end()) bad("more arguments than conversions");
  return out;
}
struct append_one { template <class T> void operator()(std::string* out, const T& x) const { *out += text(x); } };
template <class R, class F> auto join(const R& r, const std::string& sep, F&& f, overload_last) -> decltype(r.begin(), std::string()) {
  std::string out; bool first = true; for (const auto& x : r) { if (!first) out += sep; first = false; f(&out, x); } return out;
}
template <class... T, class F, size_t... I> std::string join_tuple(const std::tuple<T...>& t, const std::string& sep, F&& f, std::index_sequence<I...>) {
  std::string out; (void)sep; int unused[] = {0, ((I ? (void)(out += sep) : (void)0), f(&out, std::get<I>(t)), 0)...}; (void)unused; return out;
}
template <class... T, class F> std::string join(const std::tuple<T...>& t, const std::string& sep, F&& f, overload) { return join_tuple(t, sep, f, std::index_sequence_for<T...>()); }
} // namespace stub
template <class Sink, class... A> bool Format(Sink* s, const std::string& f, const A&... a) { s->Append(stub::format(f, {stub::arg{stub::kind_of(a), stub::text(a)}...})); return true; }
template <class... A> std::string StrFormat(const std::string& f, const A&... a) { return stub::format(f, {stub::arg{stub::kind_of(a), stub::text(a)}...}); }
template <class... A> std::string& StrAppendFormat(std::string* s, const std::string& f, const A&... a) { return *s += StrFormat(f, a...); }
template <class... A> std::string StrCat(const A&... a) { std::string out; int unused[] = {0, ((out += stub::text(a)), 0)...}; (void)unused; return out; }
template <class... A> void StrAppend(std::string* s, const A&... a) { *s += StrCat(a...); }
template <class R> std::string StrJoin(const R& r, const std::string& sep) { return stub::join(r, sep, stub::append_one(), stub::overload()); }
template <class R, class F> std::string StrJoin(const R& r, const std::string& sep, F&& f) { return stub::join(r, sep, f, stub::overload()); }
} // namespace absl
#endif
