// Declarations only: enough of pybind11 for the analyser to resolve the binding file's names and types
// (pybind11 is not installed here). Nothing is compiled from this.
#pragma once
#include <array>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace pybind11 {
struct handle {};
struct object : handle {};
struct str_attr {
  template <class T> str_attr& operator=(const T&);
};
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
struct arg { explicit arg(const char*); template <class T> arg& operator=(const T&); arg& noconvert(bool = true); };
template <class... T> struct call_guard {};
struct gil_scoped_release {};
template <size_t N, size_t P> struct keep_alive {};
template <class... A> struct init_t {};
template <class... A> init_t<A...> init() { return init_t<A...>(); }
template <class F, class = typename std::enable_if<!std::is_void<F>::value>::type> init_t<F> init(F f);
struct const_t {};
static constexpr const_t const_{};
template <class... A> struct overload_cast_t {
  template <class R> auto operator()(R (*f)(A...)) const -> decltype(f) { return f; }
  template <class R, class C> auto operator()(R (C::*f)(A...)) const -> decltype(f) { return f; }
  template <class R, class C> auto operator()(R (C::*f)(A...), const_t) const -> decltype(f) { return f; }
  template <class R, class C> auto operator()(R (C::*f)(A...) const) const -> decltype(f) { return f; }
};
#if __cplusplus >= 201402L
template <class... A> static constexpr overload_cast_t<A...> overload_cast{};
#endif
struct module_ : object {
  str_attr doc();
  str_attr attr(const char*);
  template <class F, class... X> module_& def(const char*, F&&, const X&...);
};
using module = module_;
template <class T, class... O> struct class_ : object {
  template <class... X> class_(handle, const char*, const X&...);
  template <class F, class... X> class_& def(const char*, F&&, const X&...);
  template <class... A, class... X> class_& def(const init_t<A...>&, const X&...);
  template <class F, class... X> class_& def_static(const char*, F&&, const X&...);
  template <class F, class... X> class_& def_readonly(const char*, F&&, const X&...);
  template <class F, class... X> class_& def_readwrite(const char*, F&&, const X&...);
  template <class F, class... X> class_& def_property_readonly(const char*, F&&, const X&...);
  template <class F, class G, class... X> class_& def_property(const char*, F&&, G&&, const X&...);
};
template <class T> struct enum_ : class_<T> {
  template <class... X> enum_(handle, const char*, const X&...);
  enum_& value(const char*, T, const char* = nullptr);
  enum_& export_values();
};
}
#define PYBIND11_MODULE(name, v) void pybind11_init_##name(::pybind11::module_& v)
