// Stand-in for emscripten's embind: the same registration syntax, collected into a registry by
// JavaScript name, so that the real wrapper code can be called the way a JavaScript program calls
// it. Values are copied at the border and returned objects are moved to the heap, as embind does.
#ifndef VERIF_STANDIN_EMBIND_H
#define VERIF_STANDIN_EMBIND_H
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
namespace emscripten {
struct Val {
    uint64_t u = 0; std::string s; std::vector<unsigned char> b; std::shared_ptr<void> o; char kind = 0;
    Val() {}
    Val(const std::string &x) : s(x), kind('s') {}
    Val(const char *x) : s(x), kind('s') {}
    Val(const std::vector<unsigned char> &x) : b(x), kind('b') {}
    template <class T, class = typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value>::type> Val(T x) : u((uint64_t)x), kind('u') {}
};
typedef std::function<Val(void *, const std::vector<Val> &)> Fn;
struct Registry { std::map<std::string, Fn> fns; std::string module; };
inline Registry &registry() { static Registry r; return r; }
inline std::string module_of(const std::string &file) { size_t p = file.rfind('/'); std::string f = p == std::string::npos ? file : file.substr(p + 1); return f.substr(0, f.find('.')); }
template <class T> struct IsInt { static const bool v = std::is_integral<T>::value || std::is_enum<T>::value; };
template <class T, class = void> struct From;
template <> struct From<std::string> { static std::string get(const Val &v) { return v.s; } };
template <> struct From<std::vector<unsigned char>> { static std::vector<unsigned char> get(const Val &v) { return v.b; } };
template <class T> struct From<T, typename std::enable_if<IsInt<T>::v>::type> { static T get(const Val &v) { return (T)v.u; } };
template <class T, class = void> struct To { static Val put(T &&x) { Val v; v.kind = 'o'; v.o = std::make_shared<T>(std::move(x)); return v; } };
template <> struct To<std::string> { static Val put(std::string &&x) { return Val(x); } };
template <> struct To<std::vector<unsigned char>> { static Val put(std::vector<unsigned char> &&x) { return Val(x); } };
template <class T> struct To<T, typename std::enable_if<IsInt<T>::v>::type> { static Val put(T &&x) { return Val(x); } };
inline void need(const std::vector<Val> &a, size_t n) { if (a.size() != n) throw std::logic_error("embind stand-in: argument count"); }
template <class R, class F, class... A, size_t... I> Val call_(F f, const std::vector<Val> &a, std::index_sequence<I...>) {
    need(a, sizeof...(A));
    std::tuple<typename std::decay<A>::type...> t{From<typename std::decay<A>::type>::get(a[I])...};
    if constexpr (std::is_void<R>::value) { f(std::get<I>(t)...); return Val(); }
    else return To<typename std::decay<R>::type>::put(f(std::get<I>(t)...));
}
template <class R, class... A> void function(const char *name, R (*f)(A...)) {
    registry().fns[registry().module + "::" + name] = [f](void *, const std::vector<Val> &a) { return call_<R, R (*)(A...), A...>(f, a, std::index_sequence_for<A...>()); };
}
template <class T> struct class_ {
    std::string pre;
    explicit class_(const char *n) { pre = registry().module + "::" + n + "."; }
    template <class R, class... A> class_ &class_function(const char *name, R (*f)(A...)) {
        registry().fns[pre + name] = [f](void *, const std::vector<Val> &a) { return call_<R, R (*)(A...), A...>(f, a, std::index_sequence_for<A...>()); };
        return *this;
    }
    template <class R, class... A> class_ &function(const char *name, R (T::*f)(A...)) {
        registry().fns[pre + name] = [f](void *self, const std::vector<Val> &a) {
            auto g = [self, f](A... x) -> R { return (((T *)self)->*f)(x...); };
            return call_<R, decltype(g), A...>(g, a, std::index_sequence_for<A...>()); };
        return *this;
    }
    template <class R, class... A> class_ &function(const char *name, R (T::*f)(A...) const) {
        registry().fns[pre + name] = [f](void *self, const std::vector<Val> &a) {
            auto g = [self, f](A... x) -> R { return (((const T *)self)->*f)(x...); };
            return call_<R, decltype(g), A...>(g, a, std::index_sequence_for<A...>()); };
        return *this;
    }
};
template <class T> struct enum_ { explicit enum_(const char *) {} enum_ &value(const char *, T) { return *this; } };
template <class T> void register_vector(const char *) {}
}  // namespace emscripten
#define EMSCRIPTEN_BINDINGS(name) \
    static void embind_init_##name(); \
    static struct embind_reg_##name { embind_reg_##name() { ::emscripten::registry().module = ::emscripten::module_of(__FILE__); embind_init_##name(); } } embind_reg_inst_##name; \
    static void embind_init_##name()
#endif
