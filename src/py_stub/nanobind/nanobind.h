// A stand-in for nanobind that records what a module registers, so that the binding's own source file
// can be compiled and its classes, attributes, methods and functions called from C++.
#pragma once
#include <any>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <utility>
#include <vector>

namespace nanobind {
struct object;

namespace stub {
using Args = std::vector<std::any>;  // by value, except for the first of a method: a pointer to the object
struct Attr {
    std::type_index type = typeid(void);
    std::function<std::any(const void*)> get;
    std::function<void(void*, const std::any&)> set;
};
struct Method { std::vector<std::type_index> params; std::type_index result = typeid(void); std::function<std::any(const void* self, const Args&)> call; };
struct Class {
    std::string name;
    std::type_index type = typeid(void);
    std::vector<std::string> attr_order;
    std::map<std::string, Attr> attrs;
    std::map<std::string, std::vector<Method>> methods;
    std::vector<std::function<std::any()>> constructors;  // without arguments
};
struct Module {
    std::map<std::type_index, Class> classes;
    std::map<std::string, std::vector<Method>> functions;
    std::map<std::string, std::any> attrs;
};
inline Module& module() { static Module m; return m; }

template <class T> std::string repr_of(const T& v);
template <class T> struct is_vector : std::false_type {};
template <class T> struct is_vector<std::vector<T>> : std::true_type {};
template <class T> std::string repr_of(const T& v) {
    if constexpr (is_vector<T>::value) {
        std::string r = "[";
        for (size_t i = 0; i < v.size(); i++) r += (i ? ", " : "") + repr_of(v[i]);
        return r + "]";
    } else if constexpr (std::is_same_v<T, std::string>) return "'" + v + "'";
    else if constexpr (std::is_same_v<T, bool>) return v ? "True" : "False";
    else if constexpr (std::is_floating_point_v<T>) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
    else if constexpr (std::is_arithmetic_v<T>) return std::to_string(v);
    else {
        auto it = module().classes.find(typeid(T));
        if (it == module().classes.end() || !it->second.methods.count("__repr__")) throw std::runtime_error(std::string("no string form for ") + typeid(T).name());
        return std::any_cast<std::string>(it->second.methods["__repr__"][0].call(&v, {}));
    }
}
template <class T> using plain = std::remove_cv_t<std::remove_reference_t<T>>;

// Any callable as a Method.  The first parameter of a method of class T may be T&, const T&, T* or T.
template <class T> struct Slot {  // one argument
    static decltype(auto) from(const std::any& a) { return *std::any_cast<plain<T>>(&const_cast<std::any&>(a)); }
};
template <class R, class F, class Self, class... A, size_t... I> std::any invoke_self(F& f, const void* self, const Args& a, std::index_sequence<I...>) {
    using P = plain<Self>;
    auto go = [&](auto&& s) -> std::any {
        if constexpr (std::is_void_v<R>) { f(std::forward<decltype(s)>(s), Slot<A>::from(a.at(I))...); return {}; }
        else return std::any(plain<R>(f(std::forward<decltype(s)>(s), Slot<A>::from(a.at(I))...)));
    };
    if constexpr (std::is_pointer_v<P>) return go(static_cast<P>(const_cast<void*>(self)));
    else return go(*static_cast<P*>(const_cast<void*>(self)));
}
template <class R, class F, class... A, size_t... I> std::any invoke_free(F& f, const Args& a, std::index_sequence<I...>) {
    if constexpr (std::is_void_v<R>) { f(Slot<A>::from(a.at(I))...); return {}; }
    else return std::any(plain<R>(f(Slot<A>::from(a.at(I))...)));
}
template <class F, class R, class Self, class... A> Method as_method(F f) {
    Method m; m.params = {typeid(plain<A>)...}; m.result = typeid(plain<R>);
    m.call = [f](const void* s, const Args& a) mutable { return invoke_self<R, F, Self, A...>(f, s, a, std::index_sequence_for<A...>()); };
    return m;
}
template <class F, class R, class... A> Method as_function(F f) {
    Method m; m.params = {typeid(plain<A>)...}; m.result = typeid(plain<R>);
    m.call = [f](const void*, const Args& a) mutable { return invoke_free<R, F, A...>(f, a, std::index_sequence_for<A...>()); };
    return m;
}
// lambdas
template <class F> struct Sig : Sig<decltype(&F::operator())> {};
template <class C, class R, class... A> struct Sig<R (C::*)(A...) const> { template <class F> static Method function(F f) { return as_function<F, R, A...>(f); } template <class F> static Method method(F f) { return split<F, A...>(f); } template <class F, class S, class... B> static Method split(F f) { return as_method<F, R, S, B...>(f); } using result = R; };
template <class C, class R, class... A> struct Sig<R (C::*)(A...)> : Sig<R (C::*)(A...) const> {};
template <class R, class... A> struct Sig<R (*)(A...)> { template <class F> static Method function(F f) { return as_function<F, R, A...>(f); } template <class F> static Method method(F f) { return split<F, A...>(f); } template <class F, class S, class... B> static Method split(F f) { return as_method<F, R, S, B...>(f); } using result = R; };
template <class R, class... A> struct Sig<R (*)(A...) noexcept> : Sig<R (*)(A...)> {};
template <class F> Method function(F f) { return Sig<F>::function(f); }
template <class T, class F> Method method(F f) { return Sig<F>::method(f); }
template <class T, class R, class C, class... A> Method method(R (C::*f)(A...)) { auto g = [f](T& s, A... a) -> R { return (s.*f)(std::forward<A>(a)...); }; return as_method<decltype(g), R, T&, A...>(g); }
template <class T, class R, class C, class... A> Method method(R (C::*f)(A...) const) { auto g = [f](const T& s, A... a) -> R { return (s.*f)(std::forward<A>(a)...); }; return as_method<decltype(g), R, const T&, A...>(g); }
}  // namespace stub

// ---- objects
struct object {
    std::any value;
    std::function<std::string()> repr;
    struct Bound { std::function<object()> f; object operator()() const { return f(); } };
    Bound attr(const char* name) const;
    bool is_valid() const { return value.has_value(); }
};
using handle = object;
template <class T> object cast(const T& v) {
    object o;
    o.value = v;
    o.repr = [v] { return stub::repr_of(v); };
    return o;
}
inline object cast(const char* v) { return cast(std::string(v)); }
template <class T> T cast(const object& o) {
    if constexpr (std::is_same_v<T, std::string>) if (auto* s = std::any_cast<std::string>(&o.value)) return *s;
    return std::any_cast<T>(o.value);
}
inline object::Bound object::attr(const char* name) const {
    const std::string n = name;
    if (n == "__repr__" || n == "__str__") { auto r = repr; return {[r] { return nanobind::cast(r()); }}; }
    throw std::runtime_error("stand-in: attribute " + n);
}
struct str : object {
    std::string s;
    str() = default;
    str(const char* c) : s(c) { value = s; }
    explicit str(const object& o) : s(o.repr()) { value = s; }
    const char* c_str() const { return s.c_str(); }
};
inline str repr(const object& o) { return str(o); }

// ---- extra arguments of registrations that do not matter here
struct arg { explicit arg(const char*) {} template <class T> arg& operator=(T&&) { return *this; } arg noconvert() { return *this; } };
namespace literals { inline arg operator""_a(const char* n, size_t) { return arg(n); } }
struct sig { explicit sig(const char*) {} };
struct scope { template <class T> explicit scope(T&&) {} };
struct is_method {}; struct is_operator {}; struct dynamic_attr {}; struct is_final {}; struct kw_only {}; struct weak_referenceable {};
template <size_t, size_t> struct keep_alive {};
template <class...> struct call_guard {};
struct gil_scoped_release {}; struct gil_scoped_acquire {};
enum class rv_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal, none };
template <class... A> struct init {};
template <class... A> struct overload {
    template <class R> constexpr auto operator()(R (*f)(A...)) const { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...)) const { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const) const { return f; }
};
struct const_t {}; inline constexpr const_t const_{};
template <class... A> inline constexpr overload<A...> overload_cast{};

struct attr_ref { std::string n; template <class T> void operator=(T&& v) { stub::module().attrs[n] = std::any(std::decay_t<T>(v)); } };
struct module_ : object {
    template <class F, class... X> module_& def(const char* name, F f, X&&...) { stub::module().functions[name].push_back(stub::function(f)); return *this; }
    attr_ref attr(const char* n) { return {n}; }
    struct Doc { template <class T> void operator=(T&&) {} } doc_;
    Doc& doc() { return doc_; }
};

template <class T, class... Bases> struct class_ : object {
    stub::Class& c;
    template <class... X> class_(module_&, const char* name, X&&...) : c(stub::module().classes.emplace(typeid(T), stub::Class()).first->second) { c.name = name; c.type = typeid(T); }
    template <class... A, class... X> class_& def(init<A...>, X&&...) {
        if constexpr (sizeof...(A) == 0) c.constructors.push_back([] { return std::any(T()); });
        return *this;
    }
    template <class F, class... X> class_& def(const char* name, F f, X&&...) { c.methods[name].push_back(stub::method<T>(f)); return *this; }
    template <class F, class... X> class_& def_static(const char*, F, X&&...) { return *this; }
    void put(const char* name, stub::Attr a) { if (!c.attrs.count(name)) c.attr_order.push_back(name); c.attrs[name] = std::move(a); }  // a later registration replaces an earlier one
    template <class V, class B, class... X> class_& def_ro(const char* name, V B::*p, X&&...) {
        stub::Attr a; a.type = typeid(V); a.get = [p](const void* o) { return std::any(static_cast<const T*>(o)->*p); };
        put(name, a); return *this;
    }
    template <class V, class B, class... X> class_& def_rw(const char* name, V B::*p, X&&...) {
        stub::Attr a; a.type = typeid(V); a.get = [p](const void* o) { return std::any(static_cast<const T*>(o)->*p); };
        a.set = [p](void* o, const std::any& v) { static_cast<T*>(o)->*p = std::any_cast<V>(v); };
        put(name, a); return *this;
    }
    template <class G, class... X> class_& def_prop_ro(const char* name, G g, X&&...) {
        stub::Attr a; auto m = stub::method<T>(g); a.type = m.result; a.get = [m](const void* o) { return m.call(o, {}); };
        put(name, a); return *this;
    }
    template <class G, class S, class... X> class_& def_prop_rw(const char* name, G g, S s, X&&...) {
        stub::Attr a; auto m = stub::method<T>(g); auto w = stub::method<T>(s); a.type = m.result; a.get = [m](const void* o) { return m.call(o, {}); };
        a.set = [w](void* o, const std::any& v) { w.call(o, {v}); };
        put(name, a); return *this;
    }
};
}  // namespace nanobind
#define NB_MODULE(name, variable) void nb_module_init(nanobind::module_& variable)
#define NB_MAKE_OPAQUE(...)
