// Stand-in for refl-cpp (not installed in this sandbox): the part of its interface that opencmw-cpp uses - compile-time
// type names, field lists and field access. Written for verification only; it contains no behaviour of opencmw-cpp.
#ifndef VERIF_SHIM_REFL_HPP
#define VERIF_SHIM_REFL_HPP
#include <algorithm>
#include <array>
#include <cstddef>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>

namespace refl {
template<std::size_t N>
struct const_string {
    static constexpr std::size_t size = N;
    char                         data[N + 1]{};
    constexpr const_string() = default;
    constexpr const_string(const char *s) {
        for (std::size_t i = 0; i < N; ++i) data[i] = s[i];
    }
    constexpr const char *c_str() const noexcept { return data; }
    std::string           str() const { return std::string(data, N); }
    constexpr operator std::string_view() const noexcept { return std::string_view(data, N); }
    template<std::size_t Pos, std::size_t Count = static_cast<std::size_t>(-1)>
    constexpr auto substr() const {
        static_assert(Pos <= N);
        constexpr std::size_t M = std::min(Count, N - Pos);
        return const_string<M>(data + Pos);
    }
};
template<std::size_t N, std::size_t M>
constexpr bool operator==(const const_string<N> &a, const const_string<M> &b) noexcept { return std::string_view(a.data, N) == std::string_view(b.data, M); }
template<std::size_t N, std::size_t M>
constexpr bool operator==(const const_string<N> &a, const char (&b)[M]) noexcept { return std::string_view(a.data, N) == std::string_view(b, M - 1); }
template<std::size_t N>
std::ostream &operator<<(std::ostream &os, const const_string<N> &s) { return os << s.data; }

namespace shim {
template<std::size_t M>
constexpr const_string<M - 1> mk(const char (&s)[M]) { return const_string<M - 1>(s); }
template<typename T>
struct info; // specialised by REFL_TYPE
template<typename T>
using bare = std::remove_cv_t<std::remove_reference_t<T>>;
template<typename T, typename = void>
struct known : std::false_type {};
template<typename T>
struct known<T, std::void_t<decltype(sizeof(info<bare<T>>))>> : std::true_type {};
} // namespace shim

namespace trait {
template<typename T>
inline constexpr bool is_reflectable_v = shim::known<T>::value;
template<typename T>
struct is_reflectable : std::bool_constant<is_reflectable_v<T>> {};
} // namespace trait
template<typename T>
constexpr bool is_reflectable() noexcept { return trait::is_reflectable_v<T>; }
template<typename T>
constexpr bool is_reflectable(const T &) noexcept { return trait::is_reflectable_v<T>; }

template<typename T>
struct type_descriptor;

template<typename T, std::size_t I>
struct field_descriptor {
    using meta            = typename shim::info<T>::template member<I>;
    using declaring_type  = T;
    using value_type      = typename meta::value_type;
    static constexpr auto                name       = meta::name;
    static constexpr type_descriptor<T> declarator{};
    static constexpr std::size_t         index = I;
    template<typename U>
    constexpr decltype(auto) operator()(U &&target) const { return (std::forward<U>(target).*meta::ptr()); }
};
template<typename... Ts>
struct type_list {
    static constexpr std::size_t size = sizeof...(Ts);
};

namespace shim {
template<typename T, typename I>
struct mlist;
template<typename T, std::size_t... I>
struct mlist<T, std::index_sequence<I...>> {
    using type = type_list<field_descriptor<T, I>...>;
};
template<typename T>
using members_t = typename mlist<T, std::make_index_sequence<info<T>::count>>::type;
template<typename F, typename M>
constexpr void call(F &f, M m, std::size_t i) {
    if constexpr (std::is_invocable_v<F &, M, std::size_t>) {
        f(m, i);
    } else {
        f(m);
    }
}
} // namespace shim

template<typename T>
struct type_descriptor {
    using type = T;
    static constexpr auto name = shim::info<T>::name;
    shim::members_t<T>    members{};
};

template<typename T>
constexpr type_descriptor<shim::bare<T>> reflect() noexcept { return {}; }
template<typename T>
constexpr type_descriptor<shim::bare<T>> reflect(const T &) noexcept { return {}; }

template<typename T>
constexpr auto get_name(const type_descriptor<T> &) noexcept { return type_descriptor<T>::name; }
template<typename T, std::size_t I>
constexpr auto get_name(const field_descriptor<T, I> &) noexcept { return field_descriptor<T, I>::name; }
template<typename T, std::size_t I>
constexpr const char *get_display_name(const field_descriptor<T, I> &) noexcept { return field_descriptor<T, I>::meta::name.data; }
template<typename T, std::size_t I>
constexpr bool is_field(const field_descriptor<T, I> &) noexcept { return true; }
template<typename T, std::size_t I>
constexpr bool is_static(const field_descriptor<T, I> &) noexcept { return false; }
template<typename T, std::size_t I>
constexpr bool is_function(const field_descriptor<T, I> &) noexcept { return false; }
template<typename T, std::size_t I>
constexpr bool is_writable(const field_descriptor<T, I> &) noexcept { return !std::is_const_v<typename field_descriptor<T, I>::value_type>; }
template<typename T, std::size_t I>
constexpr bool is_readable(const field_descriptor<T, I> &) noexcept { return true; }

template<typename... Ts, typename F>
constexpr void for_each(type_list<Ts...>, F &&f) {
    std::size_t i = 0;
    (shim::call(f, Ts{}, i++), ...);
}
namespace shim {
template<typename P, typename... Ts>
constexpr std::size_t first(type_list<Ts...>, P p) {
    std::size_t i = 0, r = sizeof...(Ts);
    ((p(Ts{}) && r == sizeof...(Ts) ? (r = i, ++i) : ++i), ...);
    return r;
}
} // namespace shim
template<typename... Ts, typename P>
constexpr bool contains(type_list<Ts...>, P p) { return (p(Ts{}) || ...); }
template<typename... Ts, typename P>
constexpr auto find_first(type_list<Ts...> l, P p) {
    // the predicate may capture a runtime reference: choose by type, with a defaulted evaluation
    constexpr std::size_t i = [&]() { std::size_t k = 0, r = sizeof...(Ts); ((p(Ts{}) && r == sizeof...(Ts) ? (r = k, ++k) : ++k), ...); return r; }();
    (void) l;
    return std::get<i>(std::tuple<Ts...>{});
}
namespace util {
template<typename... Ts, typename F>
constexpr void for_each(type_list<Ts...> l, F &&f) { refl::for_each(l, std::forward<F>(f)); }
template<typename R, typename... Ts, typename F>
constexpr std::array<R, sizeof...(Ts)> map_to_array(type_list<Ts...>, F &&f) {
    std::size_t i = 0;
    return std::array<R, sizeof...(Ts)>{ f(Ts{}, static_cast<int>(i++))... };
}
template<typename... Ts, typename P>
constexpr bool contains(type_list<Ts...> l, P p) { return refl::contains(l, p); }
} // namespace util
namespace descriptor {
template<typename T>
constexpr auto get_members(const type_descriptor<T> &t) noexcept { return t.members; }
} // namespace descriptor
} // namespace refl

#define REFL_SHIM_STR2(...) #__VA_ARGS__
#define REFL_SHIM_STR(...) REFL_SHIM_STR2(__VA_ARGS__)
#define REFL_SHIM_UNP(X) X
#define REFL_TYPE(TypeName, ...)                                                     \
    namespace refl::shim {                                                          \
    template<>                                                                      \
    struct info<TypeName> {                                                         \
        using type                        = TypeName;                               \
        static constexpr auto        name = mk(#TypeName);                          \
        static constexpr std::size_t base = __COUNTER__ + 1;                        \
        template<std::size_t, typename = void>                                      \
        struct member;
#define REFL_FIELD(FieldName, ...)                                                  \
    template<typename U>                                                            \
    struct member<__COUNTER__ - base, U> {                                          \
        static constexpr auto name = mk(#FieldName);                                \
        using value_type           = decltype(type::FieldName);                     \
        static constexpr auto ptr() { return &type::FieldName; }                    \
    };
#define REFL_END                                                                    \
    static constexpr std::size_t count = __COUNTER__ - base;                        \
    }                                                                               \
    ;                                                                               \
    }
#define REFL_DETAIL_EX_1_field(X) REFL_FIELD(X)
#define REFL_SHIM_PARENS ()
#define REFL_SHIM_EX(...) REFL_SHIM_EX4(REFL_SHIM_EX4(REFL_SHIM_EX4(REFL_SHIM_EX4(__VA_ARGS__))))
#define REFL_SHIM_EX4(...) REFL_SHIM_EX3(REFL_SHIM_EX3(REFL_SHIM_EX3(REFL_SHIM_EX3(__VA_ARGS__))))
#define REFL_SHIM_EX3(...) REFL_SHIM_EX2(REFL_SHIM_EX2(REFL_SHIM_EX2(REFL_SHIM_EX2(__VA_ARGS__))))
#define REFL_SHIM_EX2(...) REFL_SHIM_EX1(REFL_SHIM_EX1(REFL_SHIM_EX1(REFL_SHIM_EX1(__VA_ARGS__))))
#define REFL_SHIM_EX1(...) __VA_ARGS__
#define REFL_SHIM_FE(M, A, ...) M(A) __VA_OPT__(REFL_SHIM_FE_AGAIN REFL_SHIM_PARENS(M, __VA_ARGS__))
#define REFL_SHIM_FE_AGAIN() REFL_SHIM_FE
#define REFL_DETAIL_FOR_EACH(M, ...) __VA_OPT__(REFL_SHIM_EX(REFL_SHIM_FE(M, __VA_ARGS__)))
#endif
