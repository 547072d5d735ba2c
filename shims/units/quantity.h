// Stand-in for mp-units 0.8 (not installed in this sandbox): the part of its interface that opencmw-cpp uses.
#ifndef VERIF_SHIM_UNITS_QUANTITY_H
#define VERIF_SHIM_UNITS_QUANTITY_H
#include <chrono>
#include <compare>
#include <concepts>
#include <cstddef>
#include <memory>
#include <ostream>
#include <ratio>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>

namespace units {
template<typename CharT, std::size_t N>
struct basic_fixed_string {
    CharT data_[N + 1]{};
    using value_type = CharT;
    constexpr basic_fixed_string(const CharT (&s)[N + 1]) noexcept {
        for (std::size_t i = 0; i <= N; ++i) data_[i] = s[i];
    }
    constexpr basic_fixed_string() noexcept = default;
    [[nodiscard]] constexpr bool         empty() const noexcept { return N == 0; }
    [[nodiscard]] constexpr std::size_t  size() const noexcept { return N; }
    [[nodiscard]] constexpr const CharT *data() const noexcept { return data_; }
    [[nodiscard]] constexpr const CharT *c_str() const noexcept { return data_; }
    [[nodiscard]] constexpr const CharT &operator[](std::size_t i) const noexcept { return data_[i]; }
    [[nodiscard]] constexpr operator std::basic_string_view<CharT>() const noexcept { return { data_, N }; }
    template<std::size_t M>
    constexpr friend basic_fixed_string<CharT, N + M> operator+(const basic_fixed_string &a, const basic_fixed_string<CharT, M> &b) noexcept {
        basic_fixed_string<CharT, N + M> r;
        for (std::size_t i = 0; i < N; ++i) r.data_[i] = a.data_[i];
        for (std::size_t i = 0; i < M; ++i) r.data_[N + i] = b.data_[i];
        return r;
    }
    template<std::size_t M>
    constexpr bool operator==(const basic_fixed_string<CharT, M> &o) const noexcept { return std::basic_string_view<CharT>(data_, N) == std::basic_string_view<CharT>(o.data_, M); }
};
template<typename CharT, std::size_t N>
basic_fixed_string(const CharT (&)[N]) -> basic_fixed_string<CharT, N - 1>;
template<std::size_t N>
using fixed_string = basic_fixed_string<char, N>;

template<typename T, typename U>
inline constexpr bool is_same_v = std::is_same_v<T, U>;

namespace shim {
template<typename T, template<typename...> typename Type>
struct is_spec : std::false_type {};
template<typename... P, template<typename...> typename Type>
struct is_spec<Type<P...>, Type> : std::true_type {};
template<template<typename...> typename Type, typename... P>
void to_base(const volatile Type<P...> *);
} // namespace shim
template<typename T, template<typename...> typename Type>
inline constexpr bool is_specialization_of = shim::is_spec<T, Type>::value;
template<typename T, template<typename...> typename Type>
inline constexpr bool is_derived_from_specialization_of = requires(T *t) { shim::to_base<Type>(t); };

struct dim_one {};
struct one {
    static constexpr basic_fixed_string symbol = "";
    using ratio                                = std::ratio<1>;
};
template<typename D, typename U, typename Rep>
class quantity;
namespace shim {
template<typename T>
struct is_q : std::false_type {};
template<typename D, typename U, typename R>
struct is_q<quantity<D, U, R>> : std::true_type {};
template<typename D, typename U, typename R>
void to_q(const volatile quantity<D, U, R> *);
} // namespace shim
template<typename T>
concept Quantity = shim::is_q<std::remove_cvref_t<T>>::value || requires(std::remove_cvref_t<T> *t) { shim::to_q(t); };
template<typename T>
inline constexpr bool quantity_like = false;
template<typename T>
concept QuantityLike = quantity_like<T>;
template<typename T>
concept wrapped_quantity_ = false;
template<typename T>
concept scalable_ = std::is_arithmetic_v<T>;
template<typename T>
concept Representation = std::is_arithmetic_v<T>;

template<typename D, typename U, typename Rep = double>
class quantity {
    Rep v_{};

public:
    using dimension = D;
    using unit      = U;
    using rep       = Rep;
    constexpr quantity() = default;
    template<typename V>
        requires std::is_arithmetic_v<V>
    constexpr explicit(!std::is_same_v<D, dim_one>) quantity(const V &v) : v_(static_cast<Rep>(v)) {}
    template<typename R, typename P>
    constexpr quantity(const std::chrono::duration<R, P> &d)
        : v_(static_cast<Rep>(std::chrono::duration_cast<std::chrono::duration<Rep, typename U::ratio>>(d).count())) {}
    template<typename U2, typename R2>
        requires(!std::is_same_v<U2, U> || !std::is_same_v<R2, Rep>)
    constexpr quantity(const quantity<D, U2, R2> &o) {
        using F = std::ratio_divide<typename U2::ratio, typename U::ratio>;
        v_      = static_cast<Rep>(static_cast<long double>(o.number()) * F::num / F::den);
    }
    [[nodiscard]] constexpr Rep       &number() & noexcept { return v_; }
    [[nodiscard]] constexpr const Rep &number() const & noexcept { return v_; }
    [[nodiscard]] constexpr Rep      &&number() && noexcept { return std::move(v_); }
    [[nodiscard]] constexpr const Rep &&number() const && noexcept { return std::move(v_); }
    template<typename V>
        requires std::is_arithmetic_v<V>
    friend constexpr bool operator==(const quantity &a, const V &b) { return a.v_ == static_cast<Rep>(b); }
    friend constexpr bool operator==(const quantity &a, const quantity &b) { return a.v_ == b.v_; }
    friend constexpr auto operator<=>(const quantity &a, const quantity &b) { return a.v_ <=> b.v_; }
    friend constexpr quantity operator+(const quantity &a, const quantity &b) { return quantity(static_cast<Rep>(a.v_ + b.v_)); }
    friend constexpr quantity operator-(const quantity &a, const quantity &b) { return quantity(static_cast<Rep>(a.v_ - b.v_)); }
    friend std::ostream &operator<<(std::ostream &os, const quantity &q) {
        os << q.v_;
        if (U::symbol.size() != 0) os << ' ' << U::symbol.c_str();
        return os;
    }
};
template<typename U, typename Rep = double>
using dimensionless = quantity<dim_one, U, Rep>;

namespace detail {
template<typename S>
struct text {
    S s;
    constexpr auto ascii() const { return s; }
};
template<typename D, typename U>
constexpr auto unit_text() { return text<std::remove_cvref_t<decltype(U::symbol)>>{ U::symbol }; }
} // namespace detail

namespace isq {
#define VERIF_UNITS_DIM(Dim, Concept, alias)                                                        \
    struct Dim {};                                                                                  \
    template<typename T>                                                                            \
    concept Concept = Quantity<T> && std::is_same_v<typename std::remove_cvref_t<T>::dimension, Dim>; \
    namespace si {                                                                                  \
    template<typename U, typename Rep = double>                                                     \
    using alias = quantity<Dim, U, Rep>;                                                            \
    }
VERIF_UNITS_DIM(dim_time, Time, time)
VERIF_UNITS_DIM(dim_length, Length, length)
VERIF_UNITS_DIM(dim_altitude, Altitude, altitude)
VERIF_UNITS_DIM(dim_mass, Mass, mass)
VERIF_UNITS_DIM(dim_speed, Speed, speed)
VERIF_UNITS_DIM(dim_energy, Energy, energy)
VERIF_UNITS_DIM(dim_current, ElectricCurrent, electric_current)
VERIF_UNITS_DIM(dim_resistance, Resistance, resistance)
#undef VERIF_UNITS_DIM
namespace si {
#define VERIF_UNITS_UNIT(name, sym, ...)                      \
    struct name {                                             \
        static constexpr basic_fixed_string symbol = sym;     \
        using ratio                                = __VA_ARGS__; \
    };
VERIF_UNITS_UNIT(second, "s", std::ratio<1>)
VERIF_UNITS_UNIT(millisecond, "ms", std::milli)
VERIF_UNITS_UNIT(microsecond, "us", std::micro)
VERIF_UNITS_UNIT(nanosecond, "ns", std::nano)
VERIF_UNITS_UNIT(metre, "m", std::ratio<1>)
VERIF_UNITS_UNIT(kilometre, "km", std::kilo)
VERIF_UNITS_UNIT(kilogram, "kg", std::ratio<1>)
VERIF_UNITS_UNIT(metre_per_second, "m/s", std::ratio<1>)
VERIF_UNITS_UNIT(joule, "J", std::ratio<1>)
VERIF_UNITS_UNIT(electronvolt, "eV", std::ratio<1>)
VERIF_UNITS_UNIT(ampere, "A", std::ratio<1>)
VERIF_UNITS_UNIT(ohm, "Ohm", std::ratio<1>)
#undef VERIF_UNITS_UNIT
} // namespace si
} // namespace isq
} // namespace units
#endif
