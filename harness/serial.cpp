// Messages of the serialisers: what the real code writes for generated objects, and what objects of other types receive
// from them (also after damaged messages). Built once per protocol with -DPROTO=YaS, CmwLight or Json.
#include <cmath>
#include <cstring>
#include <format>
#include <functional>
#include <iostream>
#include <memory>
#include <optional>
#include <random>
#include <set>
#include <sstream>
#include <unordered_map>
#include <variant>
#include <csignal>
#define IS_YaS 1
#define IS_CmwLight 2
#define IS_Json 3
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define KIND CAT(IS_, PROTO)
#if KIND == IS_YaS
#include <IoSerialiserYaS.hpp>
#elif KIND == IS_CmwLight
#include <IoSerialiserCmwLight.hpp>
#else
#include <IoSerialiserJson.hpp>
#endif
#include <units/isq/si/length.h>
#include <units/isq/si/time.h>
#include "hutil.hpp"
using namespace opencmw;
using namespace units::isq;
using Prot = opencmw::PROTO;
constexpr bool isJson = KIND == IS_Json;

// reflection with a chosen name (messages name their root type)
#define REFLECT_AS(Type, Name, ...)                                      \
    namespace refl::shim {                                              \
    template<>                                                          \
    struct info<Type> {                                                 \
        using type                        = Type;                       \
        static constexpr auto        name = mk(#Name);                  \
        static constexpr std::size_t base = __COUNTER__ + 1;            \
        template<std::size_t, typename = void>                          \
        struct member;                                                  \
    REFL_DETAIL_FOR_EACH(REFL_DETAIL_EX_1_field, __VA_ARGS__)           \
    REFL_END

using Metres  = Annotated<double, si::length<si::metre>, "a length">;
using Seconds = Annotated<double, si::time<si::second>, "a duration", RW>;
using Plain   = Annotated<int32_t, NoUnit, "a number">;

struct In {
    int32_t             a;
    std::string         s;
    std::vector<double> v;
};
struct In2 { // same names, other types and members
    std::string s;
    int64_t     a;
    int16_t     more;
};
struct Deep {
    In                       in;
    std::shared_ptr<int32_t> opt;
    int32_t                  z;
};
struct All {
    bool                               b;
    int8_t                             i8;
    int16_t                            i16;
    int32_t                            i32;
    int64_t                            i64;
    float                              f;
    double                             d;
    std::string                        s;
    std::vector<bool>                  vb;
    std::vector<int8_t>                v8;
    std::vector<int16_t>               v16;
    std::vector<int32_t>               v32;
    std::vector<int64_t>               v64;
    std::vector<float>                 vf;
    std::vector<double>                vd;
    std::vector<std::string>           vs;
    std::array<int32_t, 3>             ai;
    std::set<int32_t>                  st;
    std::map<std::string, double>      md;
    std::map<std::string, std::string> ms;
    MultiArray<double, 2>              ma;
    In                                 in;
    std::unique_ptr<In>                up;
    std::shared_ptr<In>                sp;
    std::unique_ptr<int32_t>           ui;
    int32_t                            x_class; // written without the prefix
    Deep                               deep;
    Metres                             an;
    int16_t                            last;
};
struct Some { // other order, members missing, members of its own
    int16_t                            last;
    Deep                               deep;
    std::map<std::string, std::string> ms;
    std::vector<std::string>           vs;
    double                             d;
    int32_t                            x_class;
    std::unique_ptr<In>                in;
    std::string                        s;
    int32_t                            own;
    std::set<int32_t>                  v32; // sent as vector
    std::vector<int32_t>               st;  // sent as set
    MultiArray<double, 2>              ma;
    std::vector<int16_t>               ownv;
};
struct Retyped {
    std::string                   i32;
    int64_t                       d;
    std::vector<double>           vs;
    int32_t                       in; // sent as structure
    In                            f;  // sent as number
    In2                           up;
    std::map<std::string, double> vd;
    std::vector<float>            md;
    int16_t                       last;
    std::string                   s;
};
struct Flat { // no structures (CmwLight cannot step over those)
    int32_t                            i32;
    std::string                        s;
    double                             d;
    std::vector<std::string>           vs;
    std::vector<int64_t>               v64;
    std::vector<bool>                  vb;
    float                              f;
    std::unique_ptr<double>            ud;
    MultiArray<float, 3>               mf;
    MultiArray<std::string, 2>         mst;
    std::map<std::string, std::string> ms;
    std::vector<float>                 vf;
    std::map<std::string, double>      md;
    bool                               b;
};
struct FlatSome {
    bool                               b;
    std::map<std::string, double>      md;
    std::vector<std::string>           vs;
    std::string                        s;
    int32_t                            own;
};
struct FlatRetyped {
    std::string                        i32;
    std::vector<double>                s;
    int16_t                            d;
    std::map<std::string, double>      ms; // CmwLight, Json: a map, too
    In                                 f;
    bool                               b;
};
struct Ann {
    Metres                                                                   len;
    Seconds                                                                  dur;
    Annotated<int32_t, NoUnit, "read only", RO>                              ro;
    Annotated<int32_t, NoUnit, "old", RW_DEPRECATED>                         dep;
    Annotated<int32_t, NoUnit, "internal", RW_PRIVATE>                       priv;
    Annotated<std::string, NoUnit, "text">                                   txt;
    Annotated<std::vector<float>, si::length<si::kilometre>, "vector, far">  vec;
    int32_t                                                                  plain;
    double                                                                   bare;
    Annotated<double, si::length<si::metre>, "a height">                     q1;
    Annotated<double, si::altitude<si::metre>, "a height">                   q2;
};
struct AnnOther { // other units and modifiers
    double                                                        bare;
    Annotated<double, si::length<si::kilometre>, "a length">      len;
    Seconds                                                       dur;
    Annotated<int32_t, NoUnit, "was read only">                   ro;
    Annotated<int32_t, NoUnit, "old", RO_DEPRECATED>              dep;
    Annotated<int32_t, NoUnit, "internal", RO_PRIVATE>            priv;
    Annotated<std::string, NoUnit, "another text">                txt;
    std::vector<float>                                            vec;
    Plain                                                         plain;
    Annotated<double, si::altitude<si::metre>, "a height">        q1; // same unit, other quantity
    Annotated<double, si::length<si::metre>, "a height">          q2;
};
struct Fix {
    int32_t                    i32;
    std::array<int32_t, 3>     ai;
    std::array<double, 2>      ad;
    std::array<std::string, 2> as;
    int16_t                    last;
};
struct FixOther { // one longer, one shorter, one equal
    std::array<double, 3>      ad;
    std::array<int32_t, 2>     ai;
    std::array<std::string, 2> as;
    int16_t                    last;
    int32_t                    i32;
};
struct FixBig {
    int16_t                    last;
    std::array<std::string, 3> as;
    std::array<double, 4>      ad;
    std::array<int32_t, 5>     ai;
};
struct Stranger { // another root name
    int32_t     i32;
    std::string s;
};
REFLECT_AS(In, In, a, s, v)
REFLECT_AS(In2, In2, s, a, more)
REFLECT_AS(Deep, Deep, in, opt, z)
REFLECT_AS(All, Obj, b, i8, i16, i32, i64, f, d, s, vb, v8, v16, v32, v64, vf, vd, vs, ai, st, md, ms, ma, in, up, sp, ui, x_class, deep, an, last)
REFLECT_AS(Some, Obj, last, deep, ms, vs, d, x_class, in, s, own, v32, st, ma, ownv)
REFLECT_AS(Retyped, Obj, i32, d, vs, in, f, up, vd, md, last, s)
REFLECT_AS(Flat, Obj, i32, s, d, vs, v64, vb, f, ud, mf, mst, ms, vf, md, b)
REFLECT_AS(FlatSome, Obj, b, md, vs, s, own)
REFLECT_AS(FlatRetyped, Obj, i32, s, d, ms, f, b)
REFLECT_AS(Ann, Obj, len, dur, ro, dep, priv, txt, vec, plain, bare, q1, q2)
REFLECT_AS(AnnOther, Obj, bare, len, dur, ro, dep, priv, txt, vec, plain, q1, q2)
REFLECT_AS(Fix, Obj, i32, ai, ad, as, last)
REFLECT_AS(FixOther, Obj, ad, ai, as, last, i32)
REFLECT_AS(FixBig, Obj, last, as, ad, ai)
REFLECT_AS(Stranger, Stranger, i32, s)
#if KIND == IS_YaS
struct Extra {
    std::map<std::string, std::vector<double>> mv;
    int32_t                                    i32;
    std::vector<int8_t>                        v8;
};
struct ExtraSome {
    int32_t                                    i32;
    std::map<std::string, std::vector<double>> mv;
};
REFLECT_AS(Extra, Obj, mv, i32, v8)
REFLECT_AS(ExtraSome, Obj, i32, mv)
#elif KIND == IS_CmwLight
using Var = std::variant<int32_t, double, std::string>;
struct Extra {
    std::map<std::string, Var>                       mw;
    int32_t                                          i32;
    std::map<std::string, std::vector<std::string>>  mv;
    std::set<std::string>                            ts;
};
struct ExtraSome {
    int32_t                                          i32;
    std::map<std::string, std::vector<std::string>>  mv;
    std::map<std::string, Var>                       mw;
};
REFLECT_AS(Extra, Obj, mw, i32, mv, ts)
REFLECT_AS(ExtraSome, Obj, i32, mv, mw)
#else
struct Extra {
    std::map<std::string, std::vector<double>> mv;
    int32_t                                    i32;
    std::set<std::string>                      ts;
    MultiArray<int32_t, 3>                     m3;
};
struct ExtraSome {
    MultiArray<int32_t, 3>                     m3;
    int32_t                                    i32;
    std::map<std::string, std::vector<double>> mv;
};
REFLECT_AS(Extra, Obj, mv, i32, ts, m3)
REFLECT_AS(ExtraSome, Obj, m3, i32, mv)
#endif

std::mt19937_64 rng;
unsigned        rnd(unsigned n) { return static_cast<unsigned>(rng() % n); }

// ---------------------------------------------------------------- random values
template<typename T>
struct is_map : std::false_type {};
template<typename V>
struct is_map<std::map<std::string, V>> : std::true_type {};
template<typename T>
struct is_set : std::false_type {};
template<typename V>
struct is_set<std::set<V>> : std::true_type {};
template<typename T>
struct is_var : std::false_type {};
template<typename... V>
struct is_var<std::variant<V...>> : std::true_type {};
template<typename T>
constexpr bool is_ptr = is_smart_pointer<T>;

std::string rtext() {
    std::string s;
    switch (rnd(6)) {
    case 0: return "";
    case 1: return "plain text";
    case 2: return std::string("nul\0in", 6);
    case 3: return std::string(rnd(40), 'x');
    default: break;
    }
    static const std::string special = "\"\\/\b\f\n\r\t\x01\x1f\x7f{}[]:,\xc3\xa4\xff' u0041";
    for (unsigned i = 0, n = rnd(12); i < n; ++i) s += rnd(2) ? special[rnd(static_cast<unsigned>(special.size()))] : static_cast<char>(rnd(256));
    return s;
}
template<typename T>
void fill(T &x) {
    if constexpr (std::is_same_v<T, bool>) x = rnd(2);
    else if constexpr (std::is_integral_v<T>) {
        static const long long sp[] = { 0, 1, -1, 127, -128, 255, 256, 32767, -32768, 65536, 2147483647LL, -2147483648LL, 9223372036854775807LL, std::numeric_limits<long long>::min() };
        x = static_cast<T>(rnd(2) ? sp[rnd(14)] : static_cast<long long>(rng()));
    } else if constexpr (std::is_floating_point_v<T>) {
        switch (rnd(8)) {
        case 0: x = 0; break;
        case 1: x = static_cast<T>(-0.0); break;
        case 2: x = std::numeric_limits<T>::max(); break;
        case 3: x = std::numeric_limits<T>::min(); break;
        case 4: x = std::numeric_limits<T>::denorm_min(); break;
        case 5: x = static_cast<T>(static_cast<int>(rnd(2001)) - 1000); break;
        case 6: x = static_cast<T>(0.1) * static_cast<T>(rnd(1000)); break;
        default:
            do {
                auto u = rng();
                std::memcpy(&x, &u, sizeof x);
            } while (!std::isfinite(x));
        }
        if (!isJson && rnd(12) == 0) x = rnd(2) ? std::numeric_limits<T>::quiet_NaN() : -std::numeric_limits<T>::infinity();
    } else if constexpr (std::is_same_v<T, std::string>) x = rtext();
    else if constexpr (is_annotated<T>) fill(x.value());
    else if constexpr (is_ptr<T>) {
        x.reset();
        if (rnd(3)) {
            x.reset(new typename T::element_type{});
            fill(*x);
        }
    } else if constexpr (is_map<T>::value) {
        x.clear();
        for (unsigned i = 0, n = rnd(4); i < n; ++i) fill(x[rtext()]);
    } else if constexpr (is_set<T>::value) {
        x.clear();
        for (unsigned i = 0, n = rnd(5); i < n; ++i) {
            typename T::value_type e;
            fill(e);
            x.insert(e);
        }
    } else if constexpr (is_var<T>::value) {
        switch (rnd(3)) {
        case 0: { int32_t v; fill(v); x = v; break; }
        case 1: { double v; fill(v); x = v; break; }
        default: x = rtext();
        }
    } else if constexpr (MultiArrayType<T>) {
        std::array<uint32_t, T::n_dims_> dims;
        for (auto &d : dims) d = rnd(4);
        x = T(dims);
        for (auto &&e : x.elements()) { typename T::value_type v; fill(v); e = v; }
    } else if constexpr (is_array<T>) {
        for (auto &e : x) fill(e);
    } else if constexpr (is_vector<T>) {
        x.clear();
        for (unsigned i = 0, n = rnd(5); i < n; ++i) {
            typename T::value_type e;
            fill(e);
            x.push_back(e);
        }
    } else {
        refl::util::for_each(refl::reflect<T>().members, [&](auto m, auto) { fill(m(x)); });
    }
}

// ---------------------------------------------------------------- trees
template<typename T>
const char *numTag() {
    if constexpr (std::is_same_v<T, bool>) return "b";
    else if constexpr (std::is_same_v<T, int8_t>) return "1";
    else if constexpr (std::is_same_v<T, int16_t>) return "2";
    else if constexpr (std::is_same_v<T, int32_t>) return "4";
    else if constexpr (std::is_same_v<T, int64_t>) return "8";
    else if constexpr (std::is_same_v<T, float>) return "f";
    else if constexpr (std::is_same_v<T, double>) return "d";
    else return "s";
}
std::string norm(std::string t) { // decimal text -> [negative, digits, exponent]: 0.d1d2.. * 10^exponent
    bool neg = t[0] == '-';
    if (neg) t.erase(0, 1);
    long e = 0;
    if (auto p = t.find('e'); p != std::string::npos) {
        e = std::stol(t.substr(p + 1));
        t.resize(p);
    }
    std::string digits;
    if (auto p = t.find('.'); p != std::string::npos) {
        digits = t.substr(0, p) + t.substr(p + 1);
        e += static_cast<long>(p);
    } else {
        digits = t;
        e += static_cast<long>(t.size());
    }
    while (!digits.empty() && digits[0] == '0') digits.erase(0, 1), --e;
    while (!digits.empty() && digits.back() == '0') digits.pop_back();
    if (digits.empty()) e = 0;
    std::string r = std::string("[") + (neg ? "1" : "0") + ",[";
    for (std::size_t i = 0; i < digits.size(); ++i) r += std::string(i ? "," : "") + digits[i];
    return r + "]," + std::to_string(e) + "]";
}
template<typename T>
std::string leaf(const T &x) {
    if constexpr (std::is_same_v<T, std::string>) return hu::bytes(x);
    else if constexpr (!isJson) {
        char b[sizeof(T)];
        std::memcpy(b, &x, sizeof b);
        return hu::bytes(std::string_view(b, sizeof b));
    } else if constexpr (std::is_same_v<T, bool>) return x ? "[1]" : "[0]";
    else {
        char b[80];
        if constexpr (std::is_floating_point_v<T>) {
            auto        r = std::to_chars(b, b + 80, x, std::chars_format::scientific);
            std::string s = norm(std::string(b, r.ptr));
            std::snprintf(b, sizeof b, sizeof(T) == 4 ? "%.8e" : "%.16e", static_cast<double>(x));
            return "[" + s + "," + norm(b) + "]";
        } else {
            return "[" + norm(std::to_string(x)) + "]";
        }
    }
}
template<typename C>
std::string leaves(const C &c) {
    std::string r = "[";
    bool        first = true;
    for (const auto &e : c) {
        using E = std::remove_cvref_t<decltype(e)>;
        if (!first) r += ",";
        first = false;
        if constexpr (std::is_same_v<C, std::vector<bool>>) r += leaf(static_cast<bool>(e));
        else r += leaf<E>(e);
    }
    return r + "]";
}
template<typename T>
std::string tree(const T &o);
template<typename T>
std::string value(const T &x) { // "t":[..],"v":..
    auto mk = [](std::string a, std::string b, std::string v) { return "\"t\":[\"" + a + "\",\"" + b + "\"],\"v\":" + v; };
    if constexpr (is_annotated<T>) return value(x.value());
    else if constexpr (std::is_arithmetic_v<T> || std::is_same_v<T, std::string>) return mk("n", numTag<T>(), leaf(x));
    else if constexpr (is_map<T>::value) {
        using V       = typename T::mapped_type;
        std::string r = "[", tag;
        bool        first = true;
        for (const auto &[k, v] : x) {
            if (!first) r += ",";
            first = false;
            r += "[" + hu::bytes(k) + ",";
            if constexpr (is_vector<V>) r += leaves(v);
            else if constexpr (is_var<V>::value) r += std::visit([](const auto &e) { return std::string("[\"") + numTag<std::remove_cvref_t<decltype(e)>>() + "\"," + leaf(e) + "]"; }, v);
            else r += leaf(v);
            r += "]";
        }
        if constexpr (is_vector<V>) return mk("mv", numTag<typename V::value_type>(), r + "]");
        else if constexpr (is_var<V>::value) return mk("mw", "", r + "]");
        else return mk("m", numTag<V>(), r + "]");
    } else if constexpr (is_set<T>::value) return mk("t", numTag<typename T::value_type>(), leaves(x));
    else if constexpr (MultiArrayType<T>) {
        std::string r = "[[";
        for (std::size_t i = 0; i < T::n_dims_; ++i) r += (i ? "," : "") + std::to_string(x.dimensions()[i]);
        r += "]," + leaves(x.elements()) + ",[";
        for (std::size_t i = 0; i < T::n_dims_; ++i) r += (i ? "," : "") + std::to_string(x.stride(static_cast<uint32_t>(i))) + "," + std::to_string(x.offset(static_cast<uint32_t>(i)));
        return mk("M" + std::string(T::n_dims_ == 2 ? "2" : "3"), numTag<typename T::value_type>(), r + "]," + std::to_string(x.element_count()) + "]");
    } else if constexpr (is_array<T>) return mk("a", numTag<typename T::value_type>(), leaves(x));
    else if constexpr (is_vector<T>) return mk("v", numTag<typename T::value_type>(), leaves(x));
    else return mk("o", "", tree(x));
}
template<typename T>
std::string annot(const T &x) {
    if constexpr (is_annotated<T>) return "[" + hu::bytes(x.getUnit()) + "," + hu::bytes(x.getQuantity()) + "," + hu::bytes(x.getDescription()) + "," + std::to_string(static_cast<int>(x.getModifier())) + "]";
    else return "[]";
}
template<typename T>
std::string tree(const T &o) {
    std::string r = "[";
    refl::util::for_each(refl::reflect<T>().members, [&](auto m, auto i) {
        const auto &x = m(o);
        using X       = std::remove_cvref_t<decltype(x)>;
        if (i) r += ",";
        r += "{\"n\":" + hu::bytes(std::string_view(m.name.data, m.name.size));
        if constexpr (is_ptr<X>) {
            typename X::element_type none{};
            r += std::string(",\"nul\":") + (x ? "0" : "1") + ",\"a\":[]," + value(x ? *x : none) + "}";
        } else {
            r += ",\"nul\":0,\"a\":" + annot(x) + "," + value(x) + "}";
        }
    });
    return r + "]";
}

// ---------------------------------------------------------------- text of other writers (Json)
std::string ws() {
    std::string s;
    for (unsigned i = 0, n = rnd(3) ? 0 : rnd(3); i < n; ++i) s += " \t\n\r"[rnd(4)];
    return s;
}
std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (char ch : s) {
        auto c = static_cast<unsigned char>(ch);
        char b[8];
        switch (rnd(3) ? c : 0x100) {
        case '\b': r += "\\b"; continue;
        case '\f': r += "\\f"; continue;
        case '\n': r += "\\n"; continue;
        case '\r': r += "\\r"; continue;
        case '\t': r += "\\t"; continue;
        default: break;
        }
        if (c < 0x20 || (c < 0x80 && !rnd(8))) {
            std::snprintf(b, sizeof b, rnd(2) ? "\\u%04x" : "\\u%04X", c);
            r += b;
        } else if (c == '"' || c == '\\' || (c == '/' && rnd(2))) r += std::string("\\") + ch;
        else r += ch;
    }
    if (!rnd(6)) r += "\\u00e4\\u20AC\\uD83D\\ude00\\ud800"; // two, three, four bytes and an unpaired surrogate
    return r + "\"";
}
template<typename T>
std::string jleaf(const T &x) {
    if constexpr (std::is_same_v<T, std::string>) return jstr(x);
    else if constexpr (std::is_same_v<T, bool>) return x ? "true" : "false";
    else {
        char b[400];
        if constexpr (std::is_floating_point_v<T>) {
            auto r = std::to_chars(b, b + 400, x, std::chars_format::scientific);
            if (!rnd(3)) std::snprintf(b, sizeof b, sizeof(T) == 4 ? "%.8E" : "%.16E", static_cast<double>(x));
            else *r.ptr = 0;
            std::string t = b; // other spellings of the same digits
            auto        e = t.find_first_of("eE");
            if (rnd(2)) t[e] = 'E';
            if (rnd(3) == 0 && t.find('.') == std::string::npos) t.insert(e, ".0");
            if (t[t.find_first_of("eE") + 1] == '+' && rnd(2)) t.erase(t.find_first_of("eE") + 1, 1);
            return t;
        } else return std::to_string(x);
    }
}
template<typename T>
std::string jtext(const T &x);
template<typename C>
std::string jlist(const C &c) {
    std::string r = "[" + ws();
    bool        first = true;
    for (const auto &e : c) {
        if (!first) r += ws() + "," + ws();
        first = false;
        if constexpr (std::is_same_v<C, std::vector<bool>>) r += e ? "true" : "false";
        else r += jtext(e);
    }
    return r + ws() + "]";
}
std::string junk(int depth) {
    switch (rnd(depth > 2 ? 5 : 7)) {
    case 0: return "null";
    case 1: return rnd(2) ? "true" : "false";
    case 2: return "-12.5e+3";
    case 3: return jstr(rtext());
    case 4: return std::to_string(rnd(100));
    case 5: return rnd(3) ? "[" + ws() + junk(depth + 1) + ws() + "," + ws() + junk(depth + 1) + ws() + "]" : "[" + ws() + "]";
    default: return rnd(3) ? "{" + ws() + jstr(rtext()) + ws() + ":" + ws() + junk(depth + 1) + ws() + "}" : "{" + ws() + "}";
    }
}
template<typename T>
std::string jtext(const T &x) {
    if constexpr (is_var<T>::value) return "0";
    else if constexpr (is_annotated<T>) return jtext(x.value());
    else if constexpr (std::is_arithmetic_v<T> || std::is_same_v<T, std::string>) return jleaf(x);
    else if constexpr (is_map<T>::value) {
        std::string r = "{" + ws();
        bool        first = true;
        for (const auto &[k, v] : x) {
            if (!first) r += ws() + "," + ws();
            first = false;
            r += jstr(k) + ws() + ":" + ws() + jtext(v);
        }
        return r + ws() + "}";
    } else if constexpr (MultiArrayType<T>) {
        return "{" + ws() + "\"dims\"" + ws() + ":" + ws() + jlist(std::vector<int32_t>(x.dimensions().begin(), x.dimensions().end())) + ws() + "," + ws() + "\"values\"" + ws() + ":" + ws() + jlist(x.elements()) + ws() + "}";
    } else if constexpr (is_set<T>::value || is_array<T> || is_vector<T>) return jlist(x);
    else {
        std::vector<std::string> items;
        refl::util::for_each(refl::reflect<T>().members, [&](auto m, auto) {
            const auto &f = m(x);
            using X       = std::remove_cvref_t<decltype(f)>;
            std::string n(m.name.data, m.name.size);
            if (n.starts_with("x_")) n = n.substr(2);
            if constexpr (is_ptr<X>) {
                if (f) items.push_back("\"" + n + "\"" + ws() + ":" + ws() + jtext(*f));
            } else items.push_back("\"" + n + "\"" + ws() + ":" + ws() + jtext(f));
        });
        for (unsigned i = rnd(3); i > 0; --i) items.push_back("\"unknown" + std::to_string(i) + "\"" + ws() + ":" + ws() + junk(0));
        std::shuffle(items.begin(), items.end(), rng);
        std::string r = "{" + ws();
        for (std::size_t i = 0; i < items.size(); ++i) r += (i ? ws() + "," + ws() : "") + items[i];
        return r + ws() + "}";
    }
}

// ---------------------------------------------------------------- the code under test
template<typename T>
std::string written(const T &o, bool meta = true) {
    IoBuffer b;
    if (meta) serialise<Prot, true>(b, o);
    else serialise<Prot, false>(b, o);
    return std::string(reinterpret_cast<const char *>(b.data()), b.size());
}
// deserialises a copy of the message that ends at its last byte (readable bytes behind it would hide an overrun)
template<ProtocolCheck check, typename T>
std::string received(const std::string &msg, T &o, bool detail = true) {
    std::vector<uint8_t> copy(msg.begin(), msg.end());
    IoBuffer             b(copy.data(), copy.size());
    std::string          res = "\"ok\"", set = "[", add = "[";
    long                 nexc = 0;
    try {
        auto info = opencmw::deserialise<Prot, check>(b, o);
        nexc      = static_cast<long>(info.exceptions.size());
        if (detail) {
            for (const auto &[n, bits] : info.setFields) {
                set += std::string(set.size() > 1 ? "," : "") + "[" + hu::bytes(n) + ",[";
                for (std::size_t i = 0; i < bits.size(); ++i) set += std::string(i ? "," : "") + (bits[i] ? "1" : "0");
                set += "]]";
            }
            for (const auto &[n, t] : info.additionalFields) add += std::string(add.size() > 1 ? "," : "") + "[" + hu::bytes(n) + "," + std::to_string(t) + "]";
        }
    } catch (const ProtocolException &) {
        res = "\"err\"";
    } catch (const std::exception &) {
        res = "\"err\"";
    }
    return "\"res\":" + res + ",\"nexc\":" + std::to_string(nexc) + ",\"set\":" + set + "],\"add\":" + add + "]";
}
template<typename T>
std::string receive(int check, const std::string &msg, T &o, bool detail = true) {
    switch (check) {
    case 0: return received<ProtocolCheck::IGNORE>(msg, o, detail);
    case 1: return received<ProtocolCheck::LENIENT>(msg, o, detail);
    default: return received<ProtocolCheck::ALWAYS>(msg, o, detail);
    }
}
std::string damaged(std::string m, const std::string &other) {
    auto put32 = [&](std::size_t at, int32_t v) {
        for (std::size_t i = 0; i < 4 && at + i < m.size(); ++i) m[at + i] = static_cast<char>(static_cast<uint32_t>(v) >> (8 * i));
    };
    for (unsigned k = 0, n = 1 + rnd(3); k < n && !m.empty(); ++k) {
        const auto at = rnd(static_cast<unsigned>(m.size()));
        switch (rnd(8)) {
        case 0: m[at] = static_cast<char>(m[at] ^ (1 << rnd(8))); break;
        case 1: m[at] = static_cast<char>(rnd(256)); break;
        case 2: m.resize(at); break;
        case 3: {
            static const int32_t sp[] = { -1, 0, 1, 2, 127, 128, 255, 256, 65535, 65536, 2147483647, -2147483647 - 1, 0x40000000, 0x20000000, 0x10000000, -4, -8, -16 };
            put32(at, sp[rnd(18)]);
            break;
        }
        case 4: m.erase(at, 1 + rnd(8)); break;
        case 5: m.insert(at, m.substr(rnd(static_cast<unsigned>(m.size())), rnd(40))); break;
        case 6: m = m.substr(0, at) + other.substr(std::min<std::size_t>(other.size(), at)); break;
        default:
            if (isJson) m[at] = "{}[]\",:\\u0-e. tfn"[rnd(17)];
            else put32(at, static_cast<int32_t>(m.size() - at) + static_cast<int>(rnd(5)) - 2);
        }
    }
    return m;
}

using Types = std::tuple<All, Some, Retyped, Flat, FlatSome, FlatRetyped, Ann, AnnOther, Stranger, Extra, ExtraSome, Fix, FixOther, FixBig>;
constexpr unsigned NT = std::tuple_size_v<Types>;
template<typename F, std::size_t... I>
void with(unsigned i, F f, std::index_sequence<I...>) {
    ((i == I ? (void) f.template operator()<std::tuple_element_t<I, Types>>() : (void) 0), ...);
}
template<typename F>
void with(unsigned i, F f) { with(i, f, std::make_index_sequence<NT>{}); }
// which receivers make sense for which sender (Json: values of another type are text of another syntax)
unsigned partner(unsigned s) {
    static const std::vector<std::vector<unsigned>> p = isJson ? std::vector<std::vector<unsigned>>{ { 0, 1 }, { 1, 0 }, { 2 }, { 3, 4 }, { 4, 3 }, { 5 }, { 6, 7 }, { 7, 6 }, { 8, 3, 4 }, { 9, 10 }, { 10, 9 }, { 11, 12, 13 }, { 12, 11, 13 }, { 13, 12, 11 } }
                                                      : std::vector<std::vector<unsigned>>{ { 0, 1, 2, 4 }, { 1, 0 }, { 2, 1 }, { 3, 4, 5, 8 }, { 4, 3, 5 }, { 5, 3, 4 }, { 6, 7, 4 }, { 7, 6 }, { 8, 3, 4 }, { 9, 10, 8 }, { 10, 9 }, { 11, 12, 13 }, { 12, 11, 13 }, { 13, 12, 11 } };
    return p[s][rnd(static_cast<unsigned>(p[s].size()))];
}

int main(int argc, char **argv) {
    hu::Args a(argc, argv);
    rng.seed(a.seed * 7919 + KIND);
    const auto  what = a.str("what", "wire");
    const long  n    = a.num("n", 100);
    auto       *out  = std::fopen(a.out.c_str(), "w");
    hu::Current cur(a.out);
    std::string prev;
    long        threw = 0, exceptions = 0;
    for (long i = 0; i < n; ++i) {
        const unsigned s = rnd(NT);
        with(s, [&]<typename S>() {
            S o{};
            fill(o);
            const auto  sent = tree(o);
            const auto  name = hu::bytes(std::string_view(refl::shim::info<S>::name.data, refl::shim::info<S>::name.size));
            if (what == "wire") {
                const bool  meta = KIND != IS_YaS || rnd(4) != 0;
                cur.set("serialise " + sent);
                std::fprintf(out, "{\"k\":\"wire\",\"meta\":%d,\"name\":%s,\"s\":%s,\"b\":%s}\n", meta, name.c_str(), sent.c_str(), hu::bytes(written(o, meta)).c_str());
                return;
            }
            const bool  meta = KIND != IS_YaS || rnd(6) != 0;
            std::string msg  = isJson && rnd(3) ? jtext(o) : written(o, meta);
            const auto  good = msg;
            with(partner(s), [&]<typename R>() {
                R r{};
                fill(r);
                const int check = static_cast<int>(rnd(3));
                if (what == "damage") {
                    for (unsigned k = 0; k < 4; ++k) {
                        const auto bad = damaged(good, prev);
                        cur.set("damaged " + std::to_string(check) + " " + hu::bytes(bad));
                        alarm(20);
                        auto res = receive(static_cast<int>(rnd(3)), bad, r, false);
                        alarm(0);
                        if (res.find("err") != std::string::npos) ++threw;
                    }
                    prev = good;
                }
                const auto init = tree(r);
                cur.set("deserialise " + std::to_string(check) + " " + hu::bytes(good) + " into " + init);
                const auto res = receive(check, good, r);
                if (res.find("err") != std::string::npos) ++exceptions;
                const auto rname = hu::bytes(std::string_view(refl::shim::info<R>::name.data, refl::shim::info<R>::name.size));
                std::fprintf(out, "{\"k\":\"recv\",\"chk\":%d,\"meta\":%d,\"name\":%s,\"rname\":%s,\"s\":%s,\"b\":%s,\"init\":%s,\"got\":%s,%s}\n", check, meta, name.c_str(), rname.c_str(), sent.c_str(), isJson ? hu::bytes(good).c_str() : "[]", init.c_str(), tree(r).c_str(), res.c_str());
            });
        });
    }
    std::fclose(out);
    a.stat("messages", n);
    a.stat("damaged_refused", threw);
    a.stat("refused", exceptions);
    return 0;
}
