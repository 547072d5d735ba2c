// Histories of operations on three IoBuffers (copied, moved, swapped, grown, shrunk, read) and what they hold after each step;
// MultiArray index arithmetic; query parameters.
#include <cmath>
#include <cstring>
#include <format>
#include <functional>
#include <iostream>
#include <memory>
#include <optional>
#include <random>
#include <unordered_map>
#include <memory_resource>
#include <IoBuffer.hpp>
#include <MultiArray.hpp>
#include "hutil.hpp"
using namespace opencmw;
std::mt19937_64 rng;
unsigned        rnd(unsigned n) { return static_cast<unsigned>(rng() % n); }
std::string     out;
// every allocation has to be returned to the resource it came from, with its size
struct Strict : std::pmr::memory_resource {
    std::map<void *, std::size_t> live;
    bool                          wrong = false;
    void                         *do_allocate(std::size_t n, std::size_t) override {
        void *p = std::malloc(n ? n : 1);
        live[p] = n;
        return p;
    }
    void do_deallocate(void *p, std::size_t n, std::size_t) override {
        auto it = live.find(p);
        if (it == live.end() || it->second != n) {
            wrong = true;
            return;
        }
        live.erase(it);
        std::free(p);
    }
    bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
std::string state(const IoBuffer &b) {
    const bool sane = b.capacity() >= b.size() && b.empty() == (b.size() == 0) && (b.size() == 0 || b.data() != nullptr);
    return "[" + std::to_string(sane) + "," + std::to_string(b.position()) + "," + hu::bytes(std::string_view(reinterpret_cast<const char *>(b.data()), b.size())) + "]";
}
template<typename T>
std::string raw(const T &x) {
    if constexpr (std::is_same_v<T, std::string>) return hu::bytes(x);
    else {
        char c[sizeof(T)];
        std::memcpy(c, &x, sizeof c);
        return hu::bytes(std::string_view(c, sizeof c));
    }
}
template<typename T>
T some() {
    if constexpr (std::is_same_v<T, std::string>) {
        std::string s;
        for (unsigned i = 0, n = rnd(4) ? rnd(6) : rnd(60); i < n; ++i) s += static_cast<char>(rnd(256));
        return s;
    } else if constexpr (std::is_same_v<T, bool>) return rnd(2) == 0;
    else {
        T x;
        do {
            auto u = rng();
            std::memcpy(&x, &u, sizeof x);
            if constexpr (!std::is_floating_point_v<T>) break;
        } while (x != x);
        return x;
    }
}
template<typename T>
std::string rawAll(const std::vector<T> &v) {
    std::string r = "[";
    for (std::size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + raw(static_cast<T>(v[i]));
    return r + "]";
}
template<typename F>
void typed(unsigned k, F f) {
    switch (k) {
    case 0: return f.template operator()<bool>();
    case 1: return f.template operator()<int8_t>();
    case 2: return f.template operator()<int16_t>();
    case 3: return f.template operator()<int32_t>();
    case 4: return f.template operator()<int64_t>();
    case 5: return f.template operator()<float>();
    case 6: return f.template operator()<double>();
    default: return f.template operator()<std::string>();
    }
}
template<typename T>
int width() {
    if constexpr (std::is_same_v<T, std::string>) return 0;
    else return static_cast<int>(sizeof(T));
}
void history(FILE *f, hu::Current &cur, unsigned steps) {
    Strict strict1, strict2;
    bool   clean = true;
    {
        std::vector<IoBuffer> b;
        b.reserve(3);
        for (int i = 0; i < 3; ++i) {
            switch (rnd(4)) {
            case 0: b.emplace_back(); break;
            case 1: b.emplace_back(rnd(20)); break;
            case 2: b.emplace_back(rnd(20), &strict1); break;
            default: b.emplace_back(rnd(20), &strict2); break;
            }
        }
        std::string ops;
        for (unsigned s = 0; s < steps; ++s) {
            const unsigned x = rnd(3), y = rnd(3);
            auto          &B = b[x];
            std::string    op, res = "[]";
            auto           attempt = [&](auto g) {
                try {
                    res = "[" + g() + "]";
                } catch (const std::exception &) {
                    res = "[\"err\"]";
                    B.reset();
                }
            };
            const unsigned what = rnd(21);
            const unsigned ty   = rnd(8);
            cur.set("[" + ops + "] then " + std::to_string(what) + " type " + std::to_string(ty) + " on " + std::to_string(x) + "," + std::to_string(y));
            switch (what) {
            case 0: case 1: case 2:
                typed(ty, [&]<typename T>() {
                    auto v = some<T>();
                    op     = "\"putn\",[" + std::to_string(width<T>()) + "," + raw(v) + "]";
                    B.put(v);
                });
                break;
            case 3: {
                auto v = some<std::string>();
                op     = "\"raw\"," + hu::bytes(v);
                B.put<IoBuffer::MetaInfo::WITHOUT>(v);
                break;
            }
            case 4: case 5:
                typed(ty, [&]<typename T>() {
                    std::vector<T> v(rnd(6));
                    for (std::size_t i = 0; i < v.size(); ++i) v[i] = some<T>();
                    op = "\"putv\",[" + std::to_string(width<T>()) + "," + rawAll(v) + "]";
                    B.put(v);
                });
                break;
            case 6: case 7: case 8:
                typed(ty, [&]<typename T>() {
                    if constexpr (!std::is_same_v<T, bool>) {
                        op = "\"getn\"," + std::to_string(width<T>());
                        attempt([&] { return raw(B.get<T>()); });
                    } else {
                        op = "\"getn\",1";
                        attempt([&] { return raw(B.get<uint8_t>()); });
                    }
                });
                break;
            case 9: case 10:
                typed(ty ? ty : 1, [&]<typename T>() {
                    const unsigned lim = rnd(3) ? 99 : rnd(4);
                    op = "\"getv\",[" + std::to_string(width<T>()) + "," + std::to_string(lim) + "]";
                    attempt([&] {
                        std::vector<T> v(rnd(3));
                        if (lim == 99) B.getArray(v);
                        else B.getArray(v, lim);
                        return rawAll(v);
                    });
                });
                break;
            case 11: {
                const int n = static_cast<int>(rnd(12)) - 4;
                op          = "\"skip\"," + std::to_string(n);
                attempt([&] { B.skip(n); return std::string("1"); });
                break;
            }
            case 12: {
                const auto p = B.size() ? rnd(static_cast<unsigned>(B.size()) + 1) : 0;
                op           = "\"pos\"," + std::to_string(p);
                B.set_position(p);
                break;
            }
            case 13:
                if (rnd(2)) {
                    op = "\"pos\",0";
                    B.reset();
                } else {
                    op = "\"clear\",0";
                    B.clear();
                }
                break;
            case 14: {
                const auto old = B.size();
                const auto n   = rnd(40);
                op             = "\"resize\"," + std::to_string(n);
                B.resize(n);
                for (auto i = old; i < n; ++i) B[i] = 170;
                break;
            }
            case 15:
                op = "\"same\",0";
                if (rnd(2)) B.reserve(rnd(100)); // N.B. a smaller capacity than before never drops data
                else B.reserve_spare(rnd(50));
                break;
            case 16:
                op = "\"same\",0";
                B.shrink_to_fit();
                break;
            case 17:
                op = "\"copy\"," + std::to_string(y);
                if (rnd(2)) B = b[y];
                else {
                    IoBuffer c(b[y]);
                    B.swap(c);
                }
                break;
            case 18:
                op = "\"move\"," + std::to_string(y);
                if (rnd(2) || x == y) B = std::move(b[y]);
                else {
                    IoBuffer c(std::move(b[y]));
                    B.swap(c);
                }
                break;
            case 19:
                op = "\"swap\"," + std::to_string(y);
                B.swap(b[y]);
                break;
            default: {
                const auto i = rnd(static_cast<unsigned>(B.size()) + 6);
                if (rnd(2)) {
                    op = "\"at\"," + std::to_string(i);
                    try {
                        int32_t v;
                        std::memcpy(&v, &B.at<int32_t>(i), 4);
                        res = "[" + raw(v) + "]";
                    } catch (const std::exception &) {
                        res = "[\"err\"]";
                    }
                } else {
                    const int n = static_cast<int>(rnd(8)) - 1;
                    op          = "\"str\",[" + std::to_string(i) + "," + std::to_string(n) + "]";
                    try {
                        res = "[" + hu::bytes(std::as_const(B).asString(i, n)) + "]";
                    } catch (const std::exception &) {
                        res = "[\"err\"]";
                    }
                }
            }
            }
            ops += std::string(s ? "," : "") + "[" + std::to_string(x) + "," + op + "," + res + ",[" + state(b[0]) + "," + state(b[1]) + "," + state(b[2]) + "]]";
        }
        std::fprintf(f, "{\"k\":\"buf\",\"ops\":[%s]", ops.c_str());
    }
    clean = strict1.live.empty() && strict2.live.empty() && !strict1.wrong && !strict2.wrong;
    std::fprintf(f, ",\"clean\":%d}\n", clean);
}
template<uint32_t N>
void arrays(FILE *f) {
    std::array<uint32_t, N> dims;
    std::string             d, all;
    for (uint32_t i = 0; i < N; ++i) {
        dims[i] = 1 + rnd(4);
        d += (i ? "," : "") + std::to_string(dims[i]);
    }
    MultiArray<int32_t, N> m(dims);
    MultiArray<int32_t, N> c(std::vector<int32_t>(m.elements()), std::array<uint32_t, N>(dims));
    const auto             ref = m.elements();
    MultiArray<int32_t, N> e(ref, dims);
    bool                   same = m.element_count() == c.element_count() && e.element_count() == m.element_count() && m.elements().size() == m.element_count();
    std::array<uint32_t, N> at{};
    int                     k = 0;
    while (true) { // write every element through its indices, read it back linearly
        m[at] = 1000 + k;
        c[at] = m[at];
        e.get(at) = m.get(at);
        const auto idx  = m.index(at);
        const auto back = m.indices(idx);
        std::string a, g;
        for (uint32_t i = 0; i < N; ++i) {
            a += (i ? "," : "") + std::to_string(at[i]);
            g += (i ? "," : "") + std::to_string(back[i]);
        }
        all += std::string(k ? "," : "") + "[[" + a + "]," + std::to_string(idx) + ",[" + g + "]," + std::to_string(m[idx]) + "]";
        ++k;
        uint32_t i = 0;
        while (i < N && ++at[i] == dims[i]) at[i++] = 0;
        if (i == N) break;
    }
    same = same && m == c && m == e;
    auto sum = m + c;
    auto inc = m;
    inc += 5;
    auto more = m + 7;
    inc += m;
    bool arith = true;
    for (uint32_t i = 0; i < m.element_count(); ++i) arith = arith && sum[i] == 2 * m[i] && inc[i] == 2 * m[i] + 5 && more[i] == m[i] + 7;
    bool neq = true;
    if (m.element_count() > 0) {
        auto o = m;
        o[rnd(m.element_count())] -= 1;
        neq = !(o == m);
    }
    std::fprintf(f, "{\"k\":\"array\",\"d\":[%s],\"n\":%u,\"same\":%d,\"arith\":%d,\"neq\":%d,\"all\":[%s]}\n", d.c_str(), m.element_count(), same, arith, neq, all.c_str());
}
int main(int argc, char **argv) {
    hu::Args a(argc, argv);
    rng.seed(a.seed * 104729 + 3);
    const long  n = a.num("n", 100);
    auto       *f = std::fopen(a.out.c_str(), "w");
    hu::Current cur(a.out);
    const auto  what = a.str("what", "buf");
    for (long i = 0; i < n; ++i) {
        if (what == "buf") history(f, cur, 3 + rnd(static_cast<unsigned>(a.num("steps", 25))));
        else switch (rnd(4)) {
            case 0: arrays<1>(f); break;
            case 1: arrays<2>(f); break;
            case 2: arrays<3>(f); break;
            default: arrays<4>(f); break;
            }
    }
    std::fclose(f);
    a.stat("histories", n);
    return 0;
}
