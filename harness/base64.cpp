#include <random>
#include <functional>
#include <majordomo/base64pp.hpp>
#include "hutil.hpp"
static std::FILE *out;
static hu::Current *cur;
static long n = 0;
static std::string toBytes(const std::vector<std::uint8_t> &v) { return hu::bytes(std::string_view(reinterpret_cast<const char *>(v.data()), v.size())); }
static void enc(const std::string &s) {
    cur->set("encode " + hu::bytes(s));
    // exact-size heap copies: reads outside the input are caught by the sanitizer
    std::vector<std::uint8_t> in(s.begin(), s.end());
    in.shrink_to_fit();
    const auto e = base64pp::encode(std::span<const std::uint8_t>(in.data(), in.size()));
    const auto d = base64pp::decode(e);
    std::fprintf(out, "{\"k\":\"enc\",\"in\":%s,\"out\":%s,\"ok\":%d,\"back\":%s}\n", hu::bytes(s).c_str(), hu::bytes(e).c_str(), d ? 1 : 0, d ? toBytes(*d).c_str() : "[]");
    ++n;
}
static void dec(const std::string &s) {
    cur->set("decode " + hu::bytes(s));
    std::vector<char> in(s.begin(), s.end());
    in.shrink_to_fit();
    const auto d = base64pp::decode(std::string_view(in.data(), in.size()));
    std::fprintf(out, "{\"k\":\"dec\",\"in\":%s,\"out\":%s,\"ok\":%d}\n", hu::bytes(s).c_str(), d ? toBytes(*d).c_str() : "[]", d ? 1 : 0);
    ++n;
}
int main(int argc, char **argv) {
    hu::Args a(argc, argv);
    out = std::fopen(a.out.c_str(), "w");
    hu::Current c(a.out);
    cur             = &c;
    auto       rng  = std::mt19937_64(a.seed * 31 + 5);
    const bool deep = a.thorough;
    const auto rnd  = [&](int len) { std::string s; for (int i = 0; i < len; ++i) s += static_cast<char>(rng() % 256); return s; };
    const std::string alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    const auto        valid = [&](int quads, int pads) { std::string s; for (int i = 0; i < quads * 4; ++i) s += alpha[rng() % 64]; for (int i = 0; i < pads && quads; ++i) s[s.size() - 1 - i] = '='; return s; };
    if (a.str("what", "enc") == "enc") {
        enc("");
        for (int x = 0; x < 256; ++x) {
            enc(std::string(1, static_cast<char>(x)));
            for (int pos = 0; pos < 6; ++pos) // every byte value at every position of groups and tails
                for (int len = pos + 1; len <= 6; ++len) {
                    auto s = rnd(len);
                    s[pos] = static_cast<char>(x);
                    enc(s);
                }
        }
        for (int x = 0; x < (deep ? 65536 : 4096); ++x) enc(deep ? std::string{ static_cast<char>(x >> 8), static_cast<char>(x) } : rnd(2));
        for (int i = 0; i < (deep ? 30000 : 3000); ++i) enc(rnd(static_cast<int>(rng() % 40)));
        for (int len = 40; len < (deep ? 1200 : 300); len += 7) enc(rnd(len));
    } else {
        dec("");
        for (int len = 1; len < 20; ++len) for (int k = 0; k < 12; ++k) { // all lengths, padded at all places
            std::string s = valid((len + 3) / 4, 0).substr(0, len);
            dec(s);
            if (k < 4) for (int p = 0; p < len; ++p) { auto t = s; t[p] = '='; dec(t); if (p + 1 < len) { t[p + 1] = '='; dec(t); } }
        }
        for (int x = 0; x < 256; ++x) // every byte value at every position of one- and two-group texts
            for (int quads = 1; quads <= 2; ++quads)
                for (int pads = 0; pads < 3; ++pads)
                    for (int p = 0; p < quads * 4; ++p) {
                        auto s = valid(quads, pads);
                        s[p]   = static_cast<char>(x);
                        dec(s);
                    }
        for (int k = 0; k < 81 * 3; ++k) { // all placements of padding in one group
            std::string s(4, 'A'); int z = k % 81;
            for (auto &ch : s) { ch = "=A/"[z % 3]; z /= 3; }
            dec(k / 81 ? valid(k / 81, 0) + s : s);
        }
        for (int i = 0; i < (deep ? 60000 : 6000); ++i) dec(i % 2 ? valid(1 + static_cast<int>(rng() % 8), static_cast<int>(rng() % 4)) : rnd(static_cast<int>(rng() % 13)));
    }
    std::fclose(out);
    a.stat("records", n);
    return 0;
}
