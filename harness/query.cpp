// Request contexts and query parameters: what the real QuerySerialiser writes and reads
#include <cassert>
#include <cmath>
#include <cstring>
#include <format>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <optional>
#include <random>
#include <unordered_map>

#include <opencmw.hpp>
#include <MIME.hpp>
#include <TimingCtx.hpp>
#include <Topic.hpp>
#include <URI.hpp>
#include <QuerySerialiser.hpp>

#include "hutil.hpp"
using hu::bytes;
using opencmw::TimingCtx;
namespace query = opencmw::query;
namespace MIME  = opencmw::MIME;
using opencmw::MIME::MimeType;
struct Query {
    std::string                                     name = "dflt";
    bool                                            flag = false;
    TimingCtx                                       ctx  = TimingCtx(3);
    bool                                            on   = true;
    int                                             n    = -7;
    std::int16_t                                    s    = 5;
    std::int64_t                                    l    = 1234567890123;
    std::uint8_t                                    u    = 200;
    double                                          d    = 2.5;
    float                                           f    = -0.25f;
    MimeType                                        ct   = MIME::HTML;
    MimeType                                        ct2  = MIME::JSON;
    std::string                                     empty;
};
ENABLE_REFLECTION_FOR(Query, name, flag, ctx, on, n, s, l, u, d, f, ct, ct2, empty)
struct NoMime {
    int x = 0;
};
ENABLE_REFLECTION_FOR(NoMime, x)

static std::mt19937_64 g;
static int             rnd(int n) { return static_cast<int>(g() % static_cast<unsigned>(n)); }
static bool            pct(int p) { return rnd(100) < p; }
template<typename T>
static const T &pick(const std::vector<T> &v) { return v[static_cast<std::size_t>(rnd(static_cast<int>(v.size())))]; }
static std::string field(const char *n, const char *k, std::string_view t) { return std::string("[") + bytes(n) + ",\"" + k + "\"," + bytes(t) + "]"; }
static std::string num(auto v) {
    char buf[64];
    auto r = std::to_chars(buf, buf + sizeof(buf), v);
    return std::string(buf, r.ptr);
}
static std::string fields(const Query &q) {
    auto b = [](bool v) { return v ? "true" : "false"; };
    return "[" + field("name", "str", q.name) + "," + field("flag", "bool", b(q.flag)) + "," + field("ctx", "time", q.ctx.toString()) + "," + field("on", "bool", b(q.on)) + "," + field("n", "i32", num(q.n)) + "," + field("s", "i16", num(q.s)) + "," + field("l", "i64", num(q.l)) + "," + field("u", "u8", num(static_cast<int>(q.u))) + "," + field("d", "num", num(q.d)) + "," + field("f", "num", num(q.f)) + "," + field("ct", "mime", q.ct.typeName()) + "," + field("ct2", "mime", q.ct2.typeName()) + "," + field("empty", "str", q.empty) + "]";
}
template<typename M>
static std::string mapJson(const M &m) {
    std::string r = "[";
    for (auto &[k, v] : m) r += std::string(r.size() > 1 ? ",[" : "[") + bytes(k) + "," + hu::opt(v) + "]";
    return r + "]";
}
static std::string text() {
    std::string s;
    for (int i = rnd(7); i > 0; --i) s += "ab01 &=;#%?/+\"\x01\xc3\xa9"[rnd(18)];
    return s;
}
static std::string selector() {
    switch (rnd(10)) {
    case 0: return "ALL";
    case 1: return "";
    case 2: return pick<std::string>({ "FAIR.SELECTOR.X=1", "FAIR.SELECTOR.C=", "nonsense", "FAIR.SELECTOR.C=1:", "FAIR.SELECTOR.C=99999999999", "fair.selector.c=1x" });
    default: return "FAIR.SELECTOR.C=" + std::to_string(rnd(5) - 1) + (pct(50) ? ":S=" + std::to_string(rnd(100)) : "") + (pct(30) ? ":P=ALL" : "") + (pct(40) ? ":t=7" : "");
    }
}
static std::string integer() {
    static const std::vector<std::string> sp{ "127", "128", "255", "256", "-1", "-0", "0", "007", "32767", "32768", "-32768", "-32769", "2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999999", "", "x", "1x", " 1", "+1", "0x1", "-", "--1", "1.0", "1e3" };
    return pct(60) ? pick(sp) : std::to_string(static_cast<std::int64_t>(g()) >> rnd(64));
}
static std::string decimal() {
    static const std::vector<std::string> sp{ "0", "-0", "1", "1.0", "0.1", ".5", "5.", "1e3", "1e+3", "1E-3", "-2.5e-7", "", "x", "1x", " 1", "+1", "--1", "1e", "e5", ".", "-" };
    return pct(50) ? pick(sp) : (pct(50) ? "-" : "") + std::to_string(rnd(1000)) + "." + std::to_string(rnd(1000));
}
static std::string mime() { return pct(60) ? std::string(pick(std::vector<MimeType>(MIME::ALL.begin(), MIME::ALL.end())).typeName()) : pick<std::string>({ "", "text", "TEXT/HTML", "application/json; charset=utf-8", "text/html,application/json", "nonsense/x" }); }

int main(int argc, char **argv) {
    hu::Args a(argc, argv);
    g.seed(a.seed * 6151 + 5);
    std::ofstream out(a.out);
    hu::Current   cur(a.out);
    const long    n = a.num("n", 100);
    out << "{\"k\":\"table\",\"tab\":[";
    bool first = true;
    for (auto &t : MIME::ALL) {
        out << (first ? "" : ",") << "{\"n\":" << bytes(t.typeName()) << ",\"e\":[]}";
        first = false;
    }
    out << "]}\n";
    const auto none = query::getMimeType(NoMime{}) == MIME::UNKNOWN;
    for (long i = 0; i < n; ++i) {
        if (i % 2) { // parameters of any kind
            query::QueryMap m;
            auto            put = [&](const char *k, const std::string &v) {
                if (pct(65)) m[k] = pct(88) ? std::optional(v) : std::nullopt;
            };
            put("name", text());
            put("empty", text());
            put("flag", pick<std::string>({ "true", "false", "", "1", "TRUE", "yes" }));
            put("on", pick<std::string>({ "true", "false", "", "0", "False" }));
            for (auto k : { "n", "s", "l", "u" }) put(k, integer());
            put("d", decimal());
            put("f", decimal());
            put("ct", mime());
            put("ct2", mime());
            put("ctx", selector());
            put("unknown", text());
            cur.set("read " + mapJson(m));
            const auto got = query::deserialise<Query>(m);
            out << "{\"k\":\"read\",\"map\":" << mapJson(m) << ",\"dflt\":" << fields(Query{}) << ",\"got\":" << fields(got) << ",\"mime\":" << bytes(query::getMimeType(got).typeName()) << ",\"none\":" << none << "}\n";
        } else {
            Query q;
            q.name  = text();
            q.empty = text();
            q.flag  = pct(50);
            q.on    = pct(50);
            q.ctx   = TimingCtx(rnd(4) - 1, rnd(4) - 1, pct(20) ? 2147483647 : rnd(4) - 1, rnd(4) - 1);
            if (pct(20)) q.ctx.selector = pick<std::string>({ "fair.selector.s=3:c=1", "ALL", "", "FAIR.SELECTOR.P=0:P=4" });
            q.n = static_cast<int>(g()) >> rnd(31);
            q.s = static_cast<std::int16_t>(g());
            q.l = static_cast<std::int64_t>(g()) >> rnd(63);
            q.u = static_cast<std::uint8_t>(g());
            static const double sp[] = { 0, 1, -1, 0.1, 1e-12, 1e20, 123456.789012345, 1. / 3, 5e-324, 1.7976931348623157e308, 1e-300, 16777217, 0.30000000000000004 };
            q.d = pct(60) ? sp[rnd(13)] : std::ldexp(static_cast<double>(g() % 1000003), rnd(100) - 60);
            q.f = pct(60) ? static_cast<float>(sp[rnd(9)]) : std::ldexp(static_cast<float>(g() % 1000003), rnd(60) - 40);
            q.f = std::isfinite(q.f) ? q.f : 1.f;
            q.ct  = MIME::ALL[static_cast<std::size_t>(rnd(static_cast<int>(MIME::ALL.size())))];
            q.ct2 = MIME::ALL[static_cast<std::size_t>(rnd(static_cast<int>(MIME::ALL.size())))];
            cur.set("write " + fields(q));
            const auto m = query::serialise(q);
            // the way of a request: parameters in the text of a URI and of a topic
            const auto uri   = opencmw::URI<opencmw::RELAXED>::factory().scheme("mdp").authority("host:1").path("/svc").setQuery(m).build();
            const auto got   = query::deserialise<Query>(m);
            const auto viaU  = query::deserialise<Query>(opencmw::URI<opencmw::RELAXED>(uri.str()).queryParamMap());
            const auto viaT  = query::deserialise<Query>(opencmw::mdp::Topic::fromZmqTopic(opencmw::mdp::Topic::fromString("/svc", opencmw::mdp::Topic::Params(m.begin(), m.end())).toZmqTopic()).params());
            auto       strip = [&](Query x) { // N.B. an empty text is the same as no value in a topic: the member keeps its default
                if (q.name.empty()) x.name = "";
                return fields(x);
            };
            const bool back = strip(viaU) == strip(got) && strip(viaT) == strip(got);
            out << "{\"k\":\"write\",\"val\":" << fields(q) << ",\"map\":" << mapJson(m) << ",\"dflt\":" << fields(Query{}) << ",\"got\":" << fields(got) << ",\"mime\":" << bytes(query::getMimeType(got).typeName()) << ",\"back\":" << back << "}\n";
        }
    }
    out.close();
    a.stat("contexts", n);
    return 0;
}
