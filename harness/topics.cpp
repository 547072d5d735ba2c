// Topics, subscription matching, timing selectors and MIME types: what the real code reports for generated inputs
#include <cassert>
#include <cmath>
#include <fstream>
#include <memory>
#include <random>
#include <unordered_map>

#include <Filters.hpp>
#include <MIME.hpp>
#include <majordomo/SubscriptionMatcher.hpp>
#include <TimingCtx.hpp>
#include <Topic.hpp>

#include "hutil.hpp"
using opencmw::TimingCtx;
using opencmw::mdp::Topic;
using hu::bytes;
static std::ofstream    out;
static hu::Current     *cur;
static std::mt19937_64  g;
static int              rnd(int n) { return static_cast<int>(g() % static_cast<unsigned>(n)); }
static bool             pct(int p) { return rnd(100) < p; }
static const char      *B(bool b) { return b ? "true" : "false"; }
template<typename T>
static const T &pick(const std::vector<T> &v) { return v[static_cast<std::size_t>(rnd(static_cast<int>(v.size())))]; }

static std::string parJson(const Topic::Params &p) {
    std::string r = "[";
    for (auto &[k, v] : p) r += (r.size() > 1 ? ",[" : "[") + bytes(k) + "," + bytes(v.value_or("")) + "]";
    return r + "]";
}
static std::string topicJson(const Topic &t) {
    const auto  z = t.toZmqTopic(), zn = t.toZmqTopic(false);
    std::string back = "err", nback = "err", mback = "err", mdp, mz;
    try { back = Topic::fromZmqTopic(z) == t ? "same" : "other"; } catch (...) {}
    try { nback = Topic::fromString(zn) == t ? "same" : "other"; } catch (...) {}
    try {
        const auto m = t.toMdpTopic();
        mdp          = m.str();
        mback        = Topic::fromMdpTopic(m) == t ? "same" : "other";
        mz           = Topic::fromMdpTopic(opencmw::URI<opencmw::STRICT>(mdp)).toZmqTopic();
    } catch (...) {}
    const Topic copy = t;
    return "\"svc\":" + bytes(t.service()) + ",\"par\":" + parJson(t.params()) + ",\"z\":" + bytes(z) + ",\"zn\":" + bytes(zn) + ",\"mdp\":" + bytes(mdp) + ",\"mz\":" + bytes(mz) + ",\"back\":\"" + back + "\",\"nback\":\"" + nback + "\",\"mback\":\"" + mback + "\",\"copy\":" + B(copy == t && copy.hash() == t.hash());
}
static std::string noTopic = "\"svc\":[],\"par\":[],\"z\":[],\"zn\":[],\"mdp\":[],\"mz\":[],\"back\":\"\",\"nback\":\"\",\"mback\":\"\",\"copy\":true";

static std::string word(const char *alphabet, int n) {
    std::string s;
    for (int i = rnd(n + 1); i > 0; --i) s += alphabet[rnd(static_cast<int>(std::strlen(alphabet)))];
    return s;
}
static std::string service() {
    std::string s;
    for (int i = 1 + rnd(3); i > 0; --i) s += "/" + std::string(1, "abAZ09._"[rnd(8)]) + word("ab01._AZ", 3);
    return s;
}
static std::string key() { return pct(70) ? std::string(1, "xyzK_"[rnd(5)]) + word("ab1-~", 2) : std::string(1, "a &=;#%?/+\"\xc3"[rnd(12)]) + word("ab &=;#%?/+\xa9", 3); }
static std::string value() { return pct(50) ? std::string(1, "a1"[rnd(2)]) + word("ab12.-", 3) : std::string(1, "a &=;#%?/:\x01\xff"[rnd(12)]) + word("ab &=;#%?/+:\xc3", 4); }
static Topic::Params params() {
    Topic::Params p;
    for (int i = rnd(4); i > 0; --i) {
        const auto k = key();
        if (pct(25)) p[k] = std::nullopt;
        else p[k] = value();
    }
    return p;
}
static Topic make(const std::string &s, const Topic::Params &p) { return Topic::fromString(s, p); }

static void topics(int n) {
    // textual form
    for (int i = 0; i < n; ++i) {
        std::string s;
        if (pct(60)) {
            s = service();
            if (pct(15)) s += std::string(static_cast<std::size_t>(1 + rnd(2)), '/');
            if (pct(70)) {
                s += "?";
                for (int k = rnd(4); k > 0; --k) {
                    s += pct(60) ? std::string(1, "xyz"[rnd(3)]) : pct(50) ? opencmw::URI<>::encode(key()) : "x" + word("x%41", 3);
                    if (pct(70)) s += "=" + (pct(60) ? opencmw::URI<>::encode(value()) : "a" + word("a1%=#", 4)); // an empty value is the same as none: see the URI properties
                    if (k > 1) s += "&;"[pct(80) ? 0 : 1];
                }
            }
        } else s = (pct(70) ? "/" : "") + word("a/b.-_ :?=#%\xc3", 8);
        if (!s.empty() && s[0] != '/' && s.find('?') != std::string::npos) s = "/" + s; // relative references with a query: see the URI properties
        cur->set("topic " + bytes(s));
        std::string res = "err", body = noTopic;
        try {
            const auto t = Topic::fromString(s);
            body         = topicJson(t);
            res          = "ok";
        } catch (const std::exception &) {}
        out << "{\"k\":\"text\",\"in\":" << bytes(s) << ",\"res\":\"" << res << "\"," << body << "}\n";
    }
    // made from parts, pairs
    for (int i = 0; i < n; ++i) {
        const auto s1 = service();
        const auto p1 = params();
        auto       p2 = p1;
        auto       s2 = s1;
        switch (rnd(6)) {
        case 0: s2 = service(); break;
        case 1: p2 = params(); break;
        case 2: p2[key()] = value(); break;
        case 3:
            if (!p2.empty()) p2.erase(p2.begin());
            break;
        case 4:
            if (!p2.empty()) p2.begin()->second = pct(50) ? std::optional<std::string>{} : value();
            break;
        default: break;
        }
        cur->set("topic pair " + bytes(s1));
        const auto a = make(s1, p1), b = make(s2, p2);
        std::string opts = "[";
        auto one = [&](const Topic &t, const std::string &s, const Topic::Params &p) { return "{\"gs\":" + bytes(s) + ",\"gp\":" + parJson(p) + "," + topicJson(t) + "}"; };
        out << "{\"k\":\"pair\",\"a\":" << one(a, s1, p1) << ",\"b\":" << one(b, s2, p2) << ",\"eq\":" << B(a == b) << ",\"heq\":" << B(std::hash<Topic>{}(a) == std::hash<Topic>{}(b)) << "}\n";
    }
    for (int i = 0; i < n / 10; ++i) { // parameters given twice are refused
        const auto s = service() + "?x=1";
        Topic::Params p{ { "y", "1" } };
        std::string   res = "ok";
        try {
            (void) Topic::fromString(s, p);
        } catch (const std::invalid_argument &) { res = "err"; }
        out << "{\"k\":\"twice\",\"res\":\"" << res << "\"}\n";
    }
}
// ---------------------------------------------------------------- selectors
static std::string number() {
    switch (rnd(7)) {
    case 0: return std::to_string(rnd(3));
    case 1: return std::to_string(static_cast<long>(g() % 5000000000ull) - 2500000000l);
    case 2: return pct(50) ? "2147483647" : "-2147483648";
    case 3: return pct(50) ? "2147483648" : "-2147483649";
    case 4: return std::string(static_cast<std::size_t>(rnd(3)), '0') + std::to_string(rnd(20));
    case 5: return "ALL";
    default: return std::to_string(rnd(3));
    }
}
static std::string selector(bool good = false) {
    if (pct(8)) return pick<std::string>({ "", "ALL", "FAIR.SELECTOR.ALL", "all", "fair.selector.all" });
    std::string s = "FAIR.SELECTOR.";
    std::string tags;
    std::string order = "CSPT";
    std::shuffle(order.begin(), order.end(), g);
    const int n = 1 + rnd(4);
    for (int i = 0; i < n; ++i) tags += (i ? ":" : "") + std::string(1, order[static_cast<std::size_t>(pct(92) || good ? i : 0)]) + "=" + (good ? (pct(30) ? "ALL" : std::to_string(rnd(3) - (pct(10) ? 3 : 0))) : number());
    s += tags;
    if (!good && pct(30)) { // damage it
        const auto at = static_cast<std::size_t>(rnd(static_cast<int>(s.size())));
        switch (rnd(4)) {
        case 0: s.erase(at, 1); break;
        case 1: s.insert(at, 1, "C=: X1-+.A"[rnd(10)]); break;
        case 2: s[at] = "C=: X1-+.A"[rnd(10)]; break;
        default: s += pick<std::string>({ ":", "=", "x", " ", "1", ":C", ":C=", "=1" });
        }
    }
    if (pct(20))
        for (auto &c : s) c = static_cast<char>(pct(50) ? std::tolower(c) : c);
    return s;
}
static std::string ids(const TimingCtx &t) { return "\"c\":" + bytes(std::to_string(t.cid())) + ",\"s\":" + bytes(std::to_string(t.sid())) + ",\"p\":" + bytes(std::to_string(t.pid())) + ",\"t\":" + bytes(std::to_string(t.gid())) + ",\"str\":" + bytes(t.toString()); }
static const char *noIds = "\"c\":[],\"s\":[],\"p\":[],\"t\":[],\"str\":[]";
static void        selectors(int n) {
    for (int i = 0; i < n; ++i) {
        const auto a = selector(), b = selector();
        cur->set("selector " + bytes(a) + " then " + bytes(b));
        std::string res = "err", body = noIds;
        try {
            TimingCtx t(a);
            body = ids(t);
            res  = "ok";
        } catch (const std::invalid_argument &) {}
        // the same text assigned to an object that had another selector, looked at twice
        std::string res2[2], body2[2];
        TimingCtx   t(selector(true));
        t.selector = b;
        for (int k = 0; k < 2; ++k) {
            res2[k]  = "err";
            body2[k] = noIds;
            try {
                switch (i % 3) { // the first look throws too, whichever it is
                case 0: (void) t.cid(); break;
                case 1: (void) t.toString(); break;
                default: (void) std::hash<TimingCtx>{}(t);
                }
                body2[k] = ids(t);
                res2[k]  = "ok";
            } catch (const std::invalid_argument &) {}
        }
        out << "{\"k\":\"sel\",\"in\":" << bytes(a) << ",\"res\":\"" << res << "\"," << body << ",\"in2\":" << bytes(b);
        for (int k = 0; k < 2; ++k) out << ",\"n" << k << "\":{\"res\":\"" << res2[k] << "\"," << body2[k] << "}";
        out << "}\n";
    }
    for (const std::size_t len : { 1000u, 100000u, 4000000u }) { // as long as a topic in a message may be
        cur->set("selector with " + std::to_string(len) + " digits");
        const auto text = "FAIR.SELECTOR.C=" + std::string(len, '0') + "1";
        out << "{\"k\":\"long\",\"m\":" << B(opencmw::TimingCtxFilter{}(text, "FAIR.SELECTOR.C=1")) << ",\"n\":" << B(opencmw::TimingCtxFilter{}(text + ":", "FAIR.SELECTOR.C=1")) << "}\n";
    }
    for (int i = 0; i < n; ++i) {
        const auto a = selector(true), b = pct(15) ? a : selector(true);
        const int  ta = rnd(3), tb = rnd(3);
        auto       mk = [&](const std::string &s, int ts) {
            if (pct(50)) return TimingCtx(s, std::chrono::microseconds(ts));
            TimingCtx t(selector(true), std::chrono::microseconds(ts)); // the selector is set later, e.g. by deserialising
            t.selector = s;
            return t;
        };
        const auto x = mk(a, ta), y = mk(b, tb);
        cur->set("selectors " + bytes(a) + " and " + bytes(b));
        const bool m = mk(a, ta).matches(mk(b, tb)), mb = mk(a, ta).matchesWithBpcts(mk(b, tb)), eq = mk(a, ta) == mk(b, tb), lt = mk(a, ta) < mk(b, tb), gt = mk(a, ta) > mk(b, tb);
        const bool rt = TimingCtx(TimingCtx(x.cid(), x.sid(), x.pid(), x.gid(), std::chrono::microseconds(ta)).selector.value(), std::chrono::microseconds(ta)) == x && TimingCtx(x.toString(), std::chrono::microseconds(ta)) == x;
        out << "{\"k\":\"selpair\",\"a\":" << bytes(a) << ",\"b\":" << bytes(b) << ",\"ta\":" << ta << ",\"tb\":" << tb << ",\"m\":" << B(m) << ",\"mb\":" << B(mb) << ",\"eq\":" << B(eq) << ",\"lt\":" << B(lt) << ",\"gt\":" << B(gt) << ",\"heq\":" << B(std::hash<TimingCtx>{}(x) == std::hash<TimingCtx>{}(y)) << ",\"rt\":" << B(rt) << "}\n";
    }
}
// ---------------------------------------------------------------- matching
static std::string fvalue(const std::string &kind) {
    if (kind == "str") return pct(70) ? std::string(1, "ab1"[rnd(3)]) : value();
    if (kind == "time") return selector(pct(85));
    if (kind == "dbl") {
        auto s = pick<std::string>({ "0", "1", "1.0", "1.00", "10", "0.5", ".5", "-0.5", "-1", "01", "1.", "5e-1", "x", "", "1x", " 1", "+1", "1.5", "1.50", "-0", "0.0" });
        return s;
    }
    switch (rnd(8)) {
    case 0: return pick<std::string>({ "32767", "32768", "-32768", "-32769", "65536", "99999999999999999999", "-99999999999999999999" });
    case 1: return pick<std::string>({ "", "x", "1x", " 1", "+1", "0x1", "-", "--1", "1.0", "-0", "00", "007" });
    default: return std::to_string(rnd(4) - 1);
    }
}
static void matching(int n) {
    const std::vector<std::string> kinds{ "str", "int", "i16", "time", "dbl" };
    for (int i = 0; i < n; ++i) {
        opencmw::majordomo::SubscriptionMatcher      m;
        std::vector<std::pair<std::string, std::string>> filters;
        std::vector<std::string>                     keys{ "x", "y", "ctx", "n" };
        std::map<std::string, std::string>           kindOf;
        for (auto &k : keys) {
            kindOf[k] = "str";
            if (pct(70)) {
                const auto kd = pick(kinds);
                kindOf[k]     = kd;
                filters.emplace_back(k, kd);
                if (kd == "str") m.addFilter<opencmw::ContentTypeFilter>(k);
                else if (kd == "int") m.addFilter<opencmw::NumberFilter<int>>(k);
                else if (kd == "i16") m.addFilter<opencmw::NumberFilter<std::int16_t>>(k);
                else if (kd == "dbl") m.addFilter<opencmw::NumberFilter<double>>(k);
                else m.addFilter<opencmw::TimingCtxFilter>(k);
            }
        }
        Topic::Params pn, ps;
        for (auto &k : keys) {
            if (pct(40)) ps[k] = pct(90) ? std::optional(fvalue(kindOf[k])) : std::nullopt;
            if (pct(65)) pn[k] = pct(35) && ps.count(k) ? ps[k] : pct(90) ? std::optional(fvalue(kindOf[k])) : std::nullopt;
        }
        const std::vector<std::string> svcs{ "/svc", "/svc/a", "/svca", "/SVC" };
        const auto sn = pct(90) ? svcs[0] : pick(svcs), ss = pct(90) ? svcs[0] : pick(svcs);
        cur->set("match " + parJson(pn) + " " + parJson(ps));
        const bool r = m(Topic::fromString(sn, pn), Topic::fromString(ss, ps));
        out << "{\"k\":\"match\",\"filt\":[";
        for (std::size_t k = 0; k < filters.size(); ++k) out << (k ? ",[" : "[") << bytes(filters[k].first) << ",\"" << filters[k].second << "\"]";
        out << "],\"ns\":" << bytes(sn) << ",\"np\":" << parJson(pn) << ",\"ss\":" << bytes(ss) << ",\"sp\":" << parJson(ps) << ",\"m\":" << B(r) << "}\n";
    }
}
// ---------------------------------------------------------------- MIME types
static void mime(int n) {
    namespace MIME = opencmw::MIME;
    std::vector<std::string> names, exts{ "" };
    out << "{\"k\":\"table\",\"tab\":[";
    bool first = true;
    for (auto &t : MIME::ALL) {
        out << (first ? "" : ",") << "{\"n\":" << bytes(t.typeName()) << ",\"e\":[";
        first = false;
        for (std::size_t i = 0; i < t.fileExtensions().size(); ++i) out << (i ? "," : "") << bytes(t.fileExtensions()[i]), exts.emplace_back(t.fileExtensions()[i]);
        out << "]}";
        names.emplace_back(t.typeName());
    }
    out << "]}\n";
    auto shuffleCase = [](std::string s) {
        for (auto &c : s) c = static_cast<char>(pct(50) ? std::toupper(c) : c);
        return s;
    };
    for (int i = 0; i < n; ++i) {
        std::string s;
        if (i < static_cast<int>(names.size())) s = names[static_cast<std::size_t>(i)];
        else {
            for (int k = rnd(3); k >= 0; --k) {
                auto w = pct(80) ? pick(names) : word("text/plain*;=q0. ", 12);
                if (pct(10) && !w.empty()) w.erase(static_cast<std::size_t>(rnd(static_cast<int>(w.size()))), 1);
                s += (s.empty() ? "" : ",") + (pct(30) ? shuffleCase(w) : w) + (pct(20) ? ";q=0.5" : "");
            }
        }
        std::string f = i < static_cast<int>(exts.size()) ? "f" + exts[static_cast<std::size_t>(i)] : word("ab./", 6) + (pct(30) ? shuffleCase(pick(exts)) : pick(exts)) + (pct(10) ? "x" : "");
        if (pct(3)) f = pick(exts);
        cur->set("mime " + bytes(s) + " " + bytes(f));
        out << "{\"k\":\"mime\",\"in\":" << bytes(s) << ",\"got\":" << bytes(MIME::getType(s).typeName()) << ",\"f\":" << bytes(f) << ",\"fgot\":" << bytes(MIME::getTypeByFileName(f).typeName()) << "}\n";
    }
}
int main(int argc, char **argv) {
    hu::Args a(argc, argv);
    out.open(a.out);
    hu::Current c(a.out);
    cur             = &c;
    const auto what = a.str("what", "topics");
    g.seed(a.seed * 7919 + std::hash<std::string>{}(what));
    const int n = static_cast<int>(a.num("n", 1500));
    if (what == "topics") topics(n);
    else if (what == "sel") selectors(n);
    else if (what == "match") matching(n);
    else mime(n);
}
