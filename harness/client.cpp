// C01, C02, C03: the real ClientContext and MDClientCtx under the deterministic scheduler; the harness plays the brokers
#define VS_AFTER_OPENCMW
#include "vsched.hpp"
#include "hutil.hpp"
#include <cassert>
#include <cmath>
#include <cstring>
#include <format>
#include <functional>
#include <iostream>
#include <list>
#include <memory>
#include <optional>
#include <print>
#include <random>
#include <unordered_map>
#include <zmq.h>
#include <opencmw.hpp>
#include <Client.hpp>
using vs::logf;
namespace cl = opencmw::client;
using U      = opencmw::URI<opencmw::STRICT>;

namespace {
int         token;
std::string js(std::string_view s) {
    std::string r = "\"";
    char        b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') r += '\\', r += static_cast<char>(c);
        else if (c < 32 || c > 126) std::snprintf(b, sizeof b, "<%02x>", c), r += b;
        else r += static_cast<char>(c);
    }
    return r + "\"";
}
void         log(const std::string &e) { vs::S().log.push_back(e); }
std::int64_t ms() { return vs::S().vtime / 1'000'000; }
void         nap(std::int64_t d) { vs::S().sleepUntil(vs::S().vtime + d * 1'000'000); }
std::string  content(std::string_view r, std::string_view t, std::string_view d, std::string_view e, std::string_view b) {
    return "{\"r\":" + js(r) + ",\"t\":" + js(t) + ",\"d\":" + js(d) + ",\"e\":" + js(e) + ",\"b\":" + js(b) + "}";
}
std::string content(const opencmw::mdp::Message &m) { return content(m.clientRequestID.asString(), m.topic.str(), m.data.asString(), m.error, m.rbac.asString()); }

struct Plan {
    std::uint64_t seed;
    int           threads, each, mode; // mode 0 requests, 1 subscriptions, 2 both, 3 stop at any time
    int           timeoutMs;
    std::size_t   pubs, topics, first; // what is subscribed to
};
struct Broker {
    std::string  host;
    fz::Sock    *sock;
    bool         pub;
};
const std::vector<std::string> kRouters{ "h1:1001", "local", "h2:77" }, kPubs{ "h1:1002", "news" };
const std::vector<std::string> kTopics{ "/svc", "/svc?a=1", "/svc?a=1&b", "/svc/sub", "/other?ctx=FAIR.SELECTOR.C=1" };
const std::vector<std::string> kSpell{ "/svc", "/svc?a=1", "/svc?b&a=1", "/svc/sub", "/other?ctx=FAIR.SELECTOR.C%3D1" };
std::string zmqTopic(std::size_t i) { return i == 4 ? "/other?ctx=FAIR.SELECTOR.C%3D1#" : kTopics[i] + "#"; }

void program(const Plan &p) {
    std::mt19937_64 g(p.seed);
    auto            r = [&](unsigned n) { return static_cast<unsigned>(g() % n); };
    auto           &h = fz::hooks();
    h                 = {};
    opencmw::zmq::Context ctx;
    h.point   = [] { vs::S().point(); };
    h.who     = [] { return static_cast<const void *>(vs::S().cur); };
    h.misuse  = [&](const char *w) { log(std::string("{\"e\":\"misuse\",\"why\":") + js(w) + "}"); };
    h.touched = [] { vs::S().wake(&token); };
    int conns  = 0;
    h.identity = [&](fz::Sock &) { return "c" + std::to_string(++conns); };
    std::vector<Broker> brokers;
    auto                open = [&](const std::string &host, bool pub) {
        auto *s = static_cast<fz::Sock *>(zmq_socket(ctx.zmq_ptr, pub ? ZMQ_XPUB : ZMQ_ROUTER));
        zmq_bind(s, ((host.find(':') != std::string::npos ? "tcp://" : "inproc://") + host).c_str());
        brokers.push_back({ host, s, pub });
    };
    for (auto &x : kRouters) open(x, false);
    for (auto &x : kPubs) open(x, true);
    auto hostOf = [&](fz::Sock &s) -> std::string {
        for (auto &b : brokers)
            for (auto *q : s.peers)
                if (b.sock == q) return b.host;
        return "?";
    };
    struct Req { // what arrived at a broker
        std::size_t broker;
        fz::Frames  f;
    };
    std::vector<Req> reqs;
    h.send = [&](fz::Sock &s, const fz::Frames &f) {
        if (s.type != ZMQ_DEALER) return;
        if (f.size() != 8 || f[1].size() != 1) log("{\"e\":\"broken\"}");
        else log("{\"e\":\"tx\",\"h\":" + js(hostOf(s)) + ",\"c\":" + js(s.id) + ",\"p\":" + js(f[0]) + ",\"cmd\":" + std::to_string(static_cast<unsigned char>(f[1][0])) + ",\"s\":" + js(f[2]) + ",\"m\":" + content(f[3], f[4], f[5], f[6], f[7]) + "}");
    };
    h.subscription = [&](fz::Sock &s, bool on, const std::string &t) { log(std::string("{\"e\":\"sub\",\"h\":") + js(hostOf(s)) + ",\"on\":" + (on ? "true" : "false") + ",\"z\":" + js(t) + "}"); };
    h.idle         = [&](long t) {
        if (t < 0) vs::S().block(&token);
        else vs::S().block(&token, vs::S().vtime + t * 1'000'000);
        return !vs::S().cur->timedOut;
    };
    int  op      = 0;
    bool stopped = false;
    {
        std::vector<std::unique_ptr<cl::ClientBase>> impl;
        impl.push_back(std::make_unique<cl::MDClientCtx>(ctx, ::std::chrono::milliseconds(p.timeoutMs), "id"));
        cl::ClientContext client(std::move(impl));
        auto              callback = [&](int k) {
            return [k](const opencmw::mdp::Message &m) {
                log("{\"e\":\"cb\",\"k\":" + std::to_string(k) + ",\"s\":" + js(m.serviceName) + ",\"m\":" + content(m) + "}");
                vs::S().point();
                log("{\"e\":\"cbr\",\"k\":" + std::to_string(k) + "}");
            };
        };
        auto request = [&](int th, std::mt19937_64 &q) {
            const int   k    = ++op;
            const bool  set  = q() % 2;
            const auto  host = kRouters[q() % (p.mode == 2 ? 1 : kRouters.size())];
            const auto  path = "/s" + std::to_string(q() % 3) + "?n=" + std::to_string(k);
            std::string d    = set ? std::string("data\0", 5) + std::to_string(k) : "";
            if (set && q() % 3 == 0) d = "";
            log("{\"e\":\"call\",\"th\":" + std::to_string(th) + ",\"k\":" + std::to_string(k) + ",\"o\":\"" + (set ? "set" : "get") + "\",\"h\":" + js(host) + ",\"s\":" + js(path.substr(0, 3)) + ",\"t\":" + js(path) + ",\"d\":" + js(d) + ",\"ts\":" + std::to_string(ms()) + "}");
            const U u("mdp://" + host + path);
            if (set) client.set(u, callback(k), opencmw::IoBuffer(d.data(), d.size()));
            else client.get(u, callback(k));
            log("{\"e\":\"ret\",\"th\":" + std::to_string(th) + "}");
        };
        std::map<std::pair<std::size_t, std::size_t>, int> subs; // by this harness (one thread subscribes)
        auto subscription = [&](int th, std::mt19937_64 &q) {
            const std::size_t hI = q() % p.pubs, tI = (q() % p.topics + p.first) % kTopics.size();
            const int         k  = ++op;
            const bool        on = !subs.count({ hI, tI });
            const U           u("mds://" + kPubs[hI] + kSpell[tI]);
            log("{\"e\":\"call\",\"th\":" + std::to_string(th) + ",\"k\":" + std::to_string(k) + ",\"o\":\"" + (on ? "sub" : "unsub") + "\",\"h\":" + js(kPubs[hI]) + ",\"s\":\"\",\"t\":" + js(zmqTopic(tI)) + ",\"d\":\"\",\"ts\":" + std::to_string(ms()) + "}");
            if (on) {
                subs[{ hI, tI }] = k;
                client.subscribe(u, callback(k));
            } else {
                subs.erase({ hI, tI });
                client.unsubscribe(u);
            }
            log("{\"e\":\"ret\",\"th\":" + std::to_string(th) + "}");
        };
        std::vector<vs::thread> ts;
        for (int t = 1; t <= p.threads; ++t)
            ts.emplace_back([&, t, s = g()] {
                std::mt19937_64 q(s);
                for (int i = 0; i < p.each; ++i) {
                    const bool subscriber = t == 1 && p.mode != 0;
                    if (subscriber && (p.mode == 1 || q() % 2)) subscription(t, q);
                    else if (p.mode != 1) request(t, q);
                    if (p.each > 20 && i % 4 == 3) nap(500); // many calls, few at a time
                    switch (q() % 4) {
                    case 0: nap(static_cast<std::int64_t>(q() % 40)); break;
                    case 1: nap(static_cast<std::int64_t>(q() % 400)); break;
                    default: break;
                    }
                }
            });
        // the brokers
        std::vector<std::pair<std::size_t, fz::Frames>> answered;
        auto                                            reply = [&](std::size_t b, fz::Frames f) {
            log("{\"e\":\"rep\",\"c\":" + js(f[0]) + ",\"cmd\":" + std::to_string(f.size() == 9 && f[2].size() == 1 ? static_cast<unsigned char>(f[2][0]) : 0) + ",\"ok\":" + (f.size() == 9 ? "true" : "false") + ",\"s\":" + js(f.size() > 3 ? f[3] : "") + ",\"m\":" + (f.size() == 9 ? content(f[4], f[5], f[6], f[7], f[8]) : content("", "", "", "", "")) + "}");
            fz::deliver(brokers[b].sock, std::move(f));
        };
        int  serial  = 0;
        auto collect = [&] {
            for (std::size_t b = 0; b < brokers.size(); ++b)
                while (!brokers[b].sock->in.empty()) {
                    auto f = brokers[b].sock->in.front();
                    brokers[b].sock->in.pop_front();
                    if (!brokers[b].pub && f.size() == 9) reqs.push_back({ b, f });
                }
        };
        auto answer = [&](std::size_t i) {
            auto [b, f] = reqs[i];
            reqs.erase(reqs.begin() + static_cast<std::ptrdiff_t>(i));
            f[2] = std::string(1, '\4');
            f[6] = "answer" + std::to_string(++serial);
            f[7] = r(4) ? "" : "error text";
            f[8] = "tok" + std::to_string(r(3));
            if (r(5) == 0) { // part of the answer first
                auto part = f;
                part[2]   = std::string(1, '\3');
                part[6]   = "part of " + f[6];
                reply(b, part);
            }
            answered.emplace_back(b, f);
            reply(b, f);
        };
        auto hostile = [&] {
            if (answered.empty() && reqs.empty()) return;
            auto [b, f] = answered.empty() || (!reqs.empty() && r(2)) ? std::pair{ reqs[0].broker, reqs[0].f } : answered[r(static_cast<unsigned>(answered.size()))];
            f[2]        = std::string(1, r(3) ? '\4' : '\x9');
            switch (r(6)) {
            case 0: f[4] = ""; break;
            case 1: f[4] = "abc"; break;
            case 2: f[4] = "99999999999999999999999"; break;
            case 3: f[4] = "4711"; break;
            case 4: f.resize(1 + r(8)); if (f.size() < 2) f.push_back("x"); break;
            default: // another command, known id
                if (!answered.empty()) f = answered[r(static_cast<unsigned>(answered.size()))].second; // a repeated answer
                else f[2] = std::string(1, '\5');
            }
            reply(b, f);
        };
        auto publish = [&] {
            const std::size_t b  = kRouters.size() + r(static_cast<unsigned>(kPubs.size()));
            const std::size_t tI = r(3) ? (r(static_cast<unsigned>(p.topics)) + p.first) % kTopics.size() : r(static_cast<unsigned>(kTopics.size()));
            auto              z  = zmqTopic(tI);
            fz::Frames        f{ z, "MDPC03", std::string(1, r(8) ? '\x9' : '\4'), "/svc", "17", kTopics[tI] + (r(2) ? "" : ""), "note" + std::to_string(++serial), r(4) ? "" : "err", "tok" };
            if (tI == 4) f[5] = kSpell[4];
            bool ok = true;
            switch (r(12)) {
            case 0: f[2] = std::string(1, "\1\3\5\xa"[r(4)]), ok = false; break;
            case 1: f.resize(1 + r(8)), ok = false; break;
            case 2: f[0] += "x", ok = false; break; // a longer topic
            default: break;
            }
            bool to = false;
            for (auto &[t, m] : brokers[b].sock->peerSubs) to = to || (!m.empty() && fz::matches(t, f[0]));
            log("{\"e\":\"pub\",\"h\":" + js(brokers[b].host) + ",\"z\":" + js(z) + ",\"ok\":" + (ok ? "true" : "false") + ",\"to\":" + (to ? "true" : "false") + ",\"m\":" + (f.size() == 9 ? content(f[4], f[5], f[6], f[7], f[8]) : content("", "", "", "", "")) + "}");
            fz::deliver(brokers[b].sock, std::move(f));
        };
        auto stop = [&] {
            log("{\"e\":\"stop\",\"ts\":" + std::to_string(ms()) + "}");
            client.stop();
            stopped = true;
            log("{\"e\":\"stopped\",\"ts\":" + std::to_string(ms()) + "}");
        };
        const int rounds = 3 + static_cast<int>(r(14));
        for (int i = 0; i < rounds; ++i) {
            collect();
            switch (r(6)) {
            case 0: nap(static_cast<std::int64_t>(r(60))); break;
            case 1: nap(static_cast<std::int64_t>(r(500))); break;
            case 2:
                if (!reqs.empty()) {
                    answer(r(static_cast<unsigned>(reqs.size())));
                    break;
                }
                [[fallthrough]];
            case 3:
                if (p.mode != 0) publish();
                else hostile();
                break;
            case 4: hostile(); break;
            default:
                if (p.mode != 0) publish();
                else if (!reqs.empty()) answer(r(static_cast<unsigned>(reqs.size())));
            }
        }
        if (p.mode != 3) {
            for (auto &t : ts) t.join();
            ts.clear();
            nap(3000);
            collect();
            while (!reqs.empty() && r(8)) answer(r(static_cast<unsigned>(reqs.size())));
            if (p.mode != 0)
                for (unsigned i = r(6); i > 0; --i) publish();
            if (r(2)) hostile();
            nap(3000);
            log("{\"e\":\"quiet\"}");
        }
        if (p.mode == 3 || r(2)) stop();
        for (auto &t : ts) t.join();
        if (stopped) {
            if (p.mode != 0) publish();
            nap(1000);
        }
        log(std::string("{\"e\":\"stop\",\"ts\":") + std::to_string(ms()) + "}");
    }
    log("{\"e\":\"stopped\",\"ts\":" + std::to_string(ms()) + "}");
    h.send = nullptr;
    h.subscription = nullptr;
    for (auto &b : brokers) zmq_close(b.sock);
}
} // namespace
int main(int argc, char **argv) {
    hu::Args     a(argc, argv);
    vs::Explorer ex(a.out.c_str());
    vs::Config   cfg;
    cfg.maxSteps = 200000;
    cfg.timeJumpPct = 0; // promptness is judged
    std::mt19937_64 g(a.seed * 31 + 5);
    const auto      what  = a.str("what", "req");
    const int       plans = static_cast<int>(a.num("n", 100)), each = a.thorough ? 20 : 5;
    for (int i = 0; i < plans; ++i) {
        const int mode = what == "req" ? 0 : what == "sub" ? 1 + static_cast<int>(g() % 2) : 3;
        Plan      p{ g(), 1 + static_cast<int>(g() % 3), 1 + static_cast<int>(g() % 5), mode, std::array{ 20, 200, 1000 }[g() % 3], 1 + g() % 2, 1 + g() % 3, g() % 5 };
        if (i % 25 == 0) p.threads = 1 + static_cast<int>(g() % 2), p.each = 40;
        ex.meta = "\"plan\":" + std::to_string(mode);
        ex.random([&] { program(p); }, each, g(), cfg);
    }
    a.stat("executions", ex.executions);
    return 0;
}
