// Drives the real Majordomo broker through a stand-in for libzmq with generated histories of client, worker, publisher,
// subscriber and REST messages (also malformed ones) under virtual time, and records everything that it reads and sends.
#include "mdp_common.hpp"

#include <fstream>

namespace md = opencmw::majordomo;
namespace {
struct Tp {
    std::string                                      svc;
    std::vector<std::pair<std::string, std::string>> par; // sorted by key
    bool                                             ok = true;
    std::string                                      z() const {
        std::string r = svc;
        for (std::size_t i = 0; i < par.size(); ++i) r += (i ? "&" : "?") + par[i].first + "=" + par[i].second;
        return r + "#";
    }
};
std::string json(const Tp &t) {
    if (!t.ok) return "{\"ok\":false}";
    std::string r = "{\"ok\":true,\"svc\":" + mh::js(t.svc) + ",\"par\":[";
    for (std::size_t i = 0; i < t.par.size(); ++i) r += (i ? ",[" : "[") + mh::js(t.par[i].first) + "," + mh::js(t.par[i].second) + "]";
    return r + "],\"z\":" + mh::js(t.z()) + "}";
}
// the harness writes every topic it sends itself, thus knows what it means
std::map<std::string, Tp> dictionary;
Tp                        meaning(const std::string &s) {
    auto it = dictionary.find(s);
    return it == dictionary.end() ? Tp{ .svc = "", .par = {}, .ok = false } : it->second;
}
std::string nextName;

struct Peer {
    fz::Sock                                        *s = nullptr;
    std::string                                      id;
    std::string                                      service;              // workers
    std::vector<mh::M>                               got;                  // requests received, not yet answered
};

struct Weights {
    int request, ready, reply, partial, stray, heartbeat, disconnect, notify, sub, unsub, xsub, rest, restsub, hostile, time, mmi, unknownService, run;
};

template<typename B>
struct World {
    std::mt19937_64                  &g;
    std::unique_ptr<B>                broker;
    std::string                       ev;
    std::set<fz::Sock *>              own;
    std::vector<Peer>                 clients, workers, subs;
    int                               serial = 0;
    std::vector<std::string>          services;
    std::vector<std::string>          roles;
    bool                              hang = false;
    long                              nRx = 0, nTx = 0;

    int  rnd(int n) { return static_cast<int>(g() % static_cast<unsigned>(n)); }
    bool pct(int p) { return rnd(100) < p; }
    template<typename V>
    auto &pick(V &v) { return v[rnd(static_cast<int>(v.size()))]; }
    void  add(const std::string &e) { ev += (ev.empty() ? "" : ",") + e; }

    explicit World(std::mt19937_64 &g_) : g(g_) {}

    Peer  dealer(const std::string &id) {
        nextName = id;
        Peer p;
        p.s  = static_cast<fz::Sock *>(zmq_socket(broker->context.zmq_ptr, ZMQ_DEALER));
        p.id = id;
        own.insert(p.s);
        zmq_connect(p.s, "inproc://broker/router");
        return p;
    }
    void setup(const md::Settings &st, int nc, int nw, int ns, bool rest) {
        fz::hooks()              = {};
        fz::hooks().identity     = [this](fz::Sock &) { return nextName.empty() ? std::string("broker") : nextName; };
        fz::hooks().fdReadable   = [](int) { return !md::detail::rest::RestServer::hub().in.empty(); };
        fz::hooks().idle         = [](long) { return false; };
        md::detail::rest::RestServer::hub() = {};
        nextName.clear();
        vs::S().vtime = 0;
        broker        = std::make_unique<B>("/broker", st);
        if (rest) {
            md::rest::Settings rs;
            (void)broker->bindRest(rs);
        }
        broker->template addFilter<opencmw::DomainFilter<std::string_view>>("x");
        broker->template addFilter<opencmw::DomainFilter<std::string_view>>("y");
        fz::hooks().recv = [this](fz::Sock &s, const fz::Frames &f) { onRecv(s, f); };
        fz::hooks().send = [this](fz::Sock &s, const fz::Frames &f) { onSend(s, f); };
        fz::hooks().subscription = [this](fz::Sock &s, bool on, const std::string &z) {
            if (!own.count(&s)) add(std::string("{\"k\":\"up\",\"on\":") + (on ? "true" : "false") + ",\"z\":" + mh::js(z) + "}");
        };
        md::detail::rest::RestServer::hub().out = [this](const opencmw::mdp::Topic *t, const mh::M &m) {
            ++nTx;
            add("{\"k\":\"tx\",\"to\":" + mh::js(t ? "rest/" + t->toZmqTopic() : std::string("rest")) + ",\"m\":" + mh::json(m) + "}");
        };
        for (int i = 0; i < nc; ++i) clients.push_back(dealer("c" + std::to_string(i + 1)));
        for (int i = 0; i < nw; ++i) {
            workers.push_back(dealer("w" + std::to_string(i + 1)));
            workers.back().service = services[i % services.size()];
        }
        for (int i = 0; i < ns; ++i) {
            nextName = "s" + std::to_string(i + 1);
            Peer p;
            p.s  = static_cast<fz::Sock *>(zmq_socket(broker->context.zmq_ptr, ZMQ_SUB));
            p.id = nextName;
            own.insert(p.s);
            zmq_connect(p.s, "inproc://broker/publisher");
            subs.push_back(p);
        }
    }
    void teardown() {
        fz::hooks().recv = fz::hooks().send = nullptr;
        fz::hooks().subscription = nullptr;
        for (auto *v : { &clients, &workers, &subs })
            for (auto &p : *v) zmq_close(p.s);
        broker.reset();
    }
    void onRecv(fz::Sock &s, const fz::Frames &f) {
        if (own.count(&s)) return;
        ++nRx;
        if (s.type == ZMQ_XPUB) {
            const auto &d = f.front();
            if (f.size() == 1 && d.size() >= 2 && (d[0] == 0 || d[0] == 1)) add(std::string("{\"k\":\"xp\",\"on\":") + (d[0] == 1 ? "true" : "false") + ",\"tp\":" + json(meaning(d.substr(1))) + "}");
            else add("{\"k\":\"bad\"}");
            return;
        }
        const bool topicOk = f.size() == 9 && f[5].find_first_of(" <>\"\\^`{|}") == std::string::npos;
        if (f.size() != 9 || f[2].size() != 1 || static_cast<unsigned char>(f[2][0]) > 10 || !topicOk) {
            add("{\"k\":\"bad\"}");
            return;
        }
        const auto m = mh::ofFrames(f, 1);
        add("{\"k\":\"rx\",\"src\":" + mh::js(f[0]) + ",\"m\":" + mh::json(m) + ",\"tp\":" + json(meaning(m.t)) + "}");
    }
    void onSend(fz::Sock &s, const fz::Frames &f) {
        if (own.count(&s)) return;
        if (s.type == ZMQ_DEALER) return; // registration at the DNS broker, see the DNS check
        ++nTx;
        if (f.size() != 9) {
            add("{\"k\":\"tx\",\"to\":\"broken\",\"m\":{}}");
            return;
        }
        add("{\"k\":\"tx\",\"to\":" + mh::js((s.type == ZMQ_ROUTER ? "router/" : "xpub/") + f[0]) + ",\"m\":" + mh::json(mh::ofFrames(f, 1)) + "}");
    }
    bool readable() {
        if (!md::detail::rest::RestServer::hub().in.empty()) return true;
        for (auto *s : static_cast<fz::Ctx *>(broker->context.zmq_ptr)->socks)
            if (!own.count(s) && s->readable()) return true;
        return false;
    }
    void run() {
        int n = 0;
        do {
            broker->processMessages();
            if (++n > 400) {
                add("{\"k\":\"busy\"}");
                hang = true;
                return;
            }
        } while (readable());
        add("{\"k\":\"ret\"}");
        for (auto &w : workers) drain(w);
        for (auto &c : clients) drain(c);
        for (auto &c : subs) drain(c);
    }
    void drain(Peer &p) {
        while (!p.s->in.empty()) {
            auto f = p.s->in.front();
            p.s->in.pop_front();
            if (p.service.empty() || f.size() != 8) continue;
            auto m = mh::ofFrames(f, 0);
            if (m.p == mh::PW && (mh::cmd(m) == mh::GET || mh::cmd(m) == mh::SET)) p.got.push_back(m);
        }
    }
    void send(Peer &p, const mh::M &m) { fz::deliver(p.s, mh::frames(m)); }

    std::string topicOf(const Tp &t) { // one of the spellings of a topic
        auto par = t.par;
        std::shuffle(par.begin(), par.end(), g);
        std::string r = t.svc;
        if (par.empty() && pct(15)) r += "/"; // trailing slashes do not count
        for (std::size_t i = 0; i < par.size(); ++i) r += (i ? "&" : "?") + par[i].first + "=" + par[i].second;
        dictionary[r] = t;
        return r;
    }
    Tp someTopic() {
        Tp t;
        t.svc = pick(services);
        if (pct(50)) t.par.emplace_back("x", std::to_string(1 + rnd(2)));
        if (pct(30)) t.par.emplace_back("y", std::to_string(1 + rnd(2)));
        if (pct(20)) t.par.emplace_back("z", std::to_string(1 + rnd(2))); // no filter for this one
        dictionary[t.z()] = t;
        return t;
    }
    std::string data() { return "d" + std::to_string(++serial); }
    std::string req() { return pct(10) ? "" : std::to_string(++serial); }
    std::string rbac() {
        switch (rnd(8)) {
        case 0: return "";
        case 1: return "RBAC=NOBODY,1";
        case 2: return pct(50) ? "RBAC=" + roles.front() : "RBAC," + roles.front();
        default: return "RBAC=" + pick(roles) + "," + (pct(30) ? "a,b" : "abc");
        }
    }
    std::string asked(const Weights &w) { // service name in a request
        if (pct(w.unknownService)) {
            static const char *u[] = { "/nothing", "", "/", "/sv", "x", "/mmi", "/mmi.", "/mmi.servic", "/svcx" };
            return u[rnd(9)];
        }
        auto s = pick(services);
        if (pct(15)) s += "/sub";
        if (pct(10)) s = s.substr(1);
        if (pct(8)) s += "x";
        return s;
    }
    mh::M request(const Weights &w) {
        mh::M m{ mh::PC, mh::C(pct(50) ? mh::GET : mh::SET), asked(w), req(), "/", data(), "", rbac() };
        if (pct(w.mmi)) {
            switch (rnd(4)) {
            case 0: m.s = "/mmi.echo"; break;
            case 1:
                m.s = pct(70) ? "/mmi.service" : "mmi.service";
                m.d = pct(30) ? "" : pct(60) ? pick(services) : asked(w);
                break;
            case 2:
                m.s = "/mmi.openapi";
                m.d = pct(60) ? pick(services) : asked(w);
                break;
            default: m.s = "/mmi.dns"; m.d = "";
            }
        }
        m.t = topicOf(someTopic());
        if (pct(10)) m.d = "";
        if (pct(5)) m.e = "err";
        return m;
    }
    void step(const Weights &w, std::int64_t hb, int live) {
        int  total = w.request + w.ready + w.reply + w.partial + w.stray + w.heartbeat + w.disconnect + w.notify + w.sub + w.unsub + w.xsub + w.rest + w.restsub + w.hostile + w.time;
        int  k     = rnd(total);
        auto is    = [&](int n) { return (k -= n) < 0; };
        auto &wk   = pick(workers);
        auto  wm   = [&](int c, const std::string &s) { return mh::M{ mh::PW, mh::C(c), s, "", "/", "", "", pct(50) ? "RBAC=NONE," : "" }; };
        if (is(w.request)) send(pick(clients), request(w));
        else if (is(w.ready)) {
            auto m = wm(mh::READY, wk.service);
            m.d    = "about " + wk.id;
            send(wk, m);
            if (pct(3)) send(wk, m);
        } else if (is(w.reply) || is(w.partial)) {
            const bool part = k < 0 && k >= -w.partial && pct(100 * w.partial / std::max(1, w.partial + w.reply));
            for (auto &p : workers)
                if (!p.got.empty() && pct(70)) {
                    auto r = p.got.front();
                    auto m = mh::M{ mh::PW, mh::C(part ? mh::PARTIAL : mh::FINAL), r.s, r.r, r.t, "re:" + r.d + ":" + data(), pct(20) ? "failed" : "", r.b };
                    send(p, m);
                    if (!part) p.got.erase(p.got.begin());
                    break;
                }
        } else if (is(w.stray)) { // replies nobody asked for, or for clients that are gone
            auto m = wm(pct(70) ? mh::FINAL : mh::PARTIAL, pct(50) ? pick(clients).id : "nobody");
            m.d    = data();
            send(wk, m);
        } else if (is(w.heartbeat)) send(wk, wm(mh::HEARTBEAT, wk.service));
        else if (is(w.disconnect)) {
            send(wk, wm(mh::DISCONNECT, wk.service));
            wk.got.clear();
        } else if (is(w.notify)) {
            auto m = wm(mh::NOTIFY, pct(80) ? wk.service : pick(services));
            auto t = someTopic();
            if (pct(70)) t.svc = wk.service;
            m.t = topicOf(t);
            m.d = data();
            if (pct(30)) m.r = "n" + std::to_string(serial);
            send(wk, m);
        } else if (is(w.sub) || is(w.unsub)) {
            auto m = mh::M{ mh::PC, mh::C(k < 0 && k >= -w.unsub && pct(100 * w.unsub / (w.unsub + w.sub)) ? mh::UNSUBSCRIBE : mh::SUBSCRIBE), "", req(), "/", "", "", rbac() };
            auto t = someTopic();
            m.s    = t.svc;
            m.t    = topicOf(t);
            send(pick(clients), m);
        } else if (is(w.xsub)) {
            if (!subs.empty()) {
                auto t = someTopic().z();
                zmq_setsockopt(pick(subs).s, pct(60) ? ZMQ_SUBSCRIBE : ZMQ_UNSUBSCRIBE, t.data(), t.size());
            }
        } else if (is(w.rest) || is(w.restsub)) {
            const int n = 1 + rnd(3);
            for (int i = 0; i < n; ++i) {
                auto m = request(w);
                auto t = someTopic();
                if (w.restsub && pct(100 * w.restsub / (w.rest + w.restsub))) {
                    m.c = mh::C(pct(60) ? mh::SUBSCRIBE : mh::UNSUBSCRIBE);
                    m.s = t.svc;
                    m.t = topicOf(t);
                }
                md::detail::rest::RestServer::BM b;
                b.command         = static_cast<opencmw::mdp::Command>(m.c[0]);
                b.serviceName     = m.s;
                b.clientRequestID = opencmw::IoBuffer(m.r.data(), m.r.size());
                b.topic           = opencmw::mdp::Message::URI(m.t);
                b.data            = opencmw::IoBuffer(m.d.data(), m.d.size());
                b.error           = m.e;
                b.rbac            = opencmw::IoBuffer(m.b.data(), m.b.size());
                restQueue.push_back({ std::move(b), m });
            }
            flushRest();
        } else if (is(w.hostile)) hostile(w);
        else {
            static const int f[] = { 0, 1, 2, 4, 8, 8, 9, 16, 23, 24, 25, 26, 40, 120 }; // eighths of the heartbeat interval
            auto             d   = hb * f[rnd(14)] / 8 + (pct(30) ? 1 : 0);
            if (pct(50)) d = std::min<std::int64_t>(d, hb / 2);
            (void)live;
            mh::advance(d);
            add("{\"k\":\"t\",\"now\":" + std::to_string(mh::nowMs()) + "}");
            run();
            return;
        }
        if (pct(w.run)) run();
    }
    std::vector<std::pair<md::detail::rest::RestServer::BM, mh::M>> restQueue;
    // the broker takes all REST requests at once when it polls: recorded as if read one after the other
    void flushRest() {
        run(); // so that nothing else is pending when they are taken
        for (auto &[b, m] : restQueue) md::detail::rest::RestServer::hub().in.push_back(std::move(b));
        for (auto &[b, m] : restQueue) add("{\"k\":\"rx\",\"src\":\"rest\",\"m\":" + mh::json(m) + ",\"tp\":" + json(meaning(m.t)) + "}");
        restQueue.clear();
        broker->processMessages(); // announces the descriptor
        run();
    }
    void hostile(const Weights &w) {
        auto &p = pct(60) ? pick(clients) : pick(workers);
        auto  m = request(w);
        switch (rnd(12)) {
        case 0: { // wrong number of frames
            auto f = mh::frames(m);
            if (pct(50)) f.resize(rnd(8));
            else f.insert(f.end(), 1 + rnd(3), "more");
            if (f.empty()) f.push_back("");
            fz::deliver(p.s, f);
            break;
        }
        case 1:
            m.c = pct(30) ? "" : pct(50) ? "\1\1" : std::string(1, static_cast<char>(11 + rnd(245)));
            send(p, m);
            break;
        case 2:
            m.t = pct(50) ? "/a b" : "/svc?x=<1>";
            m.c = mh::C(rnd(11));
            if (pct(50)) m.p = mh::PW;
            send(p, m);
            break;
        case 3:
            m.p = pct(50) ? "" : "MDPX03";
            m.c = mh::C(rnd(11));
            send(p, m);
            break;
        case 4: // commands a client must not send to a worker
        case 5:
            m.c = mh::C(std::array{ 0, 3, 4, 6, 9, 10 }[rnd(6)]);
            if (pct(50)) m.d = "broker shutdown";
            send(p, m);
            break;
        case 6: // commands a worker must not send, from somebody who is not registered or is
            m.p = mh::PW;
            m.c = mh::C(std::array{ 0, 1, 2, 7, 8 }[rnd(5)]);
            send(p, m);
            break;
        case 7: // somebody unknown answers for a worker
            m.p = mh::PW;
            m.c = mh::C(pct(50) ? mh::FINAL : mh::PARTIAL);
            m.s = pick(clients).id;
            send(pick(clients), m);
            break;
        case 8:
            m.p = mh::PW;
            m.c = mh::C(std::array{ 6, 9, 10 }[rnd(3)]);
            m.s = pct(50) ? "/not.registered" : pick(services);
            send(pick(clients), m);
            break;
        case 9: // subscriptions to what is not a topic
            m.c = mh::C(pct(50) ? mh::SUBSCRIBE : mh::UNSUBSCRIBE);
            m.t = pct(50) ? "/se-r?x=1" : "/";
            send(p, m);
            break;
        case 10:
            m.p = mh::PW;
            m.c = mh::C(mh::NOTIFY);
            m.t = pct(50) ? "/se-r?x=1" : "/";
            send(p, m);
            break;
        default: // junk on the publisher socket, as any subscriber may send
            if (!subs.empty()) {
                for (auto *s : pick(subs).s->peers) {
                    static const std::string j[] = { "", "\1", "\2/svc#", "\1/se-r#", std::string("\0", 1), "\1#", "\1?", "xyz", "\1/sv c#", "\1/a b#" };
                    fz::enqueue(s, { j[rnd(10)] });
                }
            }
        }
    }
};

template<typename B>
std::string history(std::mt19937_64 &g, const Weights &w, const std::string &what, std::vector<std::string> roles, long &rx, long &tx, int len) {
    World<B> x(g);
    const std::vector<std::vector<std::string>> sets = { { "/svc" }, { "/svc", "/svc/b" }, { "/a", "/ab", "/a/b" }, { "/svc", "/other" }, { "/dev", "/device", "/dev/ice" } };
    x.services = what == "match" ? sets[1 + g() % 4] : sets[g() % sets.size()];
    x.roles    = roles;
    md::Settings st;
    st.heartbeatInterval = ::std::chrono::milliseconds(1000);
    st.heartbeatLiveness = 1 + static_cast<int>(g() % 3);
    st.clientTimeout     = ::std::chrono::milliseconds(std::array{ 0, 2500, 10000 }[g() % 3]);
    dictionary.clear();
    const bool rest = g() % 3 == 0 && (w.rest || w.restsub);
    auto       ww   = w;
    if (!rest) ww.rest = ww.restsub = 0;
    x.setup(st, 1 + static_cast<int>(g() % 3), 1 + static_cast<int>(g() % 4), static_cast<int>(g() % 3), rest);
    const int n = 4 + static_cast<int>(g() % len);
    for (int i = 0; i < n && !x.hang; ++i) x.step(ww, 1000, st.heartbeatLiveness);
    if (!x.hang) x.run();
    if (!x.hang && g() % 3 == 0) {
        x.add("{\"k\":\"clean\"}");
        x.broker->cleanup();
    }
    x.add("{\"k\":\"end\"}");
    std::set<std::string> names{ "/mmi.dns", "/mmi.echo", "/mmi.service", "/mmi.openapi" };
    names.insert(x.services.begin(), x.services.end());
    std::string h = "{\"hb\":1000,\"live\":" + std::to_string(st.heartbeatLiveness) + ",\"ct\":" + std::to_string(st.clientTimeout.count()) + ",\"filt\":[\"x\",\"y\"],\"roles\":[";
    for (std::size_t i = 0; i < roles.size(); ++i) h += (i ? "," : "") + mh::js(roles[i]);
    h += "],\"names\":[";
    bool first = true;
    for (auto &s : names) h += (first ? "" : ",") + mh::js(s), first = false;
    h += "],\"ev\":[" + x.ev + "]}";
    rx += x.nRx;
    tx += x.nTx;
    x.teardown();
    return h;
}
} // namespace

int main(int argc, char **argv) {
    hu::Args   a(argc, argv);
    const auto what = a.str("what", "route");
    //              req rdy rep par str hb dis not sub uns xsb rst rss hos tim mmi unk run
    std::map<std::string, Weights> W{
        { "route", { 30, 12, 30, 4, 3, 4, 2, 2, 1, 1, 0, 8, 0, 0, 5, 5, 5, 60 } },
        { "order", { 45, 10, 28, 2, 0, 3, 1, 0, 0, 0, 0, 6, 0, 0, 3, 0, 0, 35 } },
        { "match", { 40, 12, 18, 0, 0, 2, 0, 1, 0, 0, 0, 6, 0, 0, 2, 35, 25, 70 } },
        { "pubsub", { 3, 5, 3, 0, 0, 2, 1, 30, 24, 16, 20, 0, 8, 0, 3, 0, 0, 75 } },
        { "live", { 14, 14, 12, 2, 4, 16, 5, 1, 0, 0, 0, 5, 0, 0, 40, 4, 4, 80 } },
        { "hostile", { 16, 8, 14, 2, 4, 4, 2, 6, 5, 3, 3, 3, 3, 40, 6, 8, 6, 75 } },
    };
    const auto      &w = W.at(what);
    const int        n = static_cast<int>(a.num("n", a.thorough ? 6000 : 1000));
    std::ofstream    out(a.out);
    hu::Current      cur(a.out);
    long             rx = 0, tx = 0;
    std::mt19937_64  g(a.seed * 7919 + std::hash<std::string>{}(what));
    using B1 = md::Broker<md::ADMIN, md::Role<"BOSS", md::Permission::RW>, md::ANY>;
    using B2 = md::Broker<>;
    for (int i = 0; i < n; ++i) {
        const auto s = g();
        cur.set("{\"what\":\"" + what + "\",\"history\":" + std::to_string(i) + "}");
        std::mt19937_64 h(s);
        const int       len = a.thorough && i % 4 == 0 ? 70 : 36;
        out << (i % 5 == 4 ? history<B2>(h, w, what, { "" }, rx, tx, len) : history<B1>(h, w, what, { "ADMIN", "BOSS", "ANY" }, rx, tx, len)) << "\n";
    }
    a.stat("messages_read_by_the_broker", rx);
    a.stat("messages_sent_by_the_broker", tx);
}
