// The broker's address registry (mmi.dns): own addresses and services, registrations of remote brokers, expiry, queries
#include "mdp_common.hpp"

#include <fstream>
namespace md = opencmw::majordomo;
namespace {
struct U {
    std::string u, sch, path;
};
U split(const std::string &s) { // all URIs here are scheme://host:port[/path] or have no scheme
    U    r{ s, "", "" };
    auto p = s.find("://");
    if (p == std::string::npos) return r;
    r.sch  = s.substr(0, p);
    auto q = s.find('/', p + 3);
    if (q != std::string::npos) r.path = s.substr(q + 1);
    for (auto &c : r.sch) c = static_cast<char>(std::tolower(c));
    return r;
}
std::string json(const U &u) { return "{\"u\":" + mh::js(u.u) + ",\"sch\":" + mh::js(u.sch) + ",\"path\":" + mh::js(u.path) + "}"; }
std::string nextName;
struct Run {
    std::mt19937_64                        &g;
    std::unique_ptr<md::Broker<>>           b;
    std::string                             ev;
    std::set<fz::Sock *>                    own;
    std::vector<std::pair<fz::Sock *, std::string>> remotes, clients, workers;
    std::string                             lastQuery;
    int                                     rnd(int n) { return static_cast<int>(g() % static_cast<unsigned>(n)); }
    bool                                    pct(int p) { return rnd(100) < p; }
    void                                    add(const std::string &e) { ev += (ev.empty() ? "" : ",") + e; }
    std::pair<fz::Sock *, std::string>      dealer(const std::string &id) {
        nextName = id;
        auto *s  = static_cast<fz::Sock *>(zmq_socket(b->context.zmq_ptr, ZMQ_DEALER));
        own.insert(s);
        zmq_connect(s, "inproc://broker/router");
        return { s, id };
    }
    void onRecv(fz::Sock &s, const fz::Frames &f) {
        if (own.count(&s) || f.size() != 9 || s.type != ZMQ_ROUTER) return;
        auto m = mh::ofFrames(f, 1);
        if (m.p == mh::PC && mh::cmd(m) == mh::READY) add("{\"k\":\"reg\",\"src\":" + mh::js(f[0]) + ",\"name\":" + mh::js(m.s) + ",\"uri\":" + json(split(m.t)) + "}");
        if (m.p == mh::PC && mh::cmd(m) == mh::HEARTBEAT) add("{\"k\":\"ask\"}");
        if (m.p == mh::PW && mh::cmd(m) == mh::READY) add("{\"k\":\"svc\",\"n\":" + mh::js(m.s) + "}");
    }
    // "[name: a,b],[name2: c]" -> structure
    std::string parsed(const std::string &d, bool &sorted) {
        std::string r = "[";
        std::size_t i = 0;
        sorted        = true;
        std::string lastName;
        while (i < d.size()) {
            if (i) {
                if (d[i] != ',') return "[[\"unreadable\",[]]]";
                ++i;
            }
            auto e = d.find(']', i), c = d.find(": ", i);
            if (d[i] != '[' || e == std::string::npos || c == std::string::npos || c > e) return "[[\"unreadable\",[]]]";
            auto name = d.substr(i + 1, c - i - 1), list = d.substr(c + 2, e - c - 2);
            r += (r.size() > 1 ? ",[" : "[") + mh::js(name) + ",[";
            std::string last;
            bool        first = true;
            std::size_t p     = 0;
            while (p <= list.size() && !list.empty()) {
                auto q = list.find(',', p);
                if (q == std::string::npos) q = list.size();
                auto u = list.substr(p, q - p);
                if (!first && u < last) sorted = false;
                last = u;
                r += (first ? "" : ",") + mh::js(u);
                first = false;
                p     = q + 1;
            }
            r += "]]";
            i = e + 1;
        }
        return r + "]";
    }
    void onSend(fz::Sock &s, const fz::Frames &f) {
        if (own.count(&s)) return;
        if (s.type == ZMQ_DEALER) {
            if (f.size() != 8) return add("{\"k\":\"broken\"}");
            auto m = mh::ofFrames(f, 0);
            add("{\"k\":\"adv\",\"ok\":" + std::string(m.p == mh::PC && mh::cmd(m) == mh::READY ? "true" : "false") + ",\"name\":" + mh::js(m.s) + ",\"uri\":" + json(split(m.t)) + "}");
            return;
        }
        if (s.type != ZMQ_ROUTER || f.size() != 9) return;
        auto m = mh::ofFrames(f, 1);
        if (m.p == mh::PC && mh::cmd(m) == mh::HEARTBEAT) add("{\"k\":\"chal\",\"to\":" + mh::js(f[0]) + ",\"name\":" + mh::js(m.s) + "}");
        else if (m.p == mh::PC && mh::cmd(m) == mh::FINAL && m.s == "/mmi.dns") {
            bool sorted = true;
            auto p      = parsed(m.d, sorted);
            add("{\"k\":\"ans\",\"q\":" + lastQuery + ",\"ok\":" + (m.e.empty() ? "true" : "false") + ",\"res\":" + p + ",\"sorted\":" + (sorted ? "true" : "false") + "}");
        }
    }
    void run() {
        int n = 0;
        do {
            b->processMessages();
            if (++n > 500) return add("{\"k\":\"busy\"}");
        } while (readable());
        add("{\"k\":\"ret\"}");
    }
    bool readable() {
        for (auto *s : static_cast<fz::Ctx *>(b->context.zmq_ptr)->socks)
            if (!own.count(s) && s->readable()) return true;
        return false;
    }
};
std::string history(std::mt19937_64 &g, int len) {
    Run                r{ g };
    static const char *schemes[] = { "mdp", "mds", "https", "MDP", "tcp" };
    static const char *paths[]   = { "", "aDevice", "aDevice/aProperty", "aDev", "mmi.dns", "b", "mmi.service" };
    fz::hooks()            = {};
    fz::hooks().identity   = [](fz::Sock &) { return nextName.empty() ? std::string("self") : nextName; };
    fz::hooks().idle       = [](long) { return false; };
    nextName.clear();
    vs::S().vtime = 0;
    md::Settings st;
    st.heartbeatInterval = ::std::chrono::milliseconds(1000);
    st.heartbeatLiveness = 1 + static_cast<int>(g() % 3);
    st.dnsTimeout        = ::std::chrono::milliseconds(g() % 2 ? 1000 : 3000);
    if (g() % 2) st.dnsAddress = "mdp://127.0.0.1:9999";
    const bool  hasDns  = !st.dnsAddress.empty();
    const auto  brokerN = g() % 4 ? "/broker" : "/b";
    r.b = std::make_unique<md::Broker<>>(brokerN, st);
    fz::hooks().recv = [&r](fz::Sock &s, const fz::Frames &f) { r.onRecv(s, f); };
    fz::hooks().send = [&r](fz::Sock &s, const fz::Frames &f) { r.onSend(s, f); };
    for (int i = 0; i < 3; ++i) r.remotes.push_back(r.dealer("b" + std::to_string(i + 1)));
    r.clients.push_back(r.dealer("c1"));
    for (int i = 0; i < 2; ++i) r.workers.push_back(r.dealer("w" + std::to_string(i + 1)));
    int       nAddr = 0;
    const int n     = 5 + r.rnd(len);
    for (int i = 0; i < n; ++i) {
        const int k = r.rnd(100);
        if (k < 8 && nAddr < 3) {
            const bool rest = r.pct(40);
            const auto a    = std::string(rest ? "https" : r.pct(60) ? "mdp" : "mds") + "://127.0.0.1:" + std::to_string(8000 + ++nAddr);
            r.add("{\"k\":\"bind\",\"a\":" + json(split(a)) + "}");
            if (rest) r.b->registerDnsAddress(opencmw::URI<>(a));
            else (void)r.b->bind(opencmw::URI<opencmw::STRICT>(a));
        } else if (k < 33) {
            auto &p = r.remotes[r.rnd(3)];
            std::string u = std::string(schemes[r.rnd(5)]) + "://10.0.0." + std::to_string(1 + r.rnd(3)) + ":123" , pa = paths[r.rnd(7)];
            if (!pa.empty()) u += "/" + pa;
            if (r.pct(6)) u = "/noscheme";
            fz::deliver(p.first, mh::frames({ mh::PC, mh::C(mh::READY), r.pct(5) ? brokerN : "/remote" + p.second, "clientID", u, "", "", "" }));
        } else if (k < 38) {
            auto &w = r.workers[r.rnd(2)];
            fz::deliver(w.first, mh::frames({ mh::PW, mh::C(mh::READY), r.pct(50) ? "/aDevice/aProperty" : "/b", "", "/", "about", "", "" }));
        } else if (k < 43) fz::deliver(r.remotes[0].first, mh::frames({ mh::PC, mh::C(mh::HEARTBEAT), brokerN, "dnsChallenge", "/", "", "", "" }));
        else if (k < 68) {
            r.run();
            std::string q, js;
            if (r.pct(30)) {
                q  = r.pct(50) ? "" : "Hello World!";
                js = "[]";
            } else {
                const int parts = 1 + r.rnd(3);
                js              = "[";
                for (int j = 0; j < parts; ++j) {
                    std::string sch = r.pct(45) ? schemes[r.rnd(5)] : "", pa = paths[r.rnd(7)], t;
                    t = sch.empty() ? "/" + pa : r.pct(40) ? sch + "://10.0.0.1:123" + (pa.empty() ? "" : "/" + pa) : sch + ":/" + pa;
                    if (parts > 1 && r.pct(10)) sch = pa = t = "";
                    for (auto &c : sch) c = static_cast<char>(std::tolower(c));
                    static const char *ws[] = { "", " ", "\t ", "  " };
                    q += (j ? "," : "") + std::string(ws[r.rnd(4)]) + t + ws[r.rnd(4)];
                    js += (j ? ",{" : "{") + std::string("\"t\":") + mh::js(t) + ",\"sch\":" + mh::js(sch) + ",\"path\":" + mh::js(pa) + "}";
                }
                js += "]";
            }
            r.lastQuery = js;
            fz::deliver(r.clients[0].first, mh::frames({ mh::PC, mh::C(mh::SET), "/mmi.dns", "1", "/", q, "", "" }));
            r.add("{\"k\":\"q\"}");
            r.run();
            continue;
        } else if (k < 71) { // queries that make no sense must not stop the broker
            r.run();
            static const char *j[] = { ":", ",", "//", ",,", "mdp://[::1", "http://a:b/c", "a:b:c,:/", "/%zz", "%,/", " ,/ ", "x://h:99999999/", "/a b", "1:2" };
            fz::deliver(r.clients[0].first, mh::frames({ mh::PC, mh::C(mh::GET), "/mmi.dns", "1", "/", j[r.rnd(13)], "", "" }));
            fz::hooks().send = nullptr;
            r.b->processMessages();
            fz::hooks().send = [&r](fz::Sock &s, const fz::Frames &f) { r.onSend(s, f); };
            if (r.clients[0].first->in.empty()) r.add("{\"k\":\"noanswer\"}");
            r.clients[0].first->in.clear();
        } else {
            const int f[] = { 1, 2, 4, 8, 9, 12, 16, 20, 24, 25, 30 };
            mh::advance(st.dnsTimeout.count() * f[r.rnd(11)] / 8 + (r.pct(30) ? 1 : 0));
            r.add("{\"k\":\"t\",\"now\":" + std::to_string(mh::nowMs()) + "}");
            r.run();
            continue;
        }
        if (r.pct(70)) r.run();
    }
    r.run();
    r.add("{\"k\":\"end\"}");
    fz::hooks().recv = fz::hooks().send = nullptr;
    for (auto *v : { &r.remotes, &r.clients, &r.workers })
        for (auto &p : *v) zmq_close(p.first);
    r.b.reset();
    return "{\"name\":" + mh::js(brokerN) + ",\"T\":" + std::to_string(st.dnsTimeout.count()) + ",\"L\":" + std::to_string(st.heartbeatLiveness) + ",\"dns\":" + (hasDns ? "true" : "false") + ",\"ev\":[" + r.ev + "]}";
}
} // namespace
int main(int argc, char **argv) {
    hu::Args        a(argc, argv);
    std::ofstream   out(a.out);
    hu::Current     cur(a.out);
    std::mt19937_64 g(a.seed * 104729);
    const int       n = static_cast<int>(a.num("n", a.thorough ? 6000 : 1000));
    for (int i = 0; i < n; ++i) {
        std::mt19937_64 h(g());
        cur.set("{\"history\":" + std::to_string(i) + "}");
        out << history(h, a.thorough && i % 4 == 0 ? 60 : 30) << "\n";
    }
}
