// Drives the real BasicWorker through the stand-in for libzmq with generated histories: requests with all kinds of tokens,
// handlers that answer, fail or are slow, subscriptions, notifications, heartbeats, silence, disconnects and shutdown.
#include "mdp_worker.hpp"

#include <fstream>
namespace md = opencmw::majordomo;
namespace {
struct Tp {
    std::string                                      svc;
    std::vector<std::pair<std::string, std::string>> par;
    bool                                             ok = true;
    std::string                                      z() const {
        std::string r = svc;
        for (std::size_t i = 0; i < par.size(); ++i) r += (i ? "&" : "?") + par[i].first + "=" + par[i].second;
        return r + "#";
    }
};
std::string json(const Tp &t) {
    if (!t.ok) return "{\"ok\":false}";
    std::string r = "{\"ok\":true,\"svc\":" + mh::js(t.svc) + ",\"par\":[";
    for (std::size_t i = 0; i < t.par.size(); ++i) r += (i ? ",[" : "[") + mh::js(t.par[i].first) + "," + mh::js(t.par[i].second) + "]";
    return r + "],\"z\":" + mh::js(t.z()) + "}";
}
struct Weights {
    int request, heartbeat, bye, sub, notify, time, stop, hostile, gone;
};
std::map<std::string, Tp> dictionary;

template<typename W>
struct World {
    std::mt19937_64    &g;
    const Weights       w;
    md::Settings        st;
    opencmw::zmq::Context ctx;
    std::unique_ptr<W>  worker;
    fz::Sock           *router = nullptr, *sub = nullptr;
    std::string         ev;
    std::int64_t        lastT = 0;
    int                 serial = 0, steps = 0, maxSteps = 0, conns = 0;
    std::string         id;
    bool                stopped = false, dead = false;
    std::map<std::string, int> subs;
    int                 plan = 0; // what the handler does next

    int         rnd(int n) { return static_cast<int>(g() % static_cast<unsigned>(n)); }
    bool        pct(int p) { return rnd(100) < p; }
    void        add(const std::string &e) {
        if (mh::nowMs() != lastT) {
            lastT = mh::nowMs();
            ev += (ev.empty() ? "" : ",") + std::string("{\"k\":\"t\",\"now\":") + std::to_string(lastT) + "}";
        }
        ev += (ev.empty() ? "" : ",") + e;
    }
    std::string data() { return "d" + std::to_string(++serial); }
    Tp          someTopic(bool mine) {
        Tp t;
        t.svc = mine ? std::string(W::name) : std::array<std::string, 3>{ "/svcx", "/other", "/a" }[rnd(3)];
        if (pct(50)) t.par.emplace_back("x", std::to_string(1 + rnd(2)));
        if (pct(30)) t.par.emplace_back("y", std::to_string(1 + rnd(2)));
        if (pct(15)) t.par.emplace_back("z", std::to_string(1 + rnd(2)));
        return t;
    }
    std::string spelled(const Tp &t) {
        auto par = t.par;
        std::shuffle(par.begin(), par.end(), g);
        std::string r = t.svc;
        for (std::size_t i = 0; i < par.size(); ++i) r += (i ? "&" : "?") + par[i].first + "=" + par[i].second;
        return r;
    }
    std::string token() {
        static const char *t[] = { "", "RBAC=ADMIN,1", "RBAC=BOSS,1", "RBAC=READER,xyz", "RBAC=WRITER,1,2", "RBAC=NONE,", "RBAC=ANY,", "RBAC=NOBODY,1", "RBAC=READER", "RBAC=,1", "rbac=ADMIN,1", "RBAC=READ,1", "RBAC=ADMINX,1", "ADMIN,1" };
        return t[rnd(14)];
    }
    void notify() {
        auto t = someTopic(pct(85));
        auto s = spelled(t);
        if (pct(4)) {
            t.ok = false;
            s    = "/se-r?x=1";
        }
        opencmw::mdp::Message m;
        m.topic           = opencmw::mdp::Message::URI(s);
        auto d            = data();
        m.data            = opencmw::IoBuffer(d.data(), d.size());
        m.error           = pct(10) ? "oops" : "";
        m.clientRequestID = opencmw::IoBuffer("r");
        if (pct(50)) m.rbac = opencmw::IoBuffer("RBAC=BOSS,1");
        if (pct(50)) m.serviceName = "wrong";
        add("{\"k\":\"note\",\"d\":" + mh::js(d) + ",\"e\":" + mh::js(m.error) + ",\"t\":" + mh::js(s) + ",\"th\":0,\"tp\":" + json(t) + "}");
        worker->notify(std::move(m));
        add("{\"k\":\"noted\",\"th\":0}");
    }
    void handler(md::RequestContext &c) {
        auto q = mh::ofMessage(c.request), r = mh::ofMessage(c.reply);
        add("{\"k\":\"call\",\"q\":" + mh::json(q) + ",\"r\":" + mh::json(r) + "}");
        if (pct(25)) {
            mh::advance(rnd(4) * st.heartbeatInterval.count() / 2 + rnd(3));
            add("{\"k\":\"nop\"}");
        }
        if (pct(20)) notify();
        if (pct(30)) { // a reply that was begun must not leak into the one about a failure
            c.reply.data  = opencmw::IoBuffer("begun");
            if (pct(50)) c.reply.topic = opencmw::mdp::Message::URI("/begun");
        }
        const int what = rnd(6);
        if (what > 1) {
            c.reply.data  = {};
            c.reply.topic = c.request.topic;
        }
        switch (what) {
        case 0: add("{\"k\":\"done\",\"o\":\"throw\",\"w\":\"bang\"}"); throw std::runtime_error("bang");
        case 1: add("{\"k\":\"done\",\"o\":\"throwx\"}"); throw 42;
        case 2: {
            c.reply.error = "refused";
            add("{\"k\":\"done\",\"o\":\"reply\",\"d\":\"\",\"e\":\"refused\",\"t\":" + mh::js(q.t) + "}");
            return;
        }
        case 3: {
            c.reply.topic = opencmw::mdp::Message::URI("/changed?x=1");
            auto d        = data();
            c.reply.data  = opencmw::IoBuffer(d.data(), d.size());
            add("{\"k\":\"done\",\"o\":\"reply\",\"d\":" + mh::js(d) + ",\"e\":\"\",\"t\":\"/changed?x=1\"}");
            return;
        }
        default: {
            auto d       = data();
            c.reply.data = opencmw::IoBuffer(d.data(), d.size());
            add("{\"k\":\"done\",\"o\":\"reply\",\"d\":" + mh::js(d) + ",\"e\":\"\",\"t\":" + mh::js(q.t) + "}");
        }
        }
    }
    void toWorker(mh::M m) {
        auto f = mh::frames(m);
        f.insert(f.begin(), id);
        fz::deliver(router, f);
    }
    void env() { // one step of the world around the worker
        int  k  = rnd(w.request + w.heartbeat + w.bye + w.sub + w.notify + w.time + w.stop + w.hostile + w.gone);
        auto is = [&](int n) { return (k -= n) < 0; };
        if (is(w.request)) {
            auto t = spelled(someTopic(true));
            toWorker({ mh::PW, mh::C(pct(50) ? mh::GET : mh::SET), "client" + std::to_string(rnd(3)), pct(10) ? "" : std::to_string(++serial), t, pct(10) ? "" : data(), pct(5) ? "e" : "", token() });
        } else if (is(w.heartbeat)) toWorker({ mh::PW, mh::C(mh::HEARTBEAT), std::string(W::name), "", "/", "", "", "x" });
        else if (is(w.bye)) toWorker({ mh::PW, mh::C(mh::DISCONNECT), std::string(W::name), "", "/", pct(30) ? "broker shutdown" : pct(50) ? "unknown worker" : "", "", "x" });
        else if (is(w.sub)) {
            auto t  = someTopic(pct(85));
            auto z  = t.z();
            auto &n = subs[z];
            dictionary[z] = t;
            if (n == 0 || pct(30)) {
                n++;
                zmq_setsockopt(sub, ZMQ_SUBSCRIBE, z.data(), z.size());
            } else {
                n--;
                zmq_setsockopt(sub, ZMQ_UNSUBSCRIBE, z.data(), z.size());
            }
        } else if (is(w.notify)) notify();
        else if (is(w.stop)) {
            add("{\"k\":\"stop\",\"late\":false}");
            worker->shutdown();
            stopped = true;
        } else if (is(w.hostile)) hostile();
        else if (is(w.gone)) { // the broker restarts: it has other subscriptions
            for (auto &[z, n] : subs)
                while (n > 0 && pct(60)) {
                    --n;
                    zmq_setsockopt(sub, ZMQ_UNSUBSCRIBE, z.data(), z.size());
                }
        } else mh::advance(st.heartbeatInterval.count() * rnd(10) / 4 + rnd(2));
    }
    void hostile() {
        mh::M m{ mh::PW, mh::C(mh::GET), "c", "1", "/svc", "d", "", "" };
        switch (rnd(6)) {
        case 0: m.p = pct(50) ? "MDPC03" : ""; break;
        case 1: m.c = mh::C(std::array{ 0, 3, 4, 5, 7, 8, 9 }[rnd(7)]); break;
        case 2: m.c = pct(50) ? "" : "\x7f"; break;
        case 3: m.t = "/a b"; break;
        case 4: { // wrong number of frames
            fz::Frames f{ id };
            for (int i = rnd(12); i-- > 0;) f.push_back("x");
            if (f.size() == 9 || f.size() == 1) f.push_back("x");
            fz::deliver(router, f);
            return;
        }
        default: {
            for (auto *p : sub->peers) {
                static const std::string j[] = { "", "\1", "\2/svc#", "\1/se-r#", "xyz", std::string("\0", 1) };
                fz::enqueue(p, { j[rnd(6)] });
            }
            return;
        }
        }
        toWorker(m);
    }
    std::string run() {
        fz::hooks() = {};
        vs::S().vtime = 0;
        router = static_cast<fz::Sock *>(zmq_socket(ctx.zmq_ptr, ZMQ_ROUTER));
        sub    = static_cast<fz::Sock *>(zmq_socket(ctx.zmq_ptr, ZMQ_SUB));
        zmq_bind(router, "inproc://broker/router");
        zmq_bind(sub, "inproc://broker/subscribe");
        fz::hooks().identity = [this](fz::Sock &) { return "conn" + std::to_string(++conns); };
        worker               = std::make_unique<W>(opencmw::URI<opencmw::STRICT>("inproc://broker"), [this](md::RequestContext &c) { handler(c); }, ctx, st);
        worker->template addFilter<opencmw::DomainFilter<std::string_view>>("x");
        worker->template addFilter<opencmw::DomainFilter<std::string_view>>("y");
        fz::hooks().recv = [this](fz::Sock &s, const fz::Frames &f) {
            if (&s == router || &s == sub) return;
            if (s.type == ZMQ_XPUB) {
                const auto &d = f.front();
                if (f.size() == 1 && d.size() >= 2 && (d[0] == 0 || d[0] == 1) && dictionary.count(d.substr(1))) add(std::string("{\"k\":\"sub\",\"on\":") + (d[0] == 1 ? "true" : "false") + ",\"tp\":" + json(dictionary[d.substr(1)]) + "}");
            } else if (s.type == ZMQ_PULL) add("{\"k\":\"nrx\",\"d\":" + mh::js(f.size() == 8 ? f[5] : "?") + "}");
            else if (s.type == ZMQ_DEALER) {
                if (f.size() != 8 || f[1].size() != 1 || static_cast<unsigned char>(f[1][0]) > 10 || f[4].find(' ') != std::string::npos) add("{\"k\":\"bad\"}");
                else add("{\"k\":\"rx\",\"m\":" + mh::json(mh::ofFrames(f, 0)) + "}");
            }
        };
        fz::hooks().send = [this](fz::Sock &s, const fz::Frames &f) {
            if (s.type != ZMQ_DEALER) return;
            id = s.id;
            if (f.size() != 8) add("{\"k\":\"broken\"}");
            else add("{\"k\":\"tx\",\"on\":" + mh::js(s.id) + ",\"m\":" + mh::json(mh::ofFrames(f, 0)) + "}");
        };
        fz::hooks().idle = [this](long ms) {
            std::string a;
            std::vector<std::string> zs;
            for (auto &t : worker->activeSubscriptions()) zs.push_back(t.toZmqTopic());
            for (auto &z : zs) a += (a.empty() ? "" : ",") + mh::js(z);
            add("{\"k\":\"poll\",\"ms\":" + std::to_string(ms) + ",\"subs\":[" + a + "]}");
            if (++steps > maxSteps) {
                add("{\"k\":\"stop\",\"late\":false}");
                worker->shutdown();
                return false;
            }
            const auto until = mh::nowMs() + ms;
            for (int n = 1 + rnd(3); n-- > 0 && !stopped;) env();
            // without anything to read the call returns when its time is over
            bool any = false;
            for (auto *s : static_cast<fz::Ctx *>(ctx.zmq_ptr)->socks)
                if (s != router && s != sub && s->readable()) any = true;
            if (!any && mh::nowMs() < until) mh::advance(until - mh::nowMs());
            add("{\"k\":\"nop\"}"); // the time at which it goes on
            return any;
        };
        worker->run();
        add("{\"k\":\"end\"}");
        fz::hooks().recv = fz::hooks().send = nullptr;
        fz::hooks().idle = nullptr;
        worker.reset();
        zmq_close(router);
        zmq_close(sub);
        return ev;
    }
};
struct Role {
    const char *n, *r;
};
using W1 = md::BasicWorker<"/svc">;
using W2 = md::BasicWorker<"/svc", md::description<"a service">, md::rbac<md::Role<"BOSS", md::Permission::RW>, md::Role<"READER", md::Permission::RO>, md::Role<"WRITER", md::Permission::WO>, md::NONE>>;
using W3 = md::BasicWorker<"/a/b", md::rbac<md::Role<"WRITER", md::Permission::WO>, md::Role<"NOBODY", md::Permission::NONE>, md::ANY_RO>, md::description<"reads only">>;
using W4 = md::BasicWorker<"/svc", md::Role<"READER", md::Permission::RO>, md::Role<"WRITER", md::Permission::WO>>;

template<typename W>
std::string history(std::mt19937_64 &g, const Weights &w, const char *desc, std::vector<Role> roles, int len) {
    World<W> x{ .g = g, .w = w };
    dictionary.clear();
    x.st.heartbeatInterval       = ::std::chrono::milliseconds(1000);
    x.st.heartbeatLiveness       = 1 + static_cast<int>(g() % 3);
    x.st.workerReconnectInterval = ::std::chrono::milliseconds(500 + 2000 * (g() % 2));
    x.maxSteps                   = 4 + x.rnd(len);
    auto        ev               = x.run();
    std::string h                = "{\"name\":" + mh::js(W::name) + ",\"desc\":" + mh::js(desc) + ",\"hb\":1000,\"live\":" + std::to_string(x.st.heartbeatLiveness) + ",\"rec\":" + std::to_string(x.st.workerReconnectInterval.count()) + ",\"slack\":false,\"filt\":[\"x\",\"y\"],\"roles\":[";
    for (std::size_t i = 0; i < roles.size(); ++i) h += (i ? ",[" : "[") + mh::js(roles[i].n) + "," + mh::js(roles[i].r) + "]";
    return h + "],\"ev\":[" + ev + "]}";
}
} // namespace
int main(int argc, char **argv) {
    hu::Args   a(argc, argv);
    const auto what = a.str("what", "serve");
    //               req hb bye sub not tim stop hos gone
    std::map<std::string, Weights> W{
        { "serve", { 50, 5, 1, 5, 8, 10, 1, 3, 0 } },
        { "notify", { 6, 5, 3, 30, 40, 8, 1, 2, 4 } },
        { "live", { 8, 14, 6, 4, 6, 40, 2, 2, 2 } },
        { "hostile", { 15, 6, 2, 8, 10, 8, 1, 40, 1 } },
    };
    std::ofstream   out(a.out);
    hu::Current     cur(a.out);
    std::mt19937_64 g(a.seed * 15485863 + std::hash<std::string>{}(what));
    const int       n = static_cast<int>(a.num("n", 1000));
    for (int i = 0; i < n; ++i) {
        std::mt19937_64 h(g());
        cur.set("{\"what\":\"" + what + "\",\"history\":" + std::to_string(i) + "}");
        const int len = a.thorough && i % 4 == 0 ? 60 : 24;
        switch (i % 4) {
        case 0: out << history<W1>(h, W.at(what), "", { { "ADMIN", "RW" } }, len) << "\n"; break;
        case 1: out << history<W2>(h, W.at(what), "a service", { { "ADMIN", "RW" }, { "BOSS", "RW" }, { "READER", "RO" }, { "WRITER", "WO" }, { "NONE", "NONE" } }, len) << "\n"; break;
        case 2: out << history<W3>(h, W.at(what), "reads only", { { "ADMIN", "RW" }, { "WRITER", "WO" }, { "NOBODY", "NONE" }, { "ANY", "RO" } }, len) << "\n"; break;
        default: out << history<W4>(h, W.at(what), "", { { "ADMIN", "RW" }, { "READER", "RO" }, { "WRITER", "WO" } }, len) << "\n";
        }
    }
}
