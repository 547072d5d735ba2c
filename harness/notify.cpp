// Several threads notify through the real BasicWorker under the controlled scheduler while it runs, cleans up the sockets
// of idle threads, is subscribed and unsubscribed, loses its broker and is shut down.
#include "mdp_worker.hpp"

namespace md = opencmw::majordomo;
using W      = md::BasicWorker<"/svc">;
namespace {
struct Plan {
    int  threads, each, hbSec, live, rec;
    std::uint64_t seed;
};
int token;
void program(const Plan &p) {
    std::mt19937_64 g(p.seed);
    auto           &h = fz::hooks();
    h                 = {};
    std::int64_t lastT = 0;
    auto         add   = [&](const std::string &e) {
        if (mh::nowMs() != lastT) {
            lastT = mh::nowMs();
            vs::S().log.push_back("{\"k\":\"t\",\"now\":" + std::to_string(lastT) + "}");
        }
        vs::S().log.push_back(e);
    };
    opencmw::zmq::Context ctx;
    h.point   = [] { vs::S().point(); };
    h.who     = [] { return static_cast<const void *>(vs::S().cur); };
    h.misuse  = [&](const char *w) { add(std::string("{\"k\":\"misuse\",\"why\":") + mh::js(w) + "}"); };
    h.touched = [] { vs::S().wake(&token); };
    auto *router = static_cast<fz::Sock *>(zmq_socket(ctx.zmq_ptr, ZMQ_ROUTER));
    auto *sub    = static_cast<fz::Sock *>(zmq_socket(ctx.zmq_ptr, ZMQ_SUB));
    zmq_bind(router, "inproc://broker/router");
    zmq_bind(sub, "inproc://broker/subscribe");
    int         conns = 0, inCall = 0;
    std::string id;
    h.identity = [&](fz::Sock &) { return "conn" + std::to_string(++conns); };
    h.recv     = [&](fz::Sock &s, const fz::Frames &f) {
        if (&s == router || &s == sub) return;
        if (s.type == ZMQ_XPUB) add(std::string("{\"k\":\"sub\",\"on\":") + (f[0][0] == 1 ? "true" : "false") + ",\"tp\":{\"ok\":true,\"svc\":\"/svc\",\"par\":[],\"z\":\"/svc#\"}}");
        else if (s.type == ZMQ_PULL) add("{\"k\":\"nrx\",\"d\":" + mh::js(f.size() == 8 ? f[5] : "?") + "}");
        else add("{\"k\":\"rx\",\"m\":" + mh::json(mh::ofFrames(f, 0)) + "}");
    };
    h.send = [&](fz::Sock &s, const fz::Frames &f) {
        if (s.type != ZMQ_DEALER) return;
        id = s.id;
        if (f.size() != 8) add("{\"k\":\"broken\"}");
        else add("{\"k\":\"tx\",\"on\":" + mh::js(s.id) + ",\"m\":" + mh::json(mh::ofFrames(f, 0)) + "}");
    };
    h.idle = [&](long ms) {
        add("{\"k\":\"poll\",\"ms\":" + std::to_string(ms) + ",\"subs\":[\"*\"]}");
        vs::S().block(&token, vs::S().vtime + ms * 1'000'000);
        add("{\"k\":\"nop\"}");
        return !vs::S().cur->timedOut;
    };
    md::Settings st;
    st.heartbeatInterval       = ::std::chrono::milliseconds(p.hbSec * 1000);
    st.heartbeatLiveness       = p.live;
    st.workerReconnectInterval = ::std::chrono::milliseconds(p.rec);
    {
        W                   w(opencmw::URI<opencmw::STRICT>("inproc://broker"), [](md::RequestContext &) {}, ctx, st);
        std::vector<vs::thread> ts;
        ts.emplace_back([&] {
            w.run();
            add("{\"k\":\"end\"}");
        });
        std::vector<std::uint64_t> seeds;
        for (int t = 1; t <= p.threads; ++t) seeds.push_back(g());
        for (int t = 1; t <= p.threads; ++t)
            ts.emplace_back([&, t] {
                std::mt19937_64 r(seeds[static_cast<std::size_t>(t - 1)]);
                for (int i = 0; i < p.each; ++i) {
                    opencmw::mdp::Message m;
                    m.topic           = opencmw::mdp::Message::URI("/svc");
                    auto d            = "t" + std::to_string(t) + "." + std::to_string(i);
                    m.data            = opencmw::IoBuffer(d.data(), d.size());
                    m.clientRequestID = opencmw::IoBuffer("r");
                    add("{\"k\":\"note\",\"d\":" + mh::js(d) + ",\"e\":\"\",\"t\":\"/svc\",\"th\":" + std::to_string(t) + ",\"tp\":{\"ok\":true,\"svc\":\"/svc\",\"par\":[],\"z\":\"/svc#\"}}");
                    w.notify(std::move(m));
                    add("{\"k\":\"noted\",\"th\":" + std::to_string(t) + "}");
                    if (r() % 2) vs::S().sleepUntil(vs::S().vtime + static_cast<std::int64_t>(r() % 70) * 1'000'000'000);
                    if (r() % 4 == 0) (void) w.activeSubscriptions();
                }
            });
        bool on = false;
        for (int i = 0; i < 6; ++i) {
            switch (g() % 4) {
            case 0: vs::S().sleepUntil(vs::S().vtime + static_cast<std::int64_t>(g() % 50) * 1'000'000'000); break;
            case 1: fz::deliver(router, [&] { auto f = mh::frames({ mh::PW, mh::C(g() % 8 ? mh::HEARTBEAT : mh::DISCONNECT), "/svc", "", "/", "", "", "x" }); f.insert(f.begin(), id); return f; }()); break;
            case 2:
                on = !on;
                zmq_setsockopt(sub, on ? ZMQ_SUBSCRIBE : ZMQ_UNSUBSCRIBE, "/svc#", 5);
                break;
            default: vs::S().point();
            }
        }
        for (std::size_t i = 1; i < ts.size(); ++i) ts[i].join();
        add("{\"k\":\"stop\",\"late\":true}");
        w.shutdown();
        ts[0].join();
        h.recv = h.send = nullptr;
    }
    zmq_close(router);
    zmq_close(sub);
}
} // namespace
int main(int argc, char **argv) {
    hu::Args     a(argc, argv);
    vs::Explorer ex(a.out.c_str());
    vs::Config   cfg;
    cfg.maxSteps    = 60000;
    std::mt19937_64 g(a.seed);
    const int       plans = a.thorough ? 700 : 90;
    for (int i = 0; i < plans; ++i) {
        Plan p{ 1 + static_cast<int>(g() % 3), 1 + static_cast<int>(g() % 4), std::array{ 1, 10, 35 }[g() % 3], 1 + static_cast<int>(g() % 3), static_cast<int>(500 + g() % 2 * 2000), g() };
        ex.meta = "\"name\":\"/svc\",\"desc\":\"\",\"hb\":" + std::to_string(p.hbSec * 1000) + ",\"live\":" + std::to_string(p.live) + ",\"rec\":" + std::to_string(p.rec) + ",\"filt\":[],\"roles\":[[\"ADMIN\",\"RW\"]]";
        cfg.timeJumpPct = i % 2 ? 8 : 0; // time passes also while the worker could run: its timing cannot be judged then
        ex.meta += std::string(",\"slack\":") + (i % 2 ? "true" : "false");
        ex.random([&] { program(p); }, a.thorough ? 30 : 12, g(), cfg);
    }
    a.stat("executions", ex.executions);
    return 0;
}
