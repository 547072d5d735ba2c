// P01, P02: BasicThreadPool under the deterministic scheduler (virtual time)
#define VS_AFTER_OPENCMW
#include "vsched.hpp"
#include "hutil.hpp"
#include <cmath>
#include <cstring>
#include <format>
#include <functional>
#include <iostream>
#include <memory>
#include <optional>
#include <unordered_map>
#include <opencmw.hpp>
#include <ThreadPool.hpp>
#include <random>
using vs::logf;
using namespace std::chrono_literals;

namespace {
long complaints = 0; // enough evidence: stop early
struct Op {
    char kind; // v void task, l void task given as a named callable (twice), a void task with arguments, r result, x throwing, g gate (blocks until all gates of the plan may open), n nesting, p pause, s slow task
    int  prio = 0; // 0, 1, 5
    int  n    = 0; // pause in ms
};
struct Plan {
    bool                         io = false;
    unsigned                     min = 1, max = 1;
    int                          keepAliveMs = 10000;
    bool                         warm = false;
    bool                         waitInit = true, drain = true, idle = false, request = false, again = false;
    int                          gates = 0;
    std::vector<std::vector<Op>> subs;
};
void nap(std::chrono::milliseconds d) { vs::S().sleepUntil(vs::deadlineOf(d)); }
std::int64_t ms() { return vs::steady_clock::now().time_since_epoch().count() / 1'000'000; }

template<opencmw::TaskType TT>
struct Run {
    const Plan                             &pl;
    std::unique_ptr<opencmw::BasicThreadPool<TT>> pool;
    int                                     tasks = 0, done = 0, gatesIn = 0, open = 0;
    std::vector<std::pair<int, std::future<int>>> futs;

    std::shared_ptr<int> token = std::make_shared<int>(0);

    void begin(int k) { logf("{{\"e\":\"st\",\"k\":{},\"ts\":{}}}", k, ms()); }
    void end(int k) {
        logf("{{\"e\":\"en\",\"k\":{}}}", k);
        ++done;
    }
    int announce(int prio, int outcome = 0) {
        const int k = ++tasks;
        logf("{{\"e\":\"sub\",\"k\":{},\"p\":{},\"want\":{},\"ts\":{}}}", k, prio, outcome == 0 ? 0 : outcome + k, ms());
        return k;
    }
    void submitted(int k) { logf("{{\"e\":\"subr\",\"k\":{},\"ts\":{}}}", k, ms()); }
    template<typename F>
    void give(int prio, F &&f) {
        if (prio == 0) pool->execute(std::forward<F>(f));
        else if (prio == 1) pool->template execute<"one", 1>(std::forward<F>(f));
        else pool->template execute<"five", 5>(std::forward<F>(f));
    }
    template<typename F>
    std::future<int> ask(int prio, F &&f) {
        if (prio == 0) return pool->execute(std::forward<F>(f));
        if (prio == 1) return pool->template execute<"", 1>(std::forward<F>(f));
        return pool->template execute<"five", 5>(std::forward<F>(f));
    }
    void plain(int prio) {
        const int k = announce(prio);
        give(prio, [this, k, t = token] { begin(k); vs::yield(); end(k); });
        submitted(k);
    }
    void one(const Op &o) {
        switch (o.kind) {
        case 'v': plain(o.prio); break;
        case 's': {
            const int k = announce(o.prio);
            give(o.prio, [this, k, n = o.n] { begin(k); nap(std::chrono::milliseconds(n)); end(k); });
            submitted(k);
            break;
        }
        case 'l': { // the callable stays usable by the caller
            int  k = 0;
            auto f = [this, text = std::string("some text that is too long for the small buffer")](int id = 0) {
                begin(id);
                if (text != "some text that is too long for the small buffer") logf("{{\"e\":\"stolen\"}}");
                end(id);
            };
            for (int i = 0; i < 2; ++i) {
                k = announce(o.prio);
                if (o.prio == 0) pool->execute(f, static_cast<int>(k));
                else if (o.prio == 1) pool->template execute<"", 1>(f, static_cast<int>(k));
                else pool->template execute<"", 5>(f, static_cast<int>(k));
                submitted(k);
            }
            break;
        }
        case 'c': { // named callable without arguments
            const int k = announce(o.prio);
            struct F {
                Run        *r;
                int         k;
                std::string text;
                void        operator()() {
                    r->begin(k);
                    if (text != "another text that is too long for the small buffer") logf("{{\"e\":\"stolen\"}}");
                    r->end(k);
                }
            } f{ this, k, "another text that is too long for the small buffer" };
            give(o.prio, f);
            submitted(k);
            if (f.text != "another text that is too long for the small buffer") logf("{{\"e\":\"stolen\"}}");
            break;
        }
        case 'r': {
            const int k = announce(o.prio, 1000);
            futs.emplace_back(k, ask(o.prio, [this, k, t = token] { begin(k); vs::yield(); end(k); return 1000 + k; }));
            submitted(k);
            break;
        }
        case 'x': {
            const int k = announce(o.prio, 2000);
            futs.emplace_back(k, ask(o.prio, [this, k]() -> int { begin(k); end(k); throw std::runtime_error(std::format("{}", 2000 + k)); }));
            submitted(k);
            break;
        }
        case 'g': {
            const int k = announce(o.prio);
            give(o.prio, [this, k] {
                begin(k);
                ++gatesIn;
                while (gatesIn < pl.gates) nap(1ms); // all gates have to be inside at the same time
                end(k);
            });
            submitted(k);
            break;
        }
        case 'n': {
            const int k = announce(o.prio);
            give(o.prio, [this, k] { begin(k); plain(0); end(k); });
            submitted(k);
            break;
        }
        case 'y':
            for (int i = 0; i < o.n * 10; ++i) vs::yield();
            break;
        case 'w': // until a worker is about to sleep
            for (int i = 0; i < 150 && !vs::S().anyHeld(); ++i) vs::yield();
            break;
        case 'p': nap(std::chrono::milliseconds(o.n)); break;
        default: break;
        }
    }
    bool settle(auto &&pred, int limitMs) {
        const auto t0 = ms();
        while (!pred()) {
            if (ms() - t0 > limitMs) return false;
            nap(1ms);
        }
        return true;
    }
    void collect() {
        for (auto &[k, f] : futs) {
            if (f.wait_for(0s) != std::future_status::ready) {
                logf("{{\"e\":\"res\",\"k\":{},\"v\":0}}", k);
                continue;
            }
            int v = 0;
            try {
                v = f.get();
            } catch (const std::future_error &) {
                v = -1;
            } catch (const std::runtime_error &e) { v = std::atoi(e.what()); } catch (...) {
                v = -2;
            }
            logf("{{\"e\":\"res\",\"k\":{},\"v\":{}}}", k, v);
        }
        futs.clear();
    }
    void run() {
        pool = std::make_unique<opencmw::BasicThreadPool<TT>>("P", pl.min, pl.max);
        pool->keepAliveDuration = std::chrono::milliseconds(pl.keepAliveMs);
        if (pl.waitInit) {
            pool->waitUntilInitialised();
            logf("{{\"e\":\"init\",\"n\":{}}}", pool->numThreads());
        }
        std::vector<vs::thread> ts;
        for (auto &s : pl.subs)
            ts.emplace_back([&] { for (auto &o : s) one(o); });
        for (auto &t : ts) t.join();
        if (pl.warm) { // all workers are used again and again: none of them is superfluous
            for (int round = 0; round < 4; ++round) {
                gatesIn = 0;
                for (int i = 0; i < pl.gates; ++i) one({ 'g' });
                settle([&] { return done == tasks; }, 1000);
                nap(std::chrono::milliseconds(pl.keepAliveMs / 2));
                logf("{{\"e\":\"warm\",\"n\":{},\"used\":{}}}", pool->numThreads(), pl.gates);
            }
        }
        if (pl.drain) {
            if (!settle([&] { return done == tasks; }, 3000)) (++complaints, logf("{{\"e\":\"late\"}}"));
            if (!settle([&] { return pool->numTasksQueued() == 0 && pool->numTasksRunning() == 0; }, 3000)) (++complaints, logf("{{\"e\":\"miscounted\"}}"));
            collect();
            if (!settle([&] { return token.use_count() == 1; }, 100)) (++complaints, logf("{{\"e\":\"kept\"}}")); // what a task holds is released when it has run
            logf("{{\"e\":\"quiet\"}}");
        }
        if (pl.idle) {
            nap(std::chrono::milliseconds(4 * pl.keepAliveMs));
            settle([&] { return pool->numThreads() == pl.min; }, 4 * pl.keepAliveMs);
            logf("{{\"e\":\"idle\",\"n\":{}}}", pool->numThreads());
            plain(0); // still usable
            if (!settle([&] { return done == tasks; }, 3 * pl.keepAliveMs + 3000)) (++complaints, logf("{{\"e\":\"late\"}}"));
            logf("{{\"e\":\"quiet\"}}");
        }
        logf("{{\"e\":\"down\",\"ts\":{},\"was\":{}}}", ms(), pool->isShutdown());
        if (pl.request) {
            pool->requestShutdown();
            logf("{{\"e\":\"downr\",\"ts\":{},\"is\":{},\"n\":{}}}", ms(), pool->isShutdown(), pool->numThreads());
            if (!pl.drain) collect();
            if (pl.again) pool->requestShutdown();
        }
        pool.reset();
        if (!pl.request) logf("{{\"e\":\"downr\",\"ts\":{},\"is\":true,\"n\":0}}", ms());
        for (int i = 0; i < 5; ++i) vs::yield();
        if (!pl.drain) collect();
        logf("{{\"e\":\"over\"}}");
    }
};
} // namespace
int main(int argc, char **argv) {
    hu::Args        a(argc, argv);
    std::mt19937_64 rng(a.seed);
    const bool      deep = a.thorough;
    vs::Explorer    ex(a.out.c_str());
    vs::Config      cfg;
    cfg.maxSteps  = 60000;
    cfg.spinLimit = 25;
    auto      R     = [&](int n) { return static_cast<int>(rng() % static_cast<unsigned>(n)); };
    const int plans = a.num("n", 0) > 0 ? static_cast<int>(a.num("n", 0)) : deep ? 12000 : 2000, runs = deep ? 12 : 6;
    for (int i = 0; i < plans && complaints < 10; ++i) {
        Plan p;
        p.io = R(2);
        static const int sizes[][2] = { { 1, 1 }, { 1, 2 }, { 2, 2 }, { 2, 3 }, { 1, 3 }, { 3, 3 } };
        const auto      &sz = sizes[R(6)];
        p.min               = static_cast<unsigned>(sz[0]);
        p.max               = static_cast<unsigned>(sz[1]);
        const bool life     = a.str("mode", "run") == "life";
        p.waitInit          = R(3) != 0;
        p.drain             = !life || R(2);
        p.keepAliveMs       = R(3) == 0 ? 20 : 10000;
        p.idle              = life && p.drain && R(2);
        if (p.idle) p.keepAliveMs = 20;
        p.request           = life && R(2);
        p.again             = R(3) == 0;
        const int threads   = 1 + R(2);
        if (life && p.io && p.max > p.min && R(4) == 0) {
            p.warm = p.drain = true;
            p.keepAliveMs    = 100;
            p.gates          = static_cast<int>(p.max);
        }
        p.subs.resize(static_cast<std::size_t>(threads));
        static const int prios[] = { 0, 0, 1, 5 };
        const int  gateRoom = static_cast<int>(p.io ? p.max : p.min);
        const bool gated    = !p.warm && p.drain && R(3) == 0;
        if (gated) {
            p.gates = gateRoom; // as many blocking tasks as the pool promises to run at the same time
            for (int g = 0; g < p.gates; ++g) {
                auto &s = p.subs[static_cast<std::size_t>(R(threads))];
                if (R(3) == 0) s.push_back({ R(2) ? 'p' : 'y', 0, 1 + R(30) });
                s.push_back({ 'g', prios[R(4)] });
            }
        } else if (!p.warm) {
            int nest = static_cast<int>(p.io ? p.max : 99) - 1; // a nested submission counts as blocking
            for (auto &s : p.subs) {
                const int n = 1 + R(5);
                for (int k = 0; k < n; ++k) {
                    static const char kinds[] = "vvclcrrxnsspywwww";
                    Op o{ kinds[R(17)], prios[R(4)], 1 + R(30) };
                    if (o.kind == 'n' && (!p.drain || nest-- <= 0)) o.kind = 'v';
                    s.push_back(o);
                }
            }
        }
        ex.meta = std::format("\"io\":{},\"min\":{},\"max\":{},\"keep\":{}", p.io, p.min, p.max, p.keepAliveMs);
        auto c          = cfg;
        c.timeJumpPct   = 0;
        c.spuriousCvPct = R(3) == 0 ? 5 : 0;
        c.pctLen        = 3000;
        auto body = [&] {
            if (p.io) {
                Run<opencmw::IO_BOUND> r{ p };
                r.run();
            } else {
                Run<opencmw::CPU_BOUND> r{ p };
                r.run();
            }
        };
        ex.afterRun = [&] { complaints += vs::S().stuck; };
        ex.random(body, runs, rng(), c);
    }
    a.stat("executions", ex.executions);
    a.stat("scheduling_points", ex.pointsTotal);
    a.stat("programs", plans);
    return 0;
}
