// D03/D05/D06/D08: batch processors, worker pools, their life cycle, and pollers
#include "ring_handlers.hpp"
using namespace rh;

struct Plan {
    vector<vector<POp>> prod;
    vector<GroupCfg>    groups;
    vector<Who>         who; // per group
    vector<int>         members; // worker pools: number of members
    int                 halts = 0;
    bool                rerun = false;
    int                 pollMax = 3; // pollers: events per poll
    std::uint64_t       rnd = 1;
};
struct ThreadExecutor : IExecutor {
    vector<vs::thread> threads;
    shared_ptr<WorkerPool<Ev>> pool;
    int                g = 0, m = 0;
    std::future<void>  execute(const std::function<void()> &f) override {
        const int k = ++m;
        threads.emplace_back([f, k, g = g] {
            logf("{{\"e\":\"rc\",\"g\":{},\"m\":{}}}", g, k);
            f();
            logf("{{\"e\":\"rr\",\"g\":{},\"m\":{},\"q\":0}}", g, k);
        });
        return {};
    }
};

template<std::size_t SIZE, typename WS, template<std::size_t, typename> typename CS>
static void program(const Plan &p, bool poll) {
    using Ring        = RingBuffer<Ev, SIZE, WS, CS>;
    constexpr bool mp = std::is_same_v<CS<SIZE, WS>, MultiThreadedStrategy<SIZE, WS>>;
    const std::size_t N  = p.groups.size();
    auto           ring = std::make_shared<Ring>();
    struct Group {
        vector<shared_ptr<Sequence>>                                     seqs;
        shared_ptr<BatchEventProcessor<Ev>>                              proc;
        shared_ptr<EventPoller<Ev, SIZE, WS, CS>>                        poller;
        shared_ptr<WorkerPool<Ev>>                                       pool;
        shared_ptr<ThreadExecutor>                                       exec;
        vector<shared_ptr<Notified>>                                     handlers;
        bool                                                             stop = false;
        int                                                              runs = 0, halting = 0;
    };
    vector<Group> gs(N);
    auto          onError = std::make_shared<OnError>();
    vector<shared_ptr<Sequence>> gate;
    for (std::size_t i = 0; i < N; ++i) {
        auto                        &g = gs[i];
        vector<shared_ptr<Sequence>> d;
        for (int k : p.groups[i].deps)
            for (auto &s : gs[static_cast<std::size_t>(k - 1)].seqs) d.push_back(s);
        if (poll) {
            g.poller = ring->newPoller(d);
            g.seqs   = { g.poller->sequence() };
        } else if (p.groups[i].batch) {
            auto h = std::make_shared<BatchHandler>();
            h->w   = p.who[i];
            g.proc = std::make_shared<BatchEventProcessor<Ev>>(ring, newBarrier(ring, d), h);
            g.proc->setExceptionHandler(onError);
            g.seqs = { g.proc->sequence() };
            g.handlers.push_back(h);
        } else {
            vector<shared_ptr<IWorkHandler<Ev>>> hs;
            for (int k = 1; k <= p.members[i]; ++k) {
                auto h = std::make_shared<PoolHandler>();
                h->w   = p.who[i];
                h->w.m = k;
                hs.push_back(h);
                g.handlers.push_back(h);
            }
            g.pool = std::make_shared<WorkerPool<Ev>>(ring, newBarrier(ring, d), onError, hs);
            g.seqs = g.pool->getWorkerSequences();
        }
        if (p.groups[i].gate)
            for (auto &s : g.seqs) gate.push_back(s);
    }
    ring->addGatingSequences(gate);
    vector<vs::thread> cts, pts;
    bool               done = false;
    for (std::size_t i = 0; i < N; ++i) {
        auto     &g = gs[i];
        const int G = static_cast<int>(i + 1);
        if (g.proc) cts.emplace_back([&g, G, &p] {
            while (true) {
                while (g.halting) vs::yield();
                const bool last = g.stop;
                if (last && g.runs > 0 && !p.rerun) break;
                logf("{{\"e\":\"rc\",\"g\":{},\"m\":1}}", G);
                try {
                    g.proc->run();
                    logf("{{\"e\":\"rr\",\"g\":{},\"m\":1,\"q\":{}}}", G, g.proc->sequence()->value());
                } catch (const Boom &) {
                    logf("{{\"e\":\"rx\",\"g\":{},\"m\":1,\"q\":{},\"running\":{}}}", G, g.proc->sequence()->value(), g.proc->isRunning());
                    ++g.runs;
                    continue;
                } catch (const std::exception &) {
                    logf("{{\"e\":\"refused to run\",\"g\":{},\"m\":1}}", G);
                    break;
                }
                ++g.runs;
                if (last || (g.stop && !p.rerun)) break;
                if (g.stop) break;
            }
        });
        else if (g.pool) {
            g.exec    = std::make_shared<ThreadExecutor>();
            g.exec->g = G;
            g.pool->start(g.exec);
        } else cts.emplace_back([&g, G, &p, &done, i, &ring] {
            while (true) {
                const bool last = done;
                logf("{{\"e\":\"pc\",\"t\":{},\"g\":{}}}", 10 + G, G);
                int         n = 0;
                std::string r = "X";
                std::int64_t cur = -1;
                auto bad = p.who[i].bad;
                try {
                    auto st = g.poller->poll([&](Ev &e, std::int64_t s, bool b) -> bool {
                        cur = s;
                        logf("{{\"e\":\"h\",\"g\":{},\"m\":1,\"s\":{},\"v\":{},\"b\":{},\"q\":{}}}", G, s, look(e), b ? "true" : "false", g.poller->sequence()->value());
                        for (int k = 0; k < p.who[i].slow; ++k) vs::yield();
                        if (!e.cell.onRead()) race("late read");
                        if (bad.count(s) && g.runs++ % 2 == 0) {
                            logf("{{\"e\":\"x\",\"g\":{},\"m\":1,\"s\":{}}}", G, s);
                            throw Boom(G, 1, s);
                        }
                        logf("{{\"e\":\"d\",\"g\":{},\"m\":1,\"s\":{}}}", G, s);
                        return ++n < p.pollMax;
                    });
                    r = st == PollState::Processing ? "P" : st == PollState::Gating ? "G" : st == PollState::Idle ? "I" : "?";
                } catch (const Boom &) {
                    logf("{{\"e\":\"xr\",\"g\":{},\"m\":1,\"s\":{}}}", G, cur);
                }
                logf("{{\"e\":\"pr\",\"t\":{},\"g\":{},\"v\":\"{}\",\"q\":{}}}", 10 + G, G, r, g.poller->sequence()->value());
                if (last && r == "I") break;
                vs::yield();
            }
        });
    }
    // halts at any time, also before and between runs
    vector<vs::thread> halters;
    for (std::size_t i = 0; i < N; ++i) {
        auto &g = gs[i];
        if (!g.proc || !p.halts) continue;
        halters.emplace_back([&g, &p, i] {
            std::mt19937_64 rng(p.rnd * 31 + i);
            for (int k = 0; k < p.halts; ++k) {
                for (auto n = rng() % 25; n > 0; --n) vs::yield();
                const int G = static_cast<int>(i + 1);
                ++g.halting;
                logf("{{\"e\":\"hc\",\"g\":{},\"m\":1}}", G);
                const int before = g.runs;
                g.proc->halt();
                logf("{{\"e\":\"hr\",\"g\":{},\"m\":1}}", G);
                --g.halting;
                while (g.runs == before) vs::yield(); // a run under way, or the next one, must end
            }
        });
    }
    for (std::size_t i = 0; i < p.prod.size(); ++i) pts.emplace_back([&, i] { Producer<Ring>{ *ring, static_cast<int>(i + 1), mp }.run(p.prod[i]); });
    for (auto &t : pts) t.join();
    for (auto &t : halters) t.join();
    const auto last = ring->cursor();
    for (std::size_t i = 0; i < N; ++i) {
        auto &g = gs[i];
        if (g.pool) {
            logf("{{\"e\":\"sc\",\"t\":{}}}", 20 + i);
            for (std::size_t m = 0; m < g.handlers.size(); ++m) logf("{{\"e\":\"hc\",\"g\":{},\"m\":{}}}", i + 1, m + 1);
            for (int k : p.groups[i].deps) // the groups in front first
                for (auto &s : gs[static_cast<std::size_t>(k - 1)].seqs)
                    while (s->value() < last) vs::yield();
            g.pool->drainAndHalt();
            for (std::size_t m = 0; m < g.handlers.size(); ++m) logf("{{\"e\":\"hr\",\"g\":{},\"m\":{}}}", i + 1, m + 1);
            for (auto &t : g.exec->threads) t.join();
            logf("{{\"e\":\"sg\",\"t\":{},\"g\":{}}}", 20 + i, i + 1);
        } else
            while (g.seqs[0]->value() < last) vs::yield();
    }
    done = true;
    for (std::size_t i = 0; i < N; ++i)
        if (gs[i].proc) {
            auto &g = gs[i];
            ++g.halting;
            g.stop = true;
            logf("{{\"e\":\"hc\",\"g\":{},\"m\":1}}", i + 1);
            g.proc->halt();
            logf("{{\"e\":\"hr\",\"g\":{},\"m\":1}}", i + 1);
            --g.halting;
        }
    for (auto &t : cts) t.join();
    string q;
    for (auto &g : gs) q += std::format("{}{}", q.empty() ? "" : ",", g.seqs[0]->value());
    logf("{{\"e\":\"end\",\"t\":0,\"q\":[{}]}}", q);
}

using Fn = void (*)(const Plan &, bool);
struct Kind {
    Fn          fn;
    std::size_t size;
    bool        mp;
};
template<std::size_t N, typename W>
static constexpr Fn S1 = &program<N, W, SingleThreadedStrategy>;
template<std::size_t N, typename W>
static constexpr Fn M1 = &program<N, W, MultiThreadedStrategy>;
static const Kind kinds[] = {
    { S1<4, BlockingWaitStrategy>, 4, false }, { M1<2, BlockingWaitStrategy>, 2, true }, { M1<4, TimeoutWait>, 4, true }, { S1<2, YieldingWaitStrategy>, 2, false }, { M1<4, SleepingWaitStrategy>, 4, true },
};

int main(int argc, char **argv) {
    hu::Args        a(argc, argv);
    std::mt19937_64 rng(a.seed);
    const auto      what = a.str("what", "batch");
    const bool      deep = a.thorough;
    vs::Explorer    ex(a.out.c_str());
    vs::Config      cfg;
    cfg.maxSteps    = 60000;
    cfg.spinLimit   = 25;
    const int plans = static_cast<int>(a.num("plans", deep ? 1500 : 120));
    const int runs  = static_cast<int>(a.num("runs", deep ? 40 : 16));
    const int dfs   = static_cast<int>(a.num("dfs", deep ? 150 : 12));
    auto      R     = [&](int n) { return static_cast<int>(rng() % static_cast<unsigned>(n)); };
    for (int i = 0; i < plans; ++i) {
        const Kind &k = kinds[static_cast<std::size_t>(i) % std::size(kinds)];
        Plan        p;
        const int   size = static_cast<int>(k.size);
        auto        G    = [](vector<int> d, bool gate, bool batch = true) { return GroupCfg{ d, gate, batch, false }; };
        const int   shape = R(4);
        if (what == "pool") {
            if (shape == 0) p.groups = { G({}, true, false) };
            else if (shape == 1) p.groups = { G({}, false, false), G({ 1 }, true) };
            else if (shape == 2) p.groups = { G({}, false), G({ 1 }, true, false) };
            else p.groups = { G({}, true, false), G({}, true, false) };
        } else if (what == "life") {
            if (shape < 2) p.groups = { G({}, true) };
            else p.groups = { G({}, false), G({ 1 }, true) };
        } else {
            if (shape == 0) p.groups = { G({}, true) };
            else if (shape == 1) p.groups = { G({}, true), G({}, true) };
            else if (shape == 2) p.groups = { G({}, false), G({ 1 }, true) };
            else p.groups = { G({}, false), G({}, false), G({ 1, 2 }, true) };
        }
        for (std::size_t g = 0; g < p.groups.size(); ++g) {
            Who w;
            w.g = static_cast<int>(g + 1);
            for (int s = 0; s < 8; ++s)
                if (R(6) == 0) w.bad.insert(s);
                else if (what == "life" && R(6) == 0) w.fatal.insert(s);
            w.slow = R(3);
            w.rude = R(3) == 0;
            p.who.push_back(w);
            p.members.push_back(1 + R(3));
        }
        p.halts   = what == "life" ? 1 + R(2) : 0;
        p.rerun   = what == "life";
        p.rnd     = rng();
        p.pollMax = 1 + R(3);
        const int np = k.mp ? 1 + R(2) : 1;
        for (int q = 0; q < np; ++q) {
            vector<POp> ops;
            int         budget = (np == 1 ? 6 : 4);
            while (budget > 0) {
                const int c = R(5);
                if (c <= 1) ops.push_back({ 'N', 1 }), budget -= 1;
                else if (c == 2) ops.push_back({ 'N', 1 + R(size - 1) }), budget -= ops.back().n;
                else if (c == 3) ops.push_back({ 'E', 1 + R(2) }), budget -= 1;
                else ops.push_back({ 'Y' });
            }
            p.prod.push_back(ops);
        }
        ex.meta = metaOf(k.size, k.mp, what == "poll", p.groups);
        auto c  = cfg;
        c.pctLen = 600;
        ex.random([&] { k.fn(p, what == "poll"); }, runs, rng(), c);
        if (dfs) ex.dfs([&] { k.fn(p, what == "poll"); }, dfs, 2, cfg);
    }
    a.stat("executions", ex.executions);
    a.stat("scheduling_points", ex.pointsTotal);
    a.stat("programs", plans);
    return 0;
}
