// D04: graphs of handlers, pools and custom processors built with the Disruptor's fluent interface
#include "ring_handlers.hpp"
#include <cmath>
#include <disruptor/AggregateEventHandler.hpp>
#include <disruptor/Disruptor.hpp>
using namespace rh;

struct FiberScheduler : ITaskScheduler { // one thread per task; stop() waits for them
    vector<vs::thread> threads;
    void               start(std::size_t) override {}
    void               stop() override {
        for (auto &t : threads) t.join();
        threads.clear();
    }
    std::future<void> scheduleAndStart(std::packaged_task<void()> &&task) override {
        auto f = task.get_future();
        threads.emplace_back([t = std::make_shared<std::packaged_task<void()>>(std::move(task))] { (*t)(); });
        return f;
    }
};
struct Plan {
    vector<vector<POp>> prod;
    int                 shape = 0;
    vector<GroupCfg>    groups;
    vector<Who>         who;
    vector<int>         members;
    bool                halt = false;    // halt at any time instead of shutdown: nothing may be handled twice or out of order, everything stops
    int                 haltAt = 0;
    bool                early = false;   // halt right after start
    bool                again = false;   // a second start is refused and has no effect
    int                 waitFirst = 0;
};
static constexpr int SHAPES = 9;
static void describe(Plan &p) { // group numbers are given to handlers in this order
    auto G = [](vector<int> d, bool batch = true) { return GroupCfg{ d, false, batch, false }; };
    switch (p.shape) {
    case 0: p.groups = { G({}), G({}) }; break;                               // A, B in parallel
    case 1: p.groups = { G({}), G({ 1 }), G({ 2 }) }; break;                  // A -> B -> C
    case 2: p.groups = { G({}), G({}), G({ 1, 2 }) }; break;                  // (A, B) -> C
    case 3: p.groups = { G({}), G({ 1 }), G({}), G({ 3 }) }; break;           // A -> B, C -> D with after()
    case 4: p.groups = { G({}, false) }; break;                               // worker pool
    case 5: p.groups = { G({}), G({ 1 }, false), G({ 2 }) }; break;           // A -> pool -> C
    case 6: p.groups = { G({}), G({}), G({ 1, 2 }) }; break;                  // A and B joined with And, then C
    case 7: p.groups = { G({}), G({ 1 }) }; break;                            // custom processors made by factories
    default: p.groups = { G({}), G({}), G({ 1, 2 }), G({ 1, 2 }) }; break;    // diamond with two ends
    }
}

template<std::size_t SIZE, typename WS, template<std::size_t, typename> typename CS>
static void program(const Plan &p) {
    using D           = DisruptorCore<Ev, SIZE, WS, CS>;
    using Ring        = RingBuffer<Ev, SIZE, WS, CS>;
    constexpr bool mp = std::is_same_v<CS<SIZE, WS>, MultiThreadedStrategy<SIZE, WS>>;
    auto           sch = std::make_shared<FiberScheduler>();
    auto           d   = std::make_shared<D>(sch);
    auto           onError = std::make_shared<OnError>();
    if (p.shape % 2) d->handleExceptionsWith(onError); // for all handlers set up from here on
    vector<shared_ptr<Notified>>         all;
    vector<shared_ptr<BatchHandler>>     hs(p.groups.size());
    vector<vector<shared_ptr<IWorkHandler<Ev>>>> ws(p.groups.size());
    for (std::size_t i = 0; i < p.groups.size(); ++i) {
        if (p.groups[i].batch) {
            hs[i]    = std::make_shared<BatchHandler>();
            hs[i]->w = p.who[i];
            hs[i]->runs = true;
            all.push_back(hs[i]);
        } else
            for (int k = 1; k <= p.members[i]; ++k) {
                auto h = std::make_shared<PoolHandler>();
                h->w   = p.who[i];
                h->w.m = k;
                h->runs = true;
                ws[i].push_back(h);
                all.push_back(h);
            }
    }
    auto H = [&](int i) -> shared_ptr<IEventHandler<Ev>> { return hs[static_cast<std::size_t>(i - 1)]; };
    using HV = vector<shared_ptr<IEventHandler<Ev>>>;
    struct Factory : IEventProcessorFactory<Ev> {
        shared_ptr<Ring>             ring;
        shared_ptr<BatchHandler>     h;
        shared_ptr<OnError>          e;
        shared_ptr<IEventProcessor> createEventProcessor(const shared_ptr<EventStore<Ev>> &, const vector<shared_ptr<Sequence>> &deps) override {
            auto r = std::make_shared<BatchEventProcessor<Ev>>(ring, newBarrier(ring, deps), h);
            r->setExceptionHandler(e);
            return r;
        }
    };
    auto F = [&](int i) {
        auto f  = std::make_shared<Factory>();
        f->ring = d->ringBuffer();
        f->h    = hs[static_cast<std::size_t>(i - 1)];
        f->e    = onError;
        return shared_ptr<IEventProcessorFactory<Ev>>(f);
    };
    switch (p.shape) {
    case 0: d->handleEventsWith(HV{ H(1), H(2) }); break;
    case 1: d->handleEventsWith(H(1))->then(H(2))->then(H(3)); break;
    case 2: d->handleEventsWith(HV{ H(1), H(2) })->then(H(3)); break;
    case 3:
        d->handleEventsWith(HV{ H(1), H(3) });
        d->after(H(1))->handleEventsWith(H(2));
        d->after(HV{ H(3) })->then(H(4));
        break;
    case 4: d->handleEventsWithWorkerPool(ws[0]); break;
    case 5: d->handleEventsWith(H(1))->thenHandleEventsWithWorkerPool(ws[1])->then(H(3)); break;
    case 6: {
        auto a = d->handleEventsWith(H(1));
        auto b = d->handleEventsWith(H(2));
        a->And(b)->handleEventsWith(H(3));
        break;
    }
    case 7: d->handleEventsWith(F(1))->then(F(2)); break;
    default: d->handleEventsWith(HV{ H(1), H(2) })->then(HV{ H(3), H(4) }); break;
    }
    if (!(p.shape % 2)) {
        if (p.shape == 2) {
            for (auto &h : hs) d->handleExceptionsFor(h)->with(onError);
        } else
            d->setDefaultExceptionHandler(onError); // also for the handlers set up before
    }
    auto ring = d->ringBuffer();
    for (auto &h : all) logf("{{\"e\":\"rc\",\"g\":{},\"m\":{}}}", h->w.g, h->w.m);
    d->start();
    auto haltAll = [&](auto f) {
        for (auto &h : all) logf("{{\"e\":\"hc\",\"g\":{},\"m\":{}}}", h->w.g, h->w.m);
        f();
        for (auto &h : all) logf("{{\"e\":\"hr\",\"g\":{},\"m\":{}}}", h->w.g, h->w.m);
    };
    vector<vs::thread> pts;
    const bool early = p.halt && p.early;
    if (!early) {
        while (!std::ranges::all_of(all, [](auto &h) { return h->started; })) vs::yield();
        for (std::size_t i = 0; i < p.prod.size(); ++i) pts.emplace_back([&, i] { Producer<Ring>{ *ring, static_cast<int>(i + 1), mp }.run(p.prod[i]); });
        if (p.again) {
            for (int k = 0; k < p.waitFirst; ++k) vs::yield();
            bool refused = false;
            try {
                d->start();
            } catch (const std::logic_error &) {
                refused = true;
            }
            if (!refused) logf("{{\"e\":\"started twice\",\"t\":0}}");
        }
    }
    if (p.halt) {
        for (int k = 0; k < p.haltAt; ++k) vs::yield();
        haltAll([&] { d->halt(); });
        sch->stop();
        for (auto &h : all) logf("{{\"e\":\"rr\",\"g\":{},\"m\":{},\"q\":{}}}", h->w.g, h->w.m, h->seq ? h->seq->value() : -1);
        logf("{{\"e\":\"end0\",\"t\":0}}");
        return;
    }
    for (auto &t : pts) t.join();
    logf("{{\"e\":\"sc\",\"t\":20}}");
    haltAll([&] { d->shutdown(); });
    logf("{{\"e\":\"sr\",\"t\":20}}");
    sch->stop();
    for (auto &h : all) logf("{{\"e\":\"rr\",\"g\":{},\"m\":{},\"q\":{}}}", h->w.g, h->w.m, h->seq ? h->seq->value() : -1);
    string q;
    for (auto &h : hs) q += std::format("{}{}", q.empty() ? "" : ",", h ? h->seq->value() : -1);
    logf("{{\"e\":\"end\",\"t\":0,\"q\":[{}]}}", q);
}

using Fn = void (*)(const Plan &);
struct Kind {
    Fn          fn;
    std::size_t size;
    bool        mp;
};
template<std::size_t N, typename W>
static constexpr Fn S1 = &program<N, W, SingleThreadedStrategy>;
template<std::size_t N, typename W>
static constexpr Fn M1 = &program<N, W, MultiThreadedStrategy>;
static const Kind kinds[] = { { S1<4, BlockingWaitStrategy>, 4, false }, { M1<4, BlockingWaitStrategy>, 4, true }, { M1<2, TimeoutWait>, 2, true }, { S1<2, YieldingWaitStrategy>, 2, false } };

int main(int argc, char **argv) {
    hu::Args        a(argc, argv);
    std::mt19937_64 rng(a.seed);
    const bool      deep = a.thorough;
    vs::Explorer    ex(a.out.c_str());
    vs::Config      cfg;
    cfg.maxSteps    = 80000;
    cfg.spinLimit   = 25;
    const int plans = static_cast<int>(a.num("plans", deep ? 1500 : 120));
    const int runs  = static_cast<int>(a.num("runs", deep ? 40 : 16));
    const int dfs   = static_cast<int>(a.num("dfs", deep ? 150 : 12));
    auto      R     = [&](int n) { return static_cast<int>(rng() % static_cast<unsigned>(n)); };
    for (int i = 0; i < plans; ++i) {
        const Kind &k = kinds[static_cast<std::size_t>(i) % std::size(kinds)];
        Plan        p;
        const int   size = static_cast<int>(k.size);
        p.shape          = (i / 4) % SHAPES;
        describe(p);
        for (std::size_t g = 0; g < p.groups.size(); ++g) {
            Who w;
            w.g = static_cast<int>(g + 1);
            for (int s = 0; s < 8; ++s)
                if (R(7) == 0) w.bad.insert(s);
            w.slow = R(3);
            w.rude = R(4) == 0;
            p.who.push_back(w);
            p.members.push_back(1 + R(3));
        }
        const int mode = R(4);
        p.halt   = mode == 0;
        p.haltAt = R(12);
        p.early  = true;
        p.again  = mode == 1;
        p.waitFirst = R(20);
        const int np = k.mp ? 1 + R(2) : 1;
        for (int q = 0; q < np; ++q) {
            vector<POp> ops;
            int         budget = (np == 1 ? 5 : 3);
            while (budget > 0) {
                const int c = R(5);
                if (c <= 1) ops.push_back({ 'N', 1 }), budget -= 1;
                else if (c == 2) ops.push_back({ 'N', 1 + R(size - 1) }), budget -= ops.back().n;
                else if (c == 3) ops.push_back({ 'E', 1 + R(2) }), budget -= 1;
                else ops.push_back({ 'Y' });
            }
            p.prod.push_back(ops);
        }
        ex.meta = metaOf(k.size, k.mp, false, p.groups);
        auto c  = cfg;
        c.pctLen = 600;
        ex.random([&] { k.fn(p); }, runs, rng(), c);
        if (dfs) ex.dfs([&] { k.fn(p); }, dfs, 2, cfg);
    }
    a.stat("executions", ex.executions);
    a.stat("scheduling_points", ex.pointsTotal);
    a.stat("programs", plans);
    return 0;
}
