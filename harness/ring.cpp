// D01/D02/D10: producers with user-written consumers (barrier + own sequence), all claim and wait strategies
#include "ring_common.hpp"
using namespace rh;

struct Plan {
    vector<vector<POp>> prod;
    vector<GroupCfg>    groups;
    bool                each = false;
    int                 slow = 0;
    int                 joiner = 0; // yields before the late group joins
    int                 leaveAfter = 0; // the first group leaves after that many events (0: never)
};

template<std::size_t SIZE, typename WS, template<std::size_t, typename> typename CS>
static void program(const Plan &p) {
    using Ring        = RingBuffer<Ev, SIZE, WS, CS>;
    constexpr bool mp = std::is_same_v<CS<SIZE, WS>, MultiThreadedStrategy<SIZE, WS>>;
    auto           ring = std::make_shared<Ring>();
    vector<shared_ptr<Sequence>> seqs;
    for (std::size_t i = 0; i < p.groups.size(); ++i) seqs.push_back(std::make_shared<Sequence>());
    vector<shared_ptr<Sequence>> gate;
    for (std::size_t i = 0; i < p.groups.size(); ++i)
        if (p.groups[i].gate && !p.groups[i].late) gate.push_back(seqs[i]);
    ring->addGatingSequences(gate);
    vector<std::unique_ptr<Manual<Ring>>> cons;
    for (std::size_t i = 0; i < p.groups.size(); ++i) {
        vector<shared_ptr<Sequence>> d;
        for (int k : p.groups[i].deps) d.push_back(seqs[static_cast<std::size_t>(k - 1)]);
        cons.push_back(std::make_unique<Manual<Ring>>(*ring, static_cast<int>(i + 1), seqs[i], newBarrier(ring, d), p.each != (i % 2 == 1), p.slow * static_cast<int>(i % 2)));
    }
    if (p.leaveAfter) cons[0]->atMost = p.leaveAfter;
    vector<vs::thread> cts, pts;
    for (std::size_t i = 0; i < cons.size(); ++i) {
        cts.emplace_back([&, i] {
            const int g = static_cast<int>(i + 1);
            if (p.groups[i].late) {
                for (int k = 0; k < p.joiner; ++k) vs::yield();
                logf("{{\"e\":\"jc\",\"g\":{}}}", g);
                ring->addGatingSequences({ seqs[i] });
                logf("{{\"e\":\"jr\",\"g\":{},\"v\":{}}}", g, seqs[i]->value());
            }
            cons[i]->run();
            if (p.leaveAfter && i == 0) {
                logf("{{\"e\":\"lv\",\"g\":{}}}", g);
                const bool r = ring->removeGatingSequence(seqs[0]);
                logf("{{\"e\":\"lr\",\"g\":{},\"v\":{}}}", g, r ? 1 : 0);
            }
        });
    }
    for (std::size_t i = 0; i < p.prod.size(); ++i) pts.emplace_back([&, i] { Producer<Ring>{ *ring, static_cast<int>(i + 1), mp }.run(p.prod[i]); });
    for (auto &t : pts) t.join();
    // everything claimed is published now; wait for the consumers, then wake them up with an alert
    const auto last = ring->cursor();
    for (std::size_t i = 0; i < cons.size(); ++i) {
        if (p.leaveAfter && i == 0) continue;
        while (seqs[i]->value() < last) vs::yield();
    }
    for (auto &c : cons) c->barrier->alert();
    for (auto &t : cts) t.join();
    endEvent(seqs);
}

using Fn = void (*)(const Plan &);
struct Kind {
    Fn          fn;
    std::size_t size;
    bool        mp;
    const char *name;
};
template<std::size_t N, typename W>
static constexpr Fn S1 = &program<N, W, SingleThreadedStrategy>;
template<std::size_t N, typename W>
static constexpr Fn M1 = &program<N, W, MultiThreadedStrategy>;
static const Kind kinds[] = {
    { S1<2, BlockingWaitStrategy>, 2, false, "blocking" }, { S1<4, BusySpinWaitStrategy>, 4, false, "busy" }, { S1<2, YieldingWaitStrategy>, 2, false, "yield" },
    { S1<4, TimeoutWait>, 4, false, "timeout" }, { M1<2, BlockingWaitStrategy>, 2, true, "blocking" }, { M1<4, BusySpinWaitStrategy>, 4, true, "busy" },
    { M1<2, SleepingWaitStrategy>, 2, true, "sleep" }, { M1<4, SpinWaitWaitStrategy>, 4, true, "spin" }, { M1<4, TimeoutWait>, 4, true, "timeout" },
};

int main(int argc, char **argv) {
    hu::Args     a(argc, argv);
    std::mt19937_64 rng(a.seed);
    const auto   what = a.str("what", "claim");
    const bool   deep = a.thorough;
    vs::Explorer ex(a.out.c_str());
    vs::Config   cfg;
    cfg.maxSteps  = 60000;
    cfg.spinLimit = 25;
    const int plans = static_cast<int>(a.num("plans", deep ? 1500 : 120));
    const int runs  = static_cast<int>(a.num("runs", deep ? 40 : 16));
    const int dfs   = static_cast<int>(a.num("dfs", deep ? 150 : 12));
    auto      R     = [&](int n) { return static_cast<int>(rng() % static_cast<unsigned>(n)); };
    for (int i = 0; i < plans; ++i) {
        const Kind &k = kinds[static_cast<std::size_t>(i) % std::size(kinds)];
        Plan        p;
        const int   size = static_cast<int>(k.size);
        // groups
        const int shape = R(5);
        auto      G     = [](vector<int> d, bool gate, bool late = false) { return GroupCfg{ d, gate, true, late }; };
        if (what == "gating") {
            p.groups     = { G({}, true), G({}, true) };
            if (R(3)) p.groups.push_back(G({}, true, true));
            p.joiner     = R(30);
            p.leaveAfter = R(3) ? 1 + R(3) : 0;
        } else if (shape == 0) p.groups = { G({}, true) };
        else if (shape == 1) p.groups = { G({}, true), G({}, true) };
        else if (shape == 2) p.groups = { G({}, false), G({ 1 }, true) };
        else if (shape == 3) p.groups = { G({}, false), G({}, false), G({ 1, 2 }, true) };
        else p.groups = { G({}, true), G({}, true), G({}, true) };
        p.each = R(2);
        p.slow = R(4);
        const int np = k.mp ? 1 + R(3) : 1;
        for (int q = 0; q < np; ++q) {
            vector<POp> ops;
            int         budget = (np == 1 ? 7 : np == 2 ? 4 : 3);
            while (budget > 0) {
                const int c = R(what == "claim" ? 12 : 8);
                if (c <= 1) ops.push_back({ 'N', 1 }), budget -= 1;
                else if (c == 2) ops.push_back({ 'N', 1 + R(size - 1) }), budget -= ops.back().n;
                else if (c == 3) ops.push_back({ 'T', 1 + R(size) }), budget -= ops.back().n;
                else if (c == 4) ops.push_back({ 'E', 1 + R(2) }), budget -= 1;
                else if (c == 5) ops.push_back({ 'F', 1 + R(2) }), budget -= 1;
                else if (c == 6 && (!k.mp || np == 1)) ops.push_back({ 'A', size > 2 ? 1 + R(2) : 1 }), budget -= 2;
                else if (c == 7) ops.push_back({ 'V', 1 + R(3) });
                else if (c == 8) ops.push_back({ 'H', 1 + R(size + 1) });
                else if (c == 9) ops.push_back({ 'R' });
                else if (c == 10) ops.push_back({ "CM"[R(2)] });
                else if (c == 11) ops.push_back({ 'T', 1 + R(size + 1) }), budget -= 1;
            }
            p.prod.push_back(ops);
        }
        ex.meta = metaOf(k.size, k.mp, true, p.groups);
        auto c  = cfg;
        c.pctLen = 600;
        ex.random([&] { k.fn(p); }, runs, rng(), c);
        if (dfs) ex.dfs([&] { k.fn(p); }, dfs, 2, cfg);
    }
    a.stat("executions", ex.executions);
    a.stat("scheduling_points", ex.pointsTotal);
    a.stat("programs", plans);
    return 0;
}
