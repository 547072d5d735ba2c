// D09: BlockingQueue, RoundRobinThreadAffinedTaskScheduler, ThreadPerTaskScheduler
#define VS_AFTER_OPENCMW
#include "vsched.hpp"
#include "hutil.hpp"
#include <opencmw.hpp>
#include <array>
#include <disruptor/BlockingQueue.hpp>
#include <disruptor/RoundRobinThreadAffinedTaskScheduler.hpp>
#include <disruptor/ThreadPerTaskScheduler.hpp>
#include <random>
using namespace opencmw::disruptor;
using vs::logf;
using namespace std::chrono_literals;

struct Op {
    char op; // u push, o pop, t timed pop, e empty, y yield
    int  ms = 0;
};
static std::int64_t now() { return vs::steady_clock::now().time_since_epoch().count(); }
static void queueProgram(const std::vector<std::vector<Op>> &plan) {
    BlockingQueue<int>      q;
    std::vector<vs::thread> ts;
    int                     val = 0;
    for (std::size_t i = 0; i < plan.size(); ++i)
        ts.emplace_back([&, t = static_cast<int>(i + 1)] {
            for (auto o : plan[static_cast<std::size_t>(t - 1)]) {
                if (o.op == 'u') {
                    const int v = ++val;
                    logf("{{\"e\":\"uc\",\"t\":{},\"v\":{}}}", t, v);
                    if (v % 2) q.push(v);
                    else q.push(static_cast<const int &>(v));
                    logf("{{\"e\":\"ur\",\"t\":{}}}", t);
                } else if (o.op == 'o') {
                    logf("{{\"e\":\"oc\",\"t\":{},\"timed\":false}}", t);
                    const int v = q.pop();
                    logf("{{\"e\":\"or\",\"t\":{},\"ok\":true,\"v\":{}}}", t, v);
                } else if (o.op == 't') {
                    int v = -1;
                    logf("{{\"e\":\"oc\",\"t\":{},\"timed\":true}}", t);
                    const auto t0 = now();
                    const bool ok = q.timedWaitAndPop(v, std::chrono::milliseconds(o.ms));
                    logf("{{\"e\":\"or\",\"t\":{},\"ok\":{},\"v\":{},\"waited\":{},\"limit\":{}}}", t, ok, v, (now() - t0) / 1000, o.ms * 1000);
                } else if (o.op == 'e') {
                    logf("{{\"e\":\"ec\",\"t\":{}}}", t);
                    logf("{{\"e\":\"er\",\"t\":{},\"v\":{}}}", t, q.empty() ? 1 : 0);
                } else
                    vs::yield();
            }
        });
    for (auto &t : ts) t.join();
    std::string left;
    while (!q.empty()) left += std::format("{}{}", left.empty() ? "" : ",", q.pop());
    logf("{{\"e\":\"qend\",\"t\":0,\"left\":[{}]}}", left);
}
template<typename Sch>
static void schedProgram(int threads, int tasks, int slow, bool stopEarly) {
    auto    s = std::make_unique<Sch>();
    int     ended = 0;
    s->start(static_cast<std::size_t>(threads));
    std::vector<std::future<void>> fs;
    for (int k = 1; k <= tasks; ++k) {
        logf("{{\"e\":\"give\",\"k\":{}}}", k);
        fs.push_back(s->scheduleAndStart(std::packaged_task<void()>([k, slow, &ended] {
            logf("{{\"e\":\"tb\",\"k\":{}}}", k);
            for (int i = 0; i < slow; ++i) vs::yield();
            logf("{{\"e\":\"te\",\"k\":{}}}", k);
            ++ended;
        })));
        if (k % 2) vs::yield();
    }
    auto ready = [&](int k) { return fs[static_cast<std::size_t>(k - 1)].wait_for(0s) == std::future_status::ready; };
    if (!stopEarly)
        for (int k = 1; k <= tasks; ++k) {
            while (!ready(k)) vs::yield(); // every task runs while the scheduler is not stopped
            logf("{{\"e\":\"fut\",\"k\":{}}}", k);
        }
    logf("{{\"e\":\"stop\"}}");
    s->stop();
    logf("{{\"e\":\"stopped\"}}");
    for (int i = 0; i < 5; ++i) vs::yield();
    s->stop(); // harmless
    s.reset();
    logf("{{\"e\":\"tend\"}}");
}

int main(int argc, char **argv) {
    hu::Args        a(argc, argv);
    std::mt19937_64 rng(a.seed);
    const bool      deep = a.thorough;
    vs::Explorer    ex(a.out.c_str());
    vs::Config      cfg;
    cfg.maxSteps      = 40000;
    cfg.spinLimit     = 25;
    cfg.timeJumpPct   = 20;
    auto      R     = [&](int n) { return static_cast<int>(rng() % static_cast<unsigned>(n)); };
    const int plans = deep ? 1200 : 100, runs = deep ? 40 : 12, dfs = deep ? 200 : 20;
    for (int i = 0; i < plans; ++i) {
        std::vector<std::vector<Op>> plan(static_cast<std::size_t>(2 + R(2)));
        int                          pushes = 0, pops = 0;
        for (auto &t : plan)
            for (int k = 0; k < 4; ++k) {
                const int c = R(6);
                if (c < 3) t.push_back({ 'u' }), ++pushes;
                else if (c == 3) t.push_back({ 't', R(3) });
                else if (c == 4) t.push_back({ 'e' });
                else t.push_back({ 'o' }), ++pops;
            }
        // blocking pops must be servable: a last thread pushes as many as there are pops
        plan.emplace_back();
        for (int k = 0; k < pops; ++k) plan.back().push_back({ 'u' });
        int timed = 0;
        for (auto &t : plan)
            for (auto &o : t) timed += o.op == 't';
        for (int k = 0; k < timed; ++k) plan.back().push_back({ 'u' });
        ex.meta          = "\"threads\":0";
        auto c           = cfg;
        c.spuriousCvPct  = R(2) ? 10 : 0;
        ex.random([&] { queueProgram(plan); }, runs, rng(), c);
        ex.dfs([&] { queueProgram(plan); }, dfs, 2, cfg);
    }
    for (int i = 0; i < plans / 2; ++i) {
        const int  th = 1 + R(3), tasks = 1 + R(4), slow = R(4);
        const bool early = R(3) == 0;
        ex.meta          = std::format("\"threads\":{}", th);
        ex.random([&] { schedProgram<RoundRobinThreadAffinedTaskScheduler>(th, tasks, slow, early); }, runs, rng(), cfg);
        ex.meta = "\"threads\":100";
        ex.random([&] { schedProgram<ThreadPerTaskScheduler>(th, tasks, slow, early); }, runs, rng(), cfg);
    }
    a.stat("executions", ex.executions);
    a.stat("scheduling_points", ex.pointsTotal);
    a.stat("programs", plans * 2);
    return 0;
}
