// Harness for SpinWait under virtual time
#include "vsched.hpp"
#include <SpinWait.hpp>

#include "hutil.hpp"
using opencmw::SpinWait; using vs::logf;
static long us() { return static_cast<long>(vs::S().vtime / 1000); }

template<typename SW>
static void until(long timeout, int flipAt /*evaluation after which the other thread makes it true; -1 never*/, int byTime, bool overload) {
    auto *flag = new vs::atomic<int>(0);
    vs::thread other;
    if (byTime > 0) other = vs::thread([=] { vs::S().sleepUntil(vs::S().vtime + byTime * 100'000L); flag->store(1); logf("{{\"e\":\"flip\",\"at\":{}}}", us()); });
    int  evals = 0;
    auto cond  = [&]() noexcept {
        vs::point();
        if (evals == flipAt) { flag->_v = 1; logf("{{\"e\":\"flip\",\"at\":{}}}", us()); }
        ++evals;
        const bool v = flag->_v == 1;
        logf("{{\"e\":\"eval\",\"v\":{},\"at\":{},\"timeout\":{}}}", v ? 1 : 0, us(), timeout);
        return v;
    };
    SW sw;
    logf("{{\"e\":\"c\",\"at\":{}}}", us());
    std::string res;
    try {
        if (overload && timeout == -1) res = sw.spinUntil(cond) ? "true" : "false";
        else res = sw.spinUntil(cond, timeout) ? "true" : "false";
    } catch (const std::out_of_range &) { res = "range"; }
    logf("{{\"e\":\"r\",\"v\":\"{}\",\"at\":{},\"timeout\":{}}}", res, us(), timeout);
    if (other.joinable()) other.join();
    delete flag;
}
template<typename SW>
static void once(int n, const std::vector<int> &resets) {
    SW sw;
    for (int i = 0; i < n; ++i) {
        if (std::find(resets.begin(), resets.end(), i) != resets.end()) { sw.reset(); logf("{{\"e\":\"reset\"}}"); }
        auto *f = vs::S().cur; const long y = f->yields, b = f->blocks, t = us();
        const bool w = sw.nextSpinWillYield();
        sw.spinOnce();
        logf("{{\"e\":\"once\",\"g\":{},\"s\":{},\"n\":{},\"w\":{}}}", f->yields != y || f->blocks != b ? 1 : 0, us() - t, sw.count(), w ? 1 : 0);
    }
}
int main(int argc, char **argv) {
    hu::Args     a(argc, argv);
    auto         rng  = std::mt19937_64(a.seed);
    const bool   deep = a.thorough;
    vs::Explorer ex(a.out.c_str());
    vs::Config   cfg;
    cfg.maxSteps = 100000; cfg.spinLimit = 1 << 20;
    if (a.str("what", "until") == "until") {
        ex.meta = "\"yieldAfter\":10,\"sleepEvery\":20";
        for (long timeout : { -1000000L, -2L, -1L, 0L, 1L, 2L, 3L, 7L, 20L, 100L, (deep ? 1000L : 150L) })
            for (int flip = -1; flip < (deep ? 400 : 60); flip += (flip < 5 ? 1 : deep ? 3 : 9)) {
                if (timeout == -1 && flip == -1) continue; // would rightly never return
                ex.random([&] { until<SpinWait<>>(timeout, flip, 0, flip % 2); }, 2, rng(), cfg);
            }
        for (int i = 0; i < (deep ? 600 : 80); ++i) {
            const long timeout = (i % 4 == 0) ? -1 : static_cast<long>(rng() % 12);
            const int  at      = 1 + static_cast<int>(rng() % 200);
            ex.random([&] { until<SpinWait<>>(timeout, -1, at, i % 2); }, 6, rng(), cfg);
            ex.random([&] { until<SpinWait<3, 2, 4>>(timeout, -1, at, i % 2); }, 4, rng(), cfg);
        }
    } else {
        const auto go = [&]<typename SW>(SW, int y, int s) {
            ex.meta = "\"yieldAfter\":" + std::to_string(y) + ",\"sleepEvery\":" + std::to_string(s);
            for (int i = 0; i < (deep ? 100 : 12); ++i) {
                std::vector<int> resets;
                for (int k = static_cast<int>(rng() % 4); k > 0 && i; --k) resets.push_back(static_cast<int>(rng() % 200));
                ex.random([&] { once<SW>(i ? 150 : deep ? 3000 : 400, resets); }, 1, rng(), cfg);
            }
        };
        go(SpinWait<>{}, 10, 20);
        go(SpinWait<10, 5, 7>{}, 10, 7);
        go(SpinWait<12, 3, 5>{}, 12, 5);
        go(SpinWait<20, 5, 20>{}, 20, 20);
    }
    a.stat("executions", ex.executions);
    a.stat("distinct_histories", ex.distinct);
    return 0;
}
