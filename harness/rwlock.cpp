// Harness for ReaderWriterLock and AtomicMutex: small concurrent programs under enumerated/sampled schedules.
// Log (one JSON object per event): c = call, r = return; op; k = kind (r/w); v = result; hb = protected data properly ordered
#include "vsched.hpp"
#include <ReaderWriterLock.hpp>
#include <SpinWait.hpp>

#include "hutil.hpp"

using opencmw::ReaderWriterLock; using opencmw::ReaderWriterLockType; using opencmw::AtomicMutex; using opencmw::SpinWait;
using vs::logf;
static constexpr auto R = ReaderWriterLockType::READ;
static constexpr auto W = ReaderWriterLockType::WRITE;

struct Op {
    char op; // l lock, t trylock, g guard, v value
    char k;  // r w
};

template<ReaderWriterLockType T>
static void section(const ReaderWriterLock &, vs::RaceCell *cells, int me) {
    // the resource behind the lock: readers read the shared part; (concurrent) writers write their own part
    for (int i = 0; i < 4; ++i) {
        bool ok = true;
        if constexpr (T == R) ok = cells[i].onRead();
        else if (i == me) ok = cells[i].onWrite();
        if (!ok) logf("{{\"e\":\"race\",\"t\":{}}}", me);
        vs::point();
    }
}

template<ReaderWriterLockType T>
static void doOp(ReaderWriterLock &l, vs::RaceCell *cells, int me, char op, const char *k) {
    if (op == 'l') {
        logf("{{\"e\":\"c\",\"t\":{},\"op\":\"lock\",\"k\":\"{}\",\"v\":0}}", me, k);
        auto v = l.lock<T>();
        logf("{{\"e\":\"r\",\"t\":{},\"op\":\"lock\",\"k\":\"{}\",\"v\":{}}}", me, k, v);
        section<T>(l, cells, me);
        logf("{{\"e\":\"c\",\"t\":{},\"op\":\"unlock\",\"k\":\"{}\",\"v\":0}}", me, k);
        v = l.unlock<T>();
        logf("{{\"e\":\"r\",\"t\":{},\"op\":\"unlock\",\"k\":\"{}\",\"v\":{}}}", me, k, v);
    } else if (op == 't') {
        logf("{{\"e\":\"c\",\"t\":{},\"op\":\"try\",\"k\":\"{}\",\"v\":0}}", me, k);
        auto v = l.tryLock<T>();
        logf("{{\"e\":\"r\",\"t\":{},\"op\":\"try\",\"k\":\"{}\",\"v\":{}}}", me, k, v ? 1 : 0);
        if (v) {
            section<T>(l, cells, me);
            logf("{{\"e\":\"c\",\"t\":{},\"op\":\"unlock\",\"k\":\"{}\",\"v\":0}}", me, k);
            auto u = l.unlock<T>();
            logf("{{\"e\":\"r\",\"t\":{},\"op\":\"unlock\",\"k\":\"{}\",\"v\":{}}}", me, k, u);
        }
    } else if (op == 'g') {
        logf("{{\"e\":\"c\",\"t\":{},\"op\":\"glock\",\"k\":\"{}\",\"v\":0}}", me, k);
        {
            auto g = l.scopedGuard<T>();
            logf("{{\"e\":\"r\",\"t\":{},\"op\":\"glock\",\"k\":\"{}\",\"v\":0}}", me, k);
            section<T>(l, cells, me);
            logf("{{\"e\":\"c\",\"t\":{},\"op\":\"gunlock\",\"k\":\"{}\",\"v\":0}}", me, k);
        }
        logf("{{\"e\":\"r\",\"t\":{},\"op\":\"gunlock\",\"k\":\"{}\",\"v\":0}}", me, k);
    } else {
        logf("{{\"e\":\"c\",\"t\":{},\"op\":\"value\",\"k\":\"{}\",\"v\":0}}", me, k);
        auto v = l.value();
        logf("{{\"e\":\"r\",\"t\":{},\"op\":\"value\",\"k\":\"{}\",\"v\":{}}}", me, k, v);
    }
}

static void program(const std::vector<std::vector<Op>> &prog) {
    auto                   *l     = new ReaderWriterLock();
    auto                   *cells = new vs::RaceCell[4]();
    {
        std::vector<vs::thread> ts;
        for (std::size_t i = 0; i < prog.size(); ++i) {
            ts.emplace_back([&, i]() {
                for (auto [op, k] : prog[i]) {
                    if (k == 'r') doOp<R>(*l, cells, static_cast<int>(i), op, "r");
                    else doOp<W>(*l, cells, static_cast<int>(i), op, "w");
                }
            });
        }
        for (auto &t : ts) t.join();
    }
    logf("{{\"e\":\"end\",\"t\":0,\"v\":{}}}", l->value());
    delete[] cells;
    delete l;
}

struct SpinOnceWait { // a waiter with the interface AtomicMutex looks for
    void spin_once() { vs::yield(); }
    void reset() {}
};

template<typename M>
static void mutexProgram(int threads, int rounds) {
    auto *m = new M();
    auto *c = new vs::RaceCell();
    {
        std::vector<vs::thread> ts;
        for (int i = 0; i < threads; ++i) {
            ts.emplace_back([&, i]() {
                for (int r = 0; r < rounds; ++r) {
                    logf("{{\"e\":\"c\",\"t\":{},\"op\":\"lock\",\"k\":\"m\",\"v\":0}}", i);
                    m->lock();
                    logf("{{\"e\":\"r\",\"t\":{},\"op\":\"lock\",\"k\":\"m\",\"v\":0}}", i);
                    if (!c->onRead()) logf("{{\"e\":\"race\",\"t\":{}}}", i);
                    vs::point();
                    if (!c->onWrite()) logf("{{\"e\":\"race\",\"t\":{}}}", i);
                    vs::point();
                    logf("{{\"e\":\"c\",\"t\":{},\"op\":\"unlock\",\"k\":\"m\",\"v\":0}}", i);
                    m->unlock();
                    logf("{{\"e\":\"r\",\"t\":{},\"op\":\"unlock\",\"k\":\"m\",\"v\":0}}", i);
                }
            });
        }
        for (auto &t : ts) t.join();
    }
    logf("{{\"e\":\"end\",\"t\":0,\"v\":0}}");
    delete c;
    delete m;
}

int main(int argc, char **argv) {
    hu::Args   a(argc, argv);
    auto       rng  = std::mt19937_64(a.seed);
    const auto what = a.str("what", "rw");
    vs::Explorer ex(a.out.c_str());
    if (what == "rw") {
        const bool deep = a.thorough;
        // 1) exhaustive small programs: 2 threads, one op each, all pairs; preemption bound 3
        const std::vector<Op> ops = { { 'l', 'r' }, { 'l', 'w' }, { 't', 'r' }, { 't', 'w' }, { 'g', 'r' }, { 'g', 'w' }, { 'v', 'r' } };
        for (auto x : ops)
            for (auto y : ops) {
                std::vector<std::vector<Op>> p{ { x }, { y } };
                ex.dfs([&] { program(p); }, deep ? 20000 : 1500, deep ? 4 : 3);
            }
        // 2) three threads, sampled programs; preemption bound 2 + random
        const int np = deep ? 400 : 60;
        for (int i = 0; i < np; ++i) {
            const int                    n = 2 + static_cast<int>(rng() % 2);
            std::vector<std::vector<Op>> p(n);
            for (auto &t : p)
                for (int k = 1 + static_cast<int>(rng() % (n == 3 ? 2 : 3)); k > 0; --k) t.push_back(ops[rng() % ops.size()]);
            ex.dfs([&] { program(p); }, deep ? 2000 : 60, 2);
            ex.random([&] { program(p); }, deep ? 200 : 40, rng());
        }
        ex.maxDistinct = 1 << 30;
    } else {
        const bool deep = a.thorough;
        ex.dfs([&] { mutexProgram<AtomicMutex<>>(2, 1); }, deep ? 20000 : 1000, 3);
        ex.dfs([&] { mutexProgram<AtomicMutex<SpinWait<>>>(2, 1); }, deep ? 20000 : 1000, 3);
        ex.dfs([&] { mutexProgram<AtomicMutex<SpinOnceWait>>(2, 1); }, deep ? 20000 : 1000, 3);
        ex.random([&] { mutexProgram<AtomicMutex<>>(3, 2); }, deep ? 20000 : 400, rng());
        ex.random([&] { mutexProgram<AtomicMutex<SpinWait<>>>(3, 2); }, deep ? 20000 : 400, rng());
        ex.random([&] { mutexProgram<AtomicMutex<SpinOnceWait>>(3, 2); }, deep ? 20000 : 400, rng());
    }
    a.stat("executions", ex.executions);
    a.stat("distinct_histories", ex.distinct);
    a.stat("scheduling_points", ex.pointsTotal);
    return 0;
}
