// Harness for BasicSetting: one real-time thread (0) and non-real-time threads (1..), all access styles
#include "vsched.hpp"
#include <BasicSetting.hpp>

#include "hutil.hpp"
using opencmw::AccessType; using opencmw::BasicSetting; using opencmw::MutableOption;
using vs::logf;

static bool track = true;
// the value: three parts, copied part by part with scheduling points in between
struct Val {
    int                  p[3]{};
    mutable vs::RaceCell cell;
    static void          bad() { if (track && vs::self() >= 0) logf("{{\"e\":\"race\",\"t\":{}}}", vs::self()); }
    Val() = default;
    explicit Val(int v) { set(v); }
    Val(const Val &o) { copy(o); }
    Val &operator=(const Val &o) { if (this != &o) copy(o); return *this; }
    ~Val() {
        if (!cell.onWrite()) bad();
        for (auto &x : p) x = -77;
    }
    void copy(const Val &o) {
        if (!cell.onWrite()) bad();
        for (int i = 0; i < 3; ++i) {
            if (!o.cell.onRead()) bad();
            p[i] = o.p[i];
            vs::point();
        }
        if (!cell.onWrite()) bad();
    }
    void set(int v) {
        if (!cell.onWrite()) bad();
        for (auto &x : p) {
            x = v;
            vs::point();
        }
    }
    int get() const {
        if (!cell.onRead()) bad();
        int r = p[0];
        vs::point();
        if (p[1] != r) return -2;
        vs::point();
        if (p[2] != r) return -2;
        return r;
    }
};
constexpr auto RT = AccessType::RealTime, NRT = AccessType::NonRealTime;

// the real-time thread must never wait: no blocking, and a bounded number of its own steps per operation
struct NoWait {
    int  t;
    long s0, b0, extra;
    bool on;
    NoWait(int t_, bool on_, long extra_ = 0) : t(t_), s0(vs::S().cur->ownSteps), b0(vs::S().cur->blocks), extra(extra_), on(on_) {}
    ~NoWait() {
        if (on && (vs::S().cur->blocks != b0 || vs::S().cur->ownSteps - s0 > 30 + extra)) logf("{{\"e\":\"waited\",\"t\":{}}}", t);
    }
};
static int counter = 0;
static void c(int t, const char *op, int v = 0) { logf("{{\"e\":\"c\",\"t\":{},\"op\":\"{}\",\"v\":{}}}", t, op, v); }
static void r(int t, const char *op, int v = 0) { logf("{{\"e\":\"r\",\"t\":{},\"op\":\"{}\",\"v\":{}}}", t, op, v); }
static void see(int t, int v) { logf("{{\"e\":\"see\",\"t\":{},\"v\":{}}}", t, v); }

template<AccessType A, MutableOption M>
static void modify(BasicSetting<Val, M> &s, int t, int style) {
    const bool rt = A == RT;
    if (style == 0) { // guard, mutate in place
        c(t, "wacq");
        auto nw = std::make_unique<NoWait>(t, rt);
        {
            auto g = s.template accessGuard<A>();
            nw.reset();
            int v = g.operator->()->get();
            r(t, "wacq", v);
            const int n = ++counter;
            g.operator->()->set(n);
            logf("{{\"e\":\"set\",\"t\":{},\"v\":{}}}", t, n);
            see(t, g.get().get());
            c(t, "wrel");
            nw = std::make_unique<NoWait>(t, rt);
        }
        nw.reset();
        r(t, "wrel");
    } else if (style == 1) { // guard, assignment of a new value, twice
        c(t, "wacq");
        auto nw = std::make_unique<NoWait>(t, rt);
        {
            auto g = s.template accessGuard<A>();
            nw.reset();
            int v = static_cast<Val &>(g).get();
            r(t, "wacq", v);
            for (int k = 0; k < 2; ++k) {
                const int n = ++counter;
                g           = Val(n);
                logf("{{\"e\":\"set\",\"t\":{},\"v\":{}}}", t, n);
                see(t, static_cast<const Val &>(g).get());
            }
            c(t, "wrel");
            nw = std::make_unique<NoWait>(t, rt);
        }
        nw.reset();
        r(t, "wrel");
    } else {
        const int n = ++counter;
        c(t, "repl", n);
        auto nw = std::make_unique<NoWait>(t, rt, 20);
        s.template replace<A>(n);
        nw.reset();
        r(t, "repl");
    }
}
template<AccessType A, MutableOption M>
static void read(BasicSetting<Val, M> &s, int t, int style) {
    const bool rt = A == RT;
    if (style == 0) {
        c(t, "racq");
        auto nw = std::make_unique<NoWait>(t, rt);
        {
            auto g = s.template accessGuard<A>();
            nw.reset();
            r(t, "racq", static_cast<const Val &>(g).get());
            vs::point();
            see(t, static_cast<const Val &>(g).get());
            vs::yield();
            see(t, g.operator->()->get());
            c(t, "rrel");
            nw = std::make_unique<NoWait>(t, rt);
        }
        nw.reset();
        r(t, "rrel");
    } else {
        c(t, "racq");
        auto       nw = std::make_unique<NoWait>(t, rt);
        const auto &g = s.template acquire<A>();
        nw.reset();
        r(t, "racq", g.get());
        vs::point();
        see(t, g.get());
        vs::yield();
        see(t, g.get());
        c(t, "rrel");
        nw = std::make_unique<NoWait>(t, rt);
        s.template release<A>();
        nw.reset();
        r(t, "rrel");
    }
}
template<MutableOption M>
static void program(const std::vector<std::vector<int>> &prog) {
    counter = 0;
    auto *s = M == MutableOption::RealTimeMutable ? new BasicSetting<Val, M>(Val(0)) : new BasicSetting<Val, M>();
    {
        std::vector<vs::thread> ts;
        for (std::size_t i = 0; i < prog.size(); ++i) {
            ts.emplace_back([&, i]() {
                const int t = static_cast<int>(i);
                for (int k : prog[i]) {
                    if constexpr (M == MutableOption::NonRealTimeMutable) {
                        if (i == 0) read<RT>(*s, t, k % 2);
                        else modify<NRT>(*s, t, k);
                    } else {
                        if (i == 0) modify<RT>(*s, t, k);
                        else read<NRT>(*s, t, k % 2);
                    }
                }
            });
        }
        for (auto &t : ts) t.join();
    }
    logf("{{\"e\":\"end\",\"t\":0,\"v\":0}}");
    delete s;
}
int main(int argc, char **argv) {
    hu::Args     a(argc, argv);
    auto         rng  = std::mt19937_64(a.seed);
    const auto   what = a.str("what", "nrt");
    const bool   deep = a.thorough;
    vs::Explorer ex(a.out.c_str());
    const auto   run = [&](const std::vector<std::vector<int>> &p) {
        if (what == "nrt") program<MutableOption::NonRealTimeMutable>(p);
        else program<MutableOption::RealTimeMutable>(p);
    };
    for (int x = 0; x < 3; ++x)
        for (int y = 0; y < 3; ++y) {
            std::vector<std::vector<int>> p{ { x }, { y } };
            ex.dfs([&] { run(p); }, deep ? 40000 : 4000, deep ? 4 : 3);
        }
    for (int i = 0; i < (deep ? 600 : 50); ++i) {
        const int                     n = 2 + static_cast<int>(rng() % 2);
        std::vector<std::vector<int>> p(n);
        for (auto &t : p)
            for (int k = 1 + static_cast<int>(rng() % 3); k > 0; --k) t.push_back(static_cast<int>(rng() % 3));
        ex.dfs([&] { run(p); }, deep ? 1000 : 100, 2);
        ex.random([&] { run(p); }, deep ? 400 : 150, rng());
    }
    a.stat("executions", ex.executions);
    a.stat("distinct_histories", ex.distinct);
    a.stat("scheduling_points", ex.pointsTotal);
    return 0;
}
