// vsched - deterministic, controlled scheduler for unmodified C++ concurrency code.
//
// Include this header *before* any /repo header. Inside namespace opencmw the name `std` then resolves to
// opencmw::std, which re-exports ::std and replaces the concurrency primitives (atomics, fences, mutexes, condition
// variables, threads, sleeping, clocks) by versions that run on cooperative fibers: every operation on them is a
// scheduling point, blocking is modelled, time is virtual, and vector clocks follow the memory orders actually used.
// No real concurrency takes place, thus a schedule is a sequence of choices that can be enumerated, sampled, replayed.
#ifndef VERIF_VSCHED_HPP
#define VERIF_VSCHED_HPP

#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <bitset>
#include <cassert>
#include <cerrno>
#include <charconv>
#include <chrono>
#include <cmath>
#include <concepts>
#include <condition_variable>
#include <coroutine>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <exception>
#include <expected>
#include <format>
#include <forward_list>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <latch>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <print>
#include <queue>
#include <random>
#include <ranges>
#include <semaphore>
#include <set>
#include <shared_mutex>
#include <source_location>
#include <span>
#include <sstream>
#include <stdexcept>
#include <stop_token>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

#include <cxxabi.h>
#include <pthread.h>
#include <sched.h>
#include <ucontext.h>
#include <unistd.h>

namespace vs {

constexpr int MAXT = 24; // maximal number of fibers in one execution

struct VC {
    std::array<std::uint32_t, MAXT> c{};
    void                            join(const VC &o) {
        for (int i = 0; i < MAXT; ++i) c[i] = std::max(c[i], o.c[i]);
    }
    bool leq(const VC &o) const {
        for (int i = 0; i < MAXT; ++i)
            if (c[i] > o.c[i]) return false;
        return true;
    }
    void clear() { c.fill(0); }
};

struct EhGlobals {
    void        *caught   = nullptr;
    unsigned int uncaught = 0;
};

enum class St { Runnable,
    Blocked,
    Sleeping, // runnable once vtime >= deadline
    Done };

struct Fiber {
    int                   id = 0;
    ucontext_t            ctx{};
    char                 *stack = nullptr;
    std::function<void()> body;
    St                    st       = St::Runnable;
    const void           *waitOn   = nullptr; // object blocked on
    std::int64_t          deadline = -1;      // virtual ns; -1 = none
    bool                  timedOut = false;
    bool                  yielded  = false; // its last step was a (voluntary or enforced) yield
    std::uint32_t         behind   = 0;     // fibers that must be scheduled once before this one runs again
    int                   prio     = 0; // PCT
    VC                    vc, relFence, acqPending;
    EhGlobals             eh;
    int                   runLen = 0; // consecutive points without switch
    bool                  abandonedByDetach = false;
    std::uint64_t         rngTag = 0;
    long                  ownSteps = 0, blocks = 0, yields = 0; // scheduling points taken / times blocked or asleep
    long                  heldUntil = -1;
};

// ---- choice oracle ---------------------------------------------------------------------------------------------
enum class Mode { Random,
    PCT,
    DFS };

struct Config {
    Mode          mode       = Mode::Random;
    std::uint64_t seed       = 1;
    int           switchPct  = 35;    // Random: chance (percent) of a preemption at a point
    int           pctDepth   = 3;     // PCT: number of priority change points
    int           pctLen     = 200;   // PCT: estimated length
    int           bound      = 2;     // DFS: preemption bound
    long          maxSteps   = 20000; // scheduling points before the execution counts as stuck
    int           weakFailPct = 0;    // chance of a spurious compare_exchange_weak failure
    int           timeJumpPct = 3;    // chance that a sleeper wakes up early in wall time (i.e. time jumps)
    int           spinLimit  = 40;    // consecutive points before an implicit yield
    int           spuriousCvPct = 0;
};

class Sched {
public:
    Config                              cfg;
    std::vector<std::unique_ptr<Fiber>> fibers;
    std::vector<char *>                 stackPool;
    ucontext_t                          mainCtx{};
    Fiber                              *cur   = nullptr;
    std::int64_t                        vtime = 1'000'000'000; // ns
    long                                steps = 0;
    bool                                stuck = false;
    std::string                         stuckWhy;
    int                                 preemptions = 0;
    std::mt19937_64                     rng{ 1 };
    // DFS
    struct Choice {
        int n, k;
    };
    std::vector<Choice>      path;
    std::size_t              pathPos = 0;
    std::vector<long>        pctPoints;
    int                      pctLow = 0;
    EhGlobals                mainEh;
    VC                       mainVc;
    std::vector<std::string> log;
    static constexpr std::size_t STACK = 256 * 1024;

    static Sched &get() {
        static Sched s;
        return s;
    }

    int choose(int n) { // oracle among n alternatives
        if (n <= 1) return 0;
        if (cfg.mode == Mode::DFS) {
            if (pathPos < path.size()) {
                auto &c = path[pathPos++];
                if (c.n != n) { // nondeterministic harness: should never happen
                    std::fprintf(stderr, "vsched: replay divergence %d != %d\n", c.n, n);
                    std::_Exit(70);
                }
                return c.k;
            }
            path.push_back({ n, 0 });
            ++pathPos;
            return 0;
        }
        return static_cast<int>(rng() % static_cast<std::uint64_t>(n));
    }
    bool chance(int pct) {
        if (pct <= 0 || cfg.mode == Mode::DFS) return false;
        return static_cast<int>(rng() % 100) < pct;
    }

    // advance DFS to next path, false if exhausted
    bool nextPath() {
        path.resize(std::min(path.size(), pathPos));
        while (!path.empty()) {
            if (path.back().k + 1 < path.back().n) {
                path.back().k++;
                return true;
            }
            path.pop_back();
        }
        return false;
    }

    Fiber *spawn(std::function<void()> f) {
        if (fibers.size() >= static_cast<std::size_t>(MAXT)) {
            std::fprintf(stderr, "vsched: too many fibers\n");
            std::_Exit(71);
        }
        auto fb   = std::make_unique<Fiber>();
        fb->id    = static_cast<int>(fibers.size());
        fb->body  = std::move(f);
        fb->stack = takeStack();
        if (cur) {
            fb->vc = cur->vc;
            tick(*cur);
        }
        fb->vc.c[fb->id] = 1;
        fb->prio         = cfg.mode == Mode::PCT ? static_cast<int>(1000 + rng() % 1000000) : 0;
        getcontext(&fb->ctx);
        fb->ctx.uc_stack.ss_sp   = fb->stack;
        fb->ctx.uc_stack.ss_size = STACK;
        fb->ctx.uc_link          = nullptr;
        makecontext(&fb->ctx, reinterpret_cast<void (*)()>(&Sched::entry), 0);
        fibers.push_back(std::move(fb));
        return fibers.back().get();
    }

    static void entry() {
        auto &s = get();
        try {
            s.cur->body();
        } catch (const std::exception &e) {
            std::fprintf(stderr, "vsched: uncaught exception in fiber %d: %s\n", s.cur->id, e.what());
            s.log.push_back(std::string("{\"e\":\"uncaught\"}"));
            s.stuck    = true;
            s.stuckWhy = "uncaught exception";
            s.leave();
        } catch (...) {
            s.stuck    = true;
            s.stuckWhy = "uncaught exception";
            s.leave();
        }
        s.cur->st = St::Done;
        s.cur->body = nullptr;
        s.wake(s.cur);
        s.resched(true);
        std::abort(); // not reached
    }

    void tick(Fiber &f) { f.vc.c[f.id]++; }

    template<typename F>
    void execute(F &&body, const Config &c) { // body runs as fiber 0
        cfg = c;
        fibers.clear();
        log.clear();
        vtime = 1'000'000'000;
        steps = 0;
        stuck = false;
        stuckWhy.clear();
        preemptions = 0;
        pathPos     = 0;
        rng.seed(c.seed * 0x9E3779B97F4A7C15ull + 12345);
        if (cfg.mode == Mode::PCT) {
            pctPoints.clear();
            for (int i = 0; i < cfg.pctDepth; ++i) pctPoints.push_back(static_cast<long>(rng() % static_cast<std::uint64_t>(std::max(1, cfg.pctLen))));
            pctLow = 999;
        }
        cur = nullptr;
        spawn(std::forward<F>(body));
        saveEh(mainEh);
        cur = fibers[0].get();
        restoreEh(cur->eh);
        swapcontext(&mainCtx, &cur->ctx);
        restoreEh(mainEh);
        cur = nullptr;
        for (auto &f : fibers) {
            if (f->st == St::Done) {
                stackPool.push_back(f->stack);
            } // abandoned fibers leak their stack on purpose (objects on it stay allocated)
        }
    }

    bool inFiber() const { return cur != nullptr; }

    // leave execution entirely (all threads done, or stuck)
    void leave() {
        if (stuck && std::getenv("VS_DEBUG")) {
            std::fprintf(stderr, "vsched: stuck: %s, vtime %ld, current %d\n", stuckWhy.c_str(), static_cast<long>(vtime), cur->id);
            for (auto &f : fibers) std::fprintf(stderr, "  fiber %d state %d steps %ld blocks %ld yields %ld yielded %d deadline %ld\n", f->id, static_cast<int>(f->st), static_cast<long>(f->ownSteps), static_cast<long>(f->blocks), static_cast<long>(f->yields), f->yielded, static_cast<long>(f->deadline));
        }
        saveEh(cur->eh);
        setcontext(&mainCtx);
    }

    void point(bool yielding = false) { // scheduling point; the current fiber stays runnable
        if (!cur) return;
        ++cur->ownSteps;
        if (++steps > cfg.maxSteps) {
            stuck    = true;
            stuckWhy = "step limit";
            leave();
        }
        if (++cur->runLen > cfg.spinLimit) yielding = true;
        cur->yielded = yielding;
        if (yielding) {
            cur->behind = 0;
            for (auto &f : fibers)
                if (f.get() != cur && f->st == St::Runnable) cur->behind |= 1u << f->id;
        }
        resched(yielding);
    }
    void yield() {
        if (!cur) return;
        ++cur->yields;
        point(true);
    }
    bool anyHeld() const { return std::any_of(fibers.begin(), fibers.end(), [this](const auto &f) { return f->heldUntil > steps; }); }
    // a point where a long delay is worth trying: the others get ahead by some steps
    void hotPoint() {
        if (!cur) return;
        if (cfg.mode != Mode::DFS && chance(25)) cur->heldUntil = steps + 3 + static_cast<long>(rng() % 60);
        point();
    }
    void block(const void *on, std::int64_t deadline = -1) {
        if (!cur) {
            std::fprintf(stderr, "vsched: block outside of fiber\n");
            std::_Exit(72);
        }
        ++cur->blocks;
        cur->st       = St::Blocked;
        cur->waitOn   = on;
        cur->deadline = deadline;
        cur->timedOut = false;
        if (++steps > cfg.maxSteps) {
            stuck    = true;
            stuckWhy = "step limit";
            leave();
        }
        resched(true);
    }
    void sleepUntil(std::int64_t t) {
        if (!cur) {
            vtime = std::max(vtime, t);
            return;
        }
        if (t <= vtime) {
            yield();
            return;
        }
        ++cur->blocks;
        cur->st       = St::Sleeping;
        cur->deadline = t;
        if (++steps > cfg.maxSteps) {
            stuck    = true;
            stuckWhy = "step limit";
            leave();
        }
        resched(true);
    }
    void wake(const void *on, int n = 1 << 30) {
        // which waiter is woken is a scheduler choice
        std::vector<Fiber *> w;
        for (auto &f : fibers)
            if (f->st == St::Blocked && f->waitOn == on) w.push_back(f.get());
        while (n > 0 && !w.empty()) {
            const int k = static_cast<int>(w.size()) <= n ? 0 : choose(static_cast<int>(w.size()));
            w[k]->st     = St::Runnable;
            w[k]->waitOn = nullptr;
            w[k]->deadline = -1;
            w.erase(w.begin() + k);
            --n;
        }
    }

private:
    char *takeStack() {
        if (!stackPool.empty()) {
            auto *s = stackPool.back();
            stackPool.pop_back();
            return s;
        }
        return static_cast<char *>(std::malloc(STACK));
    }
    static void saveEh(EhGlobals &g) { std::memcpy(&g, abi::__cxa_get_globals(), sizeof(void *) + sizeof(unsigned int)); }
    static void restoreEh(const EhGlobals &g) { std::memcpy(static_cast<void *>(abi::__cxa_get_globals()), &g, sizeof(void *) + sizeof(unsigned int)); }

    void        wakeTimers() {
        for (auto &f : fibers) {
            if (f->deadline >= 0 && f->deadline <= vtime && (f->st == St::Sleeping || f->st == St::Blocked)) {
                f->timedOut = f->st == St::Blocked;
                f->st       = St::Runnable;
                f->waitOn   = nullptr;
                f->deadline = -1;
            }
        }
    }

    void resched(bool forced) {
        wakeTimers();
        std::vector<Fiber *> en;
        const auto           collect = [&]() {
            en.clear();
            for (auto &f : fibers)
                if (f->st == St::Runnable) en.push_back(f.get());
        };
        collect();
        const auto nextDeadline = [&]() {
            std::int64_t d = -1;
            for (auto &f : fibers)
                if ((f->st == St::Sleeping || f->st == St::Blocked) && f->deadline >= 0 && (d < 0 || f->deadline < d)) d = f->deadline;
            return d;
        };
        if (!en.empty() && cfg.timeJumpPct > 0) {
            if (auto d = nextDeadline(); d >= 0 && chance(cfg.timeJumpPct)) {
                vtime = std::max(vtime, d);
                wakeTimers();
                collect();
            }
        }
        // if everybody runnable has merely yielded (spins) and somebody sleeps: let time pass
        if (!en.empty() && std::all_of(en.begin(), en.end(), [](Fiber *f) { return f->yielded; })) {
            if (auto d = nextDeadline(); d >= 0) {
                // alternate: let the spinners run a little, then time passes
                vtime += 20'000; // 20us per spin round
                wakeTimers();
                collect();
            }
        }
        if (en.empty()) {
            if (auto d = nextDeadline(); d >= 0) {
                vtime = std::max(vtime, d);
                wakeTimers();
                collect();
            }
        }
        if (en.empty()) {
            bool allDone = true;
            for (auto &f : fibers)
                if (f->st != St::Done && !f->abandonedByDetach) allDone = false;
            if (!allDone) {
                stuck    = true;
                stuckWhy = "deadlock";
            }
            leave();
        }
        Fiber *next = pick(en, forced);
        switchTo(next);
    }

    Fiber *pick(std::vector<Fiber *> &en, bool forced) {
        const bool curEnabled = cur->st == St::Runnable;
        // fairness: a fiber that yielded runs again only after every other one that could run was scheduled once
        std::uint32_t runnable = 0;
        for (auto *f : en) runnable |= 1u << f->id;
        std::vector<Fiber *> cand;
        for (auto *f : en)
            if ((f->behind & runnable) == 0) cand.push_back(f);
        if (cfg.mode != Mode::DFS && std::any_of(cand.begin(), cand.end(), [this](Fiber *f) { return f->heldUntil <= steps; }))
            std::erase_if(cand, [this](Fiber *f) { return f->heldUntil > steps; });
        if (cand.empty()) {
            for (auto *f : en)
                if (f != cur) cand.push_back(f);
            for (auto *f : en) f->behind = 0;
            if (cand.empty()) cand = en;
        }
        if (cfg.mode == Mode::DFS) {
            if (!forced && curEnabled) {
                // current first, then others (a preemption)
                std::vector<Fiber *> c{ cur };
                if (preemptions < cfg.bound)
                    for (auto *f : cand)
                        if (f != cur) c.push_back(f);
                auto k = choose(static_cast<int>(c.size()));
                if (k != 0) ++preemptions;
                return c[k];
            }
            return cand[choose(static_cast<int>(cand.size()))];
        }
        if (cfg.mode == Mode::PCT) {
            for (auto p : pctPoints)
                if (p == steps) cur->prio = pctLow--;
            if (forced && curEnabled && cur->yielded) cur->prio = pctLow--; // spinning threads lose priority
            return *std::max_element(cand.begin(), cand.end(), [](auto *a, auto *b) { return a->prio < b->prio; });
        }
        if (!forced && curEnabled && cur->heldUntil <= steps && !chance(cfg.switchPct)) return cur;
        return cand[choose(static_cast<int>(cand.size()))];
    }

    void switchTo(Fiber *next) {
        if (next == cur) {
            return;
        }
        Fiber *old  = cur;
        next->runLen  = 0;
        old->runLen   = 0;
        for (auto &f : fibers) f->behind &= ~(1u << next->id);
        saveEh(old->eh);
        cur = next;
        restoreEh(next->eh);
        swapcontext(&old->ctx, &next->ctx);
    }
};

inline Sched &S() { return Sched::get(); }
inline void   point() { S().point(); }
inline void   yield() { S().yield(); }
inline int    self() { return S().cur ? S().cur->id : -1; }
inline VC    &vc() { return S().cur ? S().cur->vc : S().mainVc; }

// ---- happens-before bookkeeping --------------------------------------------------------------------------------
inline bool isAcq(std::memory_order m) { return m == std::memory_order_acquire || m == std::memory_order_consume || m == std::memory_order_acq_rel || m == std::memory_order_seq_cst; }
inline bool isRel(std::memory_order m) { return m == std::memory_order_release || m == std::memory_order_acq_rel || m == std::memory_order_seq_cst; }

struct Sync {
    VC   rel;
    void onLoad(std::memory_order m) const {
        auto *f = S().cur;
        if (!f) {
            S().mainVc.join(rel);
            return;
        }
        if (isAcq(m)) f->vc.join(rel);
        else f->acqPending.join(rel);
    }
    void onStore(std::memory_order m) {
        auto *f = S().cur;
        if (!f) {
            rel = S().mainVc;
            return;
        }
        if (isRel(m)) {
            rel = f->vc;
            S().tick(*f);
        } else rel = f->relFence;
    }
    void onRmw(std::memory_order m) {
        auto *f = S().cur;
        if (!f) {
            S().mainVc.join(rel);
            rel.join(S().mainVc);
            return;
        }
        if (isAcq(m)) f->vc.join(rel);
        else f->acqPending.join(rel);
        if (isRel(m)) {
            rel.join(f->vc);
            S().tick(*f);
        } else rel.join(f->relFence);
    }
};
inline void fence(std::memory_order m) {
    auto *f = S().cur;
    if (!f) return;
    point();
    if (isAcq(m)) f->vc.join(f->acqPending);
    if (isRel(m)) {
        f->relFence = f->vc;
        S().tick(*f);
    }
}

// payload cell: plain (non-atomic) memory as seen by user code; detects unordered accesses
struct RaceCell {
    int           wTid = -1;
    std::uint32_t wClk = 0;
    VC            reads;
    bool          onWrite() { // true: properly ordered
        auto *f  = S().cur;
        bool  ok = true;
        if (!f) {
            wTid = -1;
            reads.clear();
            return true;
        }
        if (wTid >= 0 && f->vc.c[wTid] < wClk) ok = false;
        if (!reads.leq(f->vc)) ok = false;
        wTid = f->id;
        wClk = f->vc.c[f->id];
        reads.clear();
        return ok;
    }
    bool onRead() {
        auto *f = S().cur;
        if (!f) return true;
        bool ok           = !(wTid >= 0 && f->vc.c[wTid] < wClk);
        reads.c[f->id]    = f->vc.c[f->id];
        return ok;
    }
};

// ---- atomics ----------------------------------------------------------------------------------------------------
template<typename T>
struct atomic_base {
    T            _v{};
    mutable Sync _s;
    using value_type                          = T;
    static constexpr bool is_always_lock_free = true;
    constexpr atomic_base() noexcept          = default;
    constexpr atomic_base(T v) noexcept : _v(std::move(v)) {}
    atomic_base(const atomic_base &)            = delete;
    atomic_base &operator=(const atomic_base &) = delete;
    bool         is_lock_free() const noexcept { return true; }

    T            load(std::memory_order m = std::memory_order_seq_cst) const noexcept {
        point();
        _s.onLoad(m);
        return _v;
    }
    void store(T v, std::memory_order m = std::memory_order_seq_cst) noexcept {
        point();
        _s.onStore(m);
        _v = std::move(v);
    }
    T exchange(T v, std::memory_order m = std::memory_order_seq_cst) noexcept {
        point();
        _s.onRmw(m);
        std::swap(_v, v);
        return v;
    }
    static bool same(const T &a, const T &b) {
        if constexpr (requires { a == b; }) return a == b;
        else return std::memcmp(&a, &b, sizeof(T)) == 0;
    }
    bool compare_exchange_strong(T &e, T d, std::memory_order s, std::memory_order f) noexcept {
        point();
        if (same(_v, e)) {
            _s.onRmw(s);
            _v = std::move(d);
            return true;
        }
        _s.onLoad(f);
        e = _v;
        return false;
    }
    static constexpr std::memory_order failOrder(std::memory_order m) { return m == std::memory_order_acq_rel ? std::memory_order_acquire : m == std::memory_order_release ? std::memory_order_relaxed
                                                                                                                                                                      : m; }
    bool                               compare_exchange_strong(T &e, T d, std::memory_order m = std::memory_order_seq_cst) noexcept { return compare_exchange_strong(e, std::move(d), m, failOrder(m)); }
    bool                               compare_exchange_weak(T &e, T d, std::memory_order s, std::memory_order f) noexcept {
        if (S().cur && S().chance(S().cfg.weakFailPct)) {
            point();
            _s.onLoad(f);
            e = _v;
            return false;
        }
        return compare_exchange_strong(e, std::move(d), s, f);
    }
    bool compare_exchange_weak(T &e, T d, std::memory_order m = std::memory_order_seq_cst) noexcept { return compare_exchange_weak(e, std::move(d), m, failOrder(m)); }

    T    operator=(T v) noexcept {
        store(v);
        return v;
    }
    operator T() const noexcept { return load(); }

    void wait(const T &old, std::memory_order m = std::memory_order_seq_cst) const noexcept {
        while (true) {
            T cur = load(m);
            if (!same(cur, old)) return;
            S().block(this);
        }
    }
    void notify_one() noexcept {
        point();
        S().wake(this, 1);
    }
    void notify_all() noexcept {
        point();
        S().wake(this);
    }
    template<typename F>
    T rmw(F f, std::memory_order m) noexcept {
        point();
        _s.onRmw(m);
        T old = _v;
        _v    = f(old);
        return old;
    }
};

template<typename T, typename = void>
struct atomic : atomic_base<T> {
    using atomic_base<T>::atomic_base;
    using atomic_base<T>::operator=;
    constexpr atomic() noexcept = default;
};
template<typename T>
struct atomic<T, std::enable_if_t<(std::is_integral_v<T> && !std::is_same_v<T, bool>) || std::is_floating_point_v<T>>> : atomic_base<T> {
    using B = atomic_base<T>;
    using B::B;
    using B::operator=;
    using difference_type = T;
    constexpr atomic() noexcept = default;
    static constexpr auto sc = std::memory_order_seq_cst;
    static T add(T a, T b) {
        if constexpr (std::is_integral_v<T>) return static_cast<T>(static_cast<std::make_unsigned_t<T>>(a) + static_cast<std::make_unsigned_t<T>>(b));
        else return a + b;
    }
    static T sub(T a, T b) {
        if constexpr (std::is_integral_v<T>) return static_cast<T>(static_cast<std::make_unsigned_t<T>>(a) - static_cast<std::make_unsigned_t<T>>(b));
        else return a - b;
    }
    T                     fetch_add(T d, std::memory_order m = sc) noexcept { return B::rmw([d](T x) { return add(x, d); }, m); }
    T                     fetch_sub(T d, std::memory_order m = sc) noexcept { return B::rmw([d](T x) { return sub(x, d); }, m); }
    T                     fetch_or(T d, std::memory_order m = sc) noexcept requires std::is_integral_v<T> { return B::rmw([d](T x) { return static_cast<T>(x | d); }, m); }
    T                     fetch_and(T d, std::memory_order m = sc) noexcept requires std::is_integral_v<T> { return B::rmw([d](T x) { return static_cast<T>(x & d); }, m); }
    T                     fetch_xor(T d, std::memory_order m = sc) noexcept requires std::is_integral_v<T> { return B::rmw([d](T x) { return static_cast<T>(x ^ d); }, m); }
    T                     operator++() noexcept { return add(fetch_add(1), 1); }
    T                     operator++(int) noexcept { return fetch_add(1); }
    T                     operator--() noexcept { return sub(fetch_sub(1), 1); }
    T                     operator--(int) noexcept { return fetch_sub(1); }
    T                     operator+=(T d) noexcept { return add(fetch_add(d), d); }
    T                     operator-=(T d) noexcept { return sub(fetch_sub(d), d); }
    T                     operator|=(T d) noexcept requires std::is_integral_v<T> { return fetch_or(d) | d; }
    T                     operator&=(T d) noexcept requires std::is_integral_v<T> { return fetch_and(d) & d; }
    T                     operator^=(T d) noexcept requires std::is_integral_v<T> { return fetch_xor(d) ^ d; }
};
template<typename P>
struct atomic<P *, void> : atomic_base<P *> {
    using B = atomic_base<P *>;
    using B::B;
    using B::operator=;
    using difference_type = std::ptrdiff_t;
    constexpr atomic() noexcept = default;
    P *fetch_add(std::ptrdiff_t d, std::memory_order m = std::memory_order_seq_cst) noexcept { return B::rmw([d](P *x) { return x + d; }, m); }
    P *fetch_sub(std::ptrdiff_t d, std::memory_order m = std::memory_order_seq_cst) noexcept { return B::rmw([d](P *x) { return x - d; }, m); }
};
template<typename T>
atomic(T) -> atomic<T>;

// atomic_ref: happens-before state keyed by address for the duration of an execution
inline std::unordered_map<const void *, Sync> &refSync() {
    static std::unordered_map<const void *, Sync> m;
    return m;
}
template<typename T>
struct atomic_ref {
    T                *_p;
    explicit atomic_ref(T &t) : _p(&t) {}
    Sync             &s() const { return refSync()[_p]; }
    T                 load(std::memory_order m = std::memory_order_seq_cst) const noexcept {
        point();
        s().onLoad(m);
        return *_p;
    }
    void store(T v, std::memory_order m = std::memory_order_seq_cst) const noexcept {
        point();
        s().onStore(m);
        *_p = v;
    }
    T exchange(T v, std::memory_order m = std::memory_order_seq_cst) const noexcept {
        point();
        s().onRmw(m);
        std::swap(*_p, v);
        return v;
    }
    bool compare_exchange_strong(T &e, T d, std::memory_order m = std::memory_order_seq_cst) const noexcept {
        point();
        if (atomic_base<T>::same(*_p, e)) {
            s().onRmw(m);
            *_p = d;
            return true;
        }
        s().onLoad(atomic_base<T>::failOrder(m));
        e = *_p;
        return false;
    }
    bool compare_exchange_strong(T &e, T d, std::memory_order m, std::memory_order) const noexcept { return compare_exchange_strong(e, d, m); }
    bool compare_exchange_weak(T &e, T d, std::memory_order m = std::memory_order_seq_cst) const noexcept { return compare_exchange_strong(e, d, m); }
    bool compare_exchange_weak(T &e, T d, std::memory_order m, std::memory_order) const noexcept { return compare_exchange_strong(e, d, m); }
    T    fetch_add(T d, std::memory_order m = std::memory_order_seq_cst) const noexcept {
        point();
        s().onRmw(m);
        T o = *_p;
        *_p = o + d;
        return o;
    }
    T fetch_sub(T d, std::memory_order m = std::memory_order_seq_cst) const noexcept {
        point();
        s().onRmw(m);
        T o = *_p;
        *_p = o - d;
        return o;
    }
    operator T() const noexcept { return load(); }
    T operator=(T v) const noexcept {
        store(v);
        return v;
    }
};

struct atomic_flag {
    bool           _v = false;
    mutable Sync   _s;
    constexpr atomic_flag() noexcept = default;
    constexpr atomic_flag(int v) noexcept : _v(v != 0) {}
    atomic_flag(const atomic_flag &)            = delete;
    atomic_flag &operator=(const atomic_flag &) = delete;
    bool         test_and_set(std::memory_order m = std::memory_order_seq_cst) noexcept {
        point();
        _s.onRmw(m);
        return std::exchange(_v, true);
    }
    void clear(std::memory_order m = std::memory_order_seq_cst) noexcept {
        point();
        _s.onStore(m);
        _v = false;
    }
    bool test(std::memory_order m = std::memory_order_seq_cst) const noexcept {
        point();
        _s.onLoad(m);
        return _v;
    }
    void wait(bool old, std::memory_order m = std::memory_order_seq_cst) const noexcept {
        while (test(m) == old) S().block(this);
    }
    void notify_one() noexcept {
        point();
        S().wake(this, 1);
    }
    void notify_all() noexcept {
        point();
        S().wake(this);
    }
};

// free functions on vs::atomic
template<typename T> T    atomic_load(const atomic<T> *a) noexcept { return a->load(); }
template<typename T> T    atomic_load_explicit(const atomic<T> *a, std::memory_order m) noexcept { return a->load(m); }
template<typename T> void atomic_store(atomic<T> *a, std::type_identity_t<T> v) noexcept { a->store(std::move(v)); }
template<typename T> void atomic_store_explicit(atomic<T> *a, std::type_identity_t<T> v, std::memory_order m) noexcept { a->store(std::move(v), m); }
template<typename T> T    atomic_exchange(atomic<T> *a, std::type_identity_t<T> v) noexcept { return a->exchange(std::move(v)); }
template<typename T> T    atomic_exchange_explicit(atomic<T> *a, std::type_identity_t<T> v, std::memory_order m) noexcept { return a->exchange(std::move(v), m); }
template<typename T> bool atomic_compare_exchange_strong(atomic<T> *a, std::type_identity_t<T> *e, std::type_identity_t<T> d) noexcept { return a->compare_exchange_strong(*e, std::move(d)); }
template<typename T> bool atomic_compare_exchange_weak(atomic<T> *a, std::type_identity_t<T> *e, std::type_identity_t<T> d) noexcept { return a->compare_exchange_weak(*e, std::move(d)); }
template<typename T> bool atomic_compare_exchange_strong_explicit(atomic<T> *a, std::type_identity_t<T> *e, std::type_identity_t<T> d, std::memory_order s, std::memory_order f) noexcept { return a->compare_exchange_strong(*e, std::move(d), s, f); }
template<typename T> bool atomic_compare_exchange_weak_explicit(atomic<T> *a, std::type_identity_t<T> *e, std::type_identity_t<T> d, std::memory_order s, std::memory_order f) noexcept { return a->compare_exchange_weak(*e, std::move(d), s, f); }
template<typename T> T    atomic_fetch_add(atomic<T> *a, std::type_identity_t<T> v) noexcept { return a->fetch_add(v); }
template<typename T> T    atomic_fetch_sub(atomic<T> *a, std::type_identity_t<T> v) noexcept { return a->fetch_sub(v); }
template<typename T> T    atomic_fetch_add_explicit(atomic<T> *a, std::type_identity_t<T> v, std::memory_order m) noexcept { return a->fetch_add(v, m); }
template<typename T> T    atomic_fetch_sub_explicit(atomic<T> *a, std::type_identity_t<T> v, std::memory_order m) noexcept { return a->fetch_sub(v, m); }
template<typename T> T    atomic_fetch_or(atomic<T> *a, std::type_identity_t<T> v) noexcept { return a->fetch_or(v); }
template<typename T> T    atomic_fetch_and(atomic<T> *a, std::type_identity_t<T> v) noexcept { return a->fetch_and(v); }
template<typename T> T    atomic_fetch_or_explicit(atomic<T> *a, std::type_identity_t<T> v, std::memory_order m) noexcept { return a->fetch_or(v, m); }
template<typename T> T    atomic_fetch_and_explicit(atomic<T> *a, std::type_identity_t<T> v, std::memory_order m) noexcept { return a->fetch_and(v, m); }
inline bool               atomic_flag_test_and_set(atomic_flag *f) noexcept { return f->test_and_set(); }
inline bool               atomic_flag_test_and_set_explicit(atomic_flag *f, std::memory_order m) noexcept { return f->test_and_set(m); }
inline void               atomic_flag_clear(atomic_flag *f) noexcept { f->clear(); }
inline void               atomic_flag_clear_explicit(atomic_flag *f, std::memory_order m) noexcept { f->clear(m); }
// shared_ptr overloads (sequentially consistent)
template<typename T> std::shared_ptr<T> atomic_load(const std::shared_ptr<T> *p) noexcept {
    point();
    refSync()[p].onLoad(std::memory_order_seq_cst);
    return *p;
}
template<typename T> std::shared_ptr<T> atomic_load_explicit(const std::shared_ptr<T> *p, std::memory_order m) noexcept {
    point();
    refSync()[p].onLoad(m);
    return *p;
}
template<typename T> void atomic_store(std::shared_ptr<T> *p, std::shared_ptr<T> v) noexcept {
    point();
    refSync()[p].onStore(std::memory_order_seq_cst);
    p->swap(v);
}
template<typename T> void atomic_store_explicit(std::shared_ptr<T> *p, std::shared_ptr<T> v, std::memory_order m) noexcept {
    point();
    refSync()[p].onStore(m);
    p->swap(v);
}
template<typename T> std::shared_ptr<T> atomic_exchange(std::shared_ptr<T> *p, std::shared_ptr<T> v) noexcept {
    point();
    refSync()[p].onRmw(std::memory_order_seq_cst);
    p->swap(v);
    return v;
}
template<typename T> bool atomic_compare_exchange_strong(std::shared_ptr<T> *p, std::shared_ptr<T> *e, std::shared_ptr<T> d) noexcept {
    point();
    if (*p == *e) {
        refSync()[p].onRmw(std::memory_order_seq_cst);
        p->swap(d);
        return true;
    }
    refSync()[p].onLoad(std::memory_order_seq_cst);
    *e = *p;
    return false;
}
template<typename T> bool atomic_compare_exchange_weak(std::shared_ptr<T> *p, std::shared_ptr<T> *e, std::shared_ptr<T> d) noexcept { return ::vs::atomic_compare_exchange_strong(p, e, std::move(d)); }

// ---- virtual time -----------------------------------------------------------------------------------------------
template<typename Dur, bool steady>
struct vclock {
    using duration                  = Dur;
    using rep                       = typename duration::rep;
    using period                    = typename duration::period;
    static constexpr bool is_steady = steady;
};
struct steady_clock {
    using duration                  = std::chrono::nanoseconds;
    using rep                       = duration::rep;
    using period                    = duration::period;
    using time_point                = std::chrono::time_point<steady_clock, duration>;
    static constexpr bool is_steady = true;
    static time_point     now() noexcept {
        if (S().cur) S().vtime += 100;
        return time_point(duration(S().vtime));
    }
};
struct system_clock {
    using duration                  = std::chrono::nanoseconds;
    using rep                       = duration::rep;
    using period                    = duration::period;
    using time_point                = std::chrono::time_point<system_clock, duration>;
    static constexpr bool        is_steady = false;
    static constexpr std::int64_t epoch     = 1'700'000'000'000'000'000ll;
    static time_point            now() noexcept {
        if (S().cur) S().vtime += 100;
        return time_point(duration(epoch + S().vtime));
    }
    static std::time_t to_time_t(const time_point &t) noexcept { return static_cast<std::time_t>(t.time_since_epoch().count() / 1'000'000'000); }
    static time_point  from_time_t(std::time_t t) noexcept { return time_point(std::chrono::seconds(t)); }
};

template<typename Rep, typename Period>
std::int64_t deadlineOf(const std::chrono::duration<Rep, Period> &d) {
    const auto ns = std::chrono::duration_cast<std::chrono::duration<long double, std::nano>>(d).count();
    if (ns <= 0) return S().vtime;
    if (ns > 9.0e17L) return std::int64_t(4) * 1'000'000'000'000'000'000ll;
    return S().vtime + static_cast<std::int64_t>(ns);
}
template<typename C, typename D>
std::int64_t deadlineOf(const std::chrono::time_point<C, D> &t) {
    const auto ns = std::chrono::duration_cast<std::chrono::duration<long double, std::nano>>(t.time_since_epoch()).count();
    if constexpr (std::is_same_v<C, system_clock>) return static_cast<std::int64_t>(std::min(ns - static_cast<long double>(system_clock::epoch), 4.0e18L));
    else return static_cast<std::int64_t>(std::min(ns, 4.0e18L));
}

// ---- mutexes ----------------------------------------------------------------------------------------------------
struct mutex {
    int  owner = -2; // -2: free
    int  depth = 0;
    bool recursive = false;
    Sync s;
    constexpr mutex() noexcept     = default;
    mutex(const mutex &)            = delete;
    mutex &operator=(const mutex &) = delete;
    void   lock() {
        point();
        while (owner != -2 && !(recursive && owner == self())) S().block(this);
        owner = self();
        ++depth;
        s.onLoad(std::memory_order_acquire);
    }
    bool try_lock() {
        point();
        if (owner != -2 && !(recursive && owner == self())) return false;
        owner = self();
        ++depth;
        s.onLoad(std::memory_order_acquire);
        return true;
    }
    void unlock() {
        point();
        if (--depth > 0) return;
        owner = -2;
        depth = 0;
        s.onStore(std::memory_order_release);
        S().wake(this);
    }
    using native_handle_type = void *;
};
struct recursive_mutex : mutex {
    recursive_mutex() noexcept { recursive = true; }
};
struct timed_mutex : mutex {
    template<typename D>
    bool try_lock_for(const D &d) {
        const auto dl = deadlineOf(d);
        point();
        while (owner != -2) {
            S().block(this, dl);
            if (S().cur->timedOut && owner != -2) return false;
        }
        owner = self();
        ++depth;
        s.onLoad(std::memory_order_acquire);
        return true;
    }
    template<typename D>
    bool try_lock_until(const D &d) { return try_lock_for(std::chrono::nanoseconds(deadlineOf(d) - S().vtime)); }
};
struct shared_mutex {
    int  writer = -2, readers = 0;
    Sync s;
    void lock() {
        point();
        while (writer != -2 || readers > 0) S().block(this);
        writer = self();
        s.onLoad(std::memory_order_acquire);
    }
    bool try_lock() {
        point();
        if (writer != -2 || readers > 0) return false;
        writer = self();
        s.onLoad(std::memory_order_acquire);
        return true;
    }
    void unlock() {
        point();
        writer = -2;
        s.onStore(std::memory_order_release);
        S().wake(this);
    }
    void lock_shared() {
        point();
        while (writer != -2) S().block(this);
        ++readers;
        s.onLoad(std::memory_order_acquire);
    }
    bool try_lock_shared() {
        point();
        if (writer != -2) return false;
        ++readers;
        s.onLoad(std::memory_order_acquire);
        return true;
    }
    void unlock_shared() {
        point();
        --readers;
        s.onRmw(std::memory_order_release);
        S().wake(this);
    }
};
using shared_timed_mutex = shared_mutex;

struct condition_variable_any {
    condition_variable_any()                                          = default;
    condition_variable_any(const condition_variable_any &)            = delete;
    condition_variable_any &operator=(const condition_variable_any &) = delete;
    void                    notify_one() noexcept {
        point();
        S().wake(this, 1);
    }
    void notify_all() noexcept {
        point();
        S().wake(this);
    }
    template<typename L>
    void wait(L &l) {
        blockOn(l, -1);
    }
    template<typename L, typename P>
    void wait(L &l, P p) {
        while (!p()) wait(l);
    }
    template<typename L, typename D>
    std::cv_status wait_for(L &l, const D &d) { return blockOn(l, deadlineOf(d)); }
    template<typename L, typename D, typename P>
    bool wait_for(L &l, const D &d, P p) {
        const auto dl = deadlineOf(d);
        while (!p())
            if (blockOn(l, dl) == std::cv_status::timeout) return p();
        return true;
    }
    template<typename L, typename D>
    std::cv_status wait_until(L &l, const D &d) { return blockOn(l, deadlineOf(d)); }
    template<typename L, typename D, typename P>
    bool wait_until(L &l, const D &d, P p) {
        const auto dl = deadlineOf(d);
        while (!p())
            if (blockOn(l, dl) == std::cv_status::timeout) return p();
        return true;
    }

private:
    template<typename L>
    std::cv_status blockOn(L &l, std::int64_t dl) {
        // unlocking and starting to wait are one atomic step for whoever notifies under the lock; a notification
        // issued between the unlock and the block would be lost if unlock() itself were a scheduling point that
        // precedes registration: register first.
        auto *f = S().cur;
        if (!f) {
            std::fprintf(stderr, "vsched: cv wait outside of fiber\n");
            std::_Exit(73);
        }
        if (S().chance(S().cfg.spuriousCvPct)) {
            l.unlock();
            point();
            l.lock();
            return std::cv_status::no_timeout;
        }
        S().hotPoint(); // between the caller's look at the condition and the start of the wait
        ticket++;
        waiting[f->id] = ticket;
        // release the lock without a scheduling point in between
        unlockQuiet(l);
        S().block(this, dl);
        const bool to = S().cur->timedOut;
        S().cur->timedOut = false;
        l.lock();
        return to ? std::cv_status::timeout : std::cv_status::no_timeout;
    }
    template<typename L>
    static void unlockQuiet(L &l) {
        auto saved = S().cfg.maxSteps;
        (void) saved;
        if constexpr (requires { l.mutex(); l.release(); }) {
            quiet(*l.mutex());
            auto *m = l.release();
            l       = L(*m, std::defer_lock);
        } else if constexpr (std::is_base_of_v<mutex, L>) {
            quiet(l);
        } else {
            l.unlock();
        }
    }
    template<typename M>
    static void quiet(M &m) {
        if constexpr (std::is_base_of_v<mutex, M>) {
            m.owner = -2;
            m.depth = 0;
            m.s.onStore(std::memory_order_release);
            S().wake(&m);
        } else {
            m.unlock();
        }
    }
    std::map<int, int> waiting;
    int                ticket = 0;
};
using condition_variable = condition_variable_any;

template<std::ptrdiff_t Max = 1 << 20>
struct counting_semaphore {
    std::ptrdiff_t n;
    Sync           s;
    explicit counting_semaphore(std::ptrdiff_t v) : n(v) {}
    void acquire() {
        point();
        while (n == 0) S().block(this);
        --n;
        s.onLoad(std::memory_order_acquire);
    }
    bool try_acquire() {
        point();
        if (n == 0) return false;
        --n;
        s.onLoad(std::memory_order_acquire);
        return true;
    }
    template<typename D>
    bool try_acquire_for(const D &d) {
        const auto dl = deadlineOf(d);
        point();
        while (n == 0) {
            S().block(this, dl);
            if (S().cur->timedOut && n == 0) return false;
        }
        --n;
        s.onLoad(std::memory_order_acquire);
        return true;
    }
    void release(std::ptrdiff_t k = 1) {
        point();
        n += k;
        s.onRmw(std::memory_order_release);
        S().wake(this);
    }
};
using binary_semaphore = counting_semaphore<1>;
struct latch {
    std::ptrdiff_t n;
    Sync           s;
    explicit latch(std::ptrdiff_t v) : n(v) {}
    void count_down(std::ptrdiff_t k = 1) {
        point();
        n -= k;
        s.onRmw(std::memory_order_release);
        if (n <= 0) S().wake(this);
    }
    bool try_wait() const {
        point();
        return n <= 0;
    }
    void wait() {
        point();
        while (n > 0) S().block(this);
        s.onLoad(std::memory_order_acquire);
    }
    void arrive_and_wait() {
        count_down();
        wait();
    }
};

// ---- threads ----------------------------------------------------------------------------------------------------
struct thread {
    Fiber *f = nullptr;
    struct id {
        int                 v                                 = -1;
        auto                operator<=>(const id &) const     = default;
        friend std::ostream &operator<<(std::ostream &o, id i) { return o << i.v; }
    };
    using native_handle_type = pthread_t;
    thread() noexcept        = default;
    template<typename F, typename... A>
        requires(!std::is_same_v<std::remove_cvref_t<F>, thread>)
    explicit thread(F &&fn, A &&...args) {
        auto call = [fn = std::decay_t<F>(std::forward<F>(fn)), tup = std::tuple<std::decay_t<A>...>(std::forward<A>(args)...)]() mutable {
            std::apply([&](auto &...a) { std::invoke(std::move(fn), std::move(a)...); }, tup);
        };
        auto sp = std::make_shared<decltype(call)>(std::move(call));
        f       = S().spawn([sp]() mutable { (*sp)(); });
        point();
    }
    thread(thread &&o) noexcept : f(std::exchange(o.f, nullptr)) {}
    thread &operator=(thread &&o) noexcept {
        if (joinable()) std::terminate();
        f = std::exchange(o.f, nullptr);
        return *this;
    }
    thread(const thread &) = delete;
    ~thread() {
        if (joinable()) std::terminate();
    }
    bool joinable() const noexcept { return f != nullptr; }
    void join() {
        if (!f) throw std::system_error(std::make_error_code(std::errc::invalid_argument));
        point();
        while (f->st != St::Done) S().block(f);
        if (S().cur) S().cur->vc.join(f->vc);
        f = nullptr;
    }
    void detach() {
        if (!f) throw std::system_error(std::make_error_code(std::errc::invalid_argument));
        f->abandonedByDetach = true;
        f                    = nullptr;
    }
    void               swap(thread &o) noexcept { std::swap(f, o.f); }
    id                 get_id() const noexcept { return id{ f ? f->id : -1 }; }
    native_handle_type native_handle() { return pthread_self(); }
    static unsigned    hardware_concurrency() noexcept { return 4; }
};
struct jthread {
    std::stop_source src{ std::nostopstate };
    thread           t;
    using id                 = thread::id;
    using native_handle_type = pthread_t;
    jthread() noexcept       = default;
    template<typename F, typename... A>
        requires(!std::is_same_v<std::remove_cvref_t<F>, jthread>)
    explicit jthread(F &&fn, A &&...args) : src() {
        if constexpr (std::is_invocable_v<std::decay_t<F>, std::stop_token, std::decay_t<A>...>) {
            t = thread(std::forward<F>(fn), src.get_token(), std::forward<A>(args)...);
        } else {
            t = thread(std::forward<F>(fn), std::forward<A>(args)...);
        }
    }
    jthread(jthread &&) noexcept = default;
    jthread &operator=(jthread &&o) noexcept {
        if (joinable()) {
            request_stop();
            join();
        }
        src = std::move(o.src);
        t   = std::move(o.t);
        return *this;
    }
    ~jthread() {
        if (joinable()) {
            request_stop();
            join();
        }
    }
    bool               joinable() const noexcept { return t.joinable(); }
    void               join() { t.join(); }
    void               detach() { t.detach(); }
    bool               request_stop() noexcept { return src.request_stop(); }
    std::stop_token    get_stop_token() const noexcept { return src.get_token(); }
    std::stop_source   get_stop_source() noexcept { return src; }
    id                 get_id() const noexcept { return t.get_id(); }
    native_handle_type native_handle() { return pthread_self(); }
    static unsigned    hardware_concurrency() noexcept { return 4; }
};

// ---- driver -----------------------------------------------------------------------------------------------------
inline void log(std::string s) { S().log.push_back(std::move(s)); }
template<typename... A>
void logf(std::format_string<A...> f, A &&...a) { S().log.push_back(std::format(f, std::forward<A>(a)...)); }

// one explored program: `body` is run as fiber 0 under many schedules; distinct logs are written as one JSON trace each
struct Explorer {
    std::FILE                      *out = nullptr;
    std::unordered_set<std::string> seen;
    long                            executions = 0, distinct = 0, stuckRuns = 0, maxDistinct = 1000000;
    long                            pointsTotal = 0;
    bool                            dfsExhausted = false;
    std::string                     meta; // JSON members put in front of "ev"
    std::function<void()>           afterRun;

    explicit Explorer(const char *file) : out(std::fopen(file, "w")) {
        if (!out) {
            std::perror(file);
            std::_Exit(74);
        }
    }
    ~Explorer() {
        if (out) std::fclose(out);
    }
    void emit(const Config &c) {
        auto &s = S();
        ++executions;
        pointsTotal += s.steps;
        std::string tr;
        for (std::size_t i = 0; i < s.log.size(); ++i) {
            if (i) tr += ",";
            tr += s.log[i];
        }
        if (s.stuck) {
            ++stuckRuns;
            if (!tr.empty()) tr += ",";
            tr += std::format("{{\"e\":\"stuck\",\"k\":\"stuck\",\"t\":0,\"why\":\"{}\"}}", s.stuckWhy);
        }
        std::string key = meta + "|" + tr;
        if (!seen.insert(std::to_string(std::hash<std::string>{}(key)) + ":" + std::to_string(key.size())).second) return;
        if (distinct >= maxDistinct) return;
        ++distinct;
        std::fprintf(out, "{%s%s\"seed\":%llu,\"mode\":%d,\"ev\":[%s]}\n", meta.c_str(), meta.empty() ? "" : ",", static_cast<unsigned long long>(c.seed % 1000000007ull), static_cast<int>(c.mode), tr.c_str());
        std::fflush(out);
    }
    template<typename F>
    void random(F &&body, int n, std::uint64_t seed0, Config c = {}) {
        for (int i = 0; i < n; ++i) {
            c.seed = seed0 * 1000003ull + static_cast<std::uint64_t>(i);
            switch (i % 4) {
            case 0: c.mode = Mode::Random; c.switchPct = 50; break;
            case 1: c.mode = Mode::PCT; c.pctDepth = 3; break;
            case 2: c.mode = Mode::Random; c.switchPct = 15; break;
            default: c.mode = Mode::PCT; c.pctDepth = 6; break;
            }
            refSync().clear();
            S().execute(body, c);
            emit(c);
            if (afterRun) afterRun();
        }
    }
    template<typename F>
    bool dfs(F &&body, long maxExec, int bound, Config c = {}) {
        c.mode  = Mode::DFS;
        c.bound = bound;
        S().path.clear();
        for (long i = 0; i < maxExec; ++i) {
            c.seed = static_cast<std::uint64_t>(i);
            refSync().clear();
            S().execute(body, c);
            emit(c);
            if (afterRun) afterRun();
            if (!S().nextPath()) {
                dfsExhausted = true;
                return true;
            }
        }
        return false;
    }
};

} // namespace vs

// ---- shadow of std inside opencmw -------------------------------------------------------------------------------
#define VS_SHADOW_STD                                                                                                  \
    namespace std {                                                                                                    \
    using namespace ::std;                                                                                             \
    using ::vs::atomic;                                                                                                \
    using ::vs::atomic_ref;                                                                                            \
    using ::vs::atomic_flag;                                                                                           \
    using atomic_bool = ::vs::atomic<bool>;                                                                            \
    using atomic_int = ::vs::atomic<int>;                                                                              \
    using atomic_uint = ::vs::atomic<unsigned>;                                                                        \
    using atomic_long = ::vs::atomic<long>;                                                                            \
    using atomic_size_t = ::vs::atomic<::std::size_t>;                                                                 \
    using atomic_int32_t = ::vs::atomic<::std::int32_t>;                                                               \
    using atomic_uint32_t = ::vs::atomic<::std::uint32_t>;                                                             \
    using atomic_int64_t = ::vs::atomic<::std::int64_t>;                                                               \
    using atomic_uint64_t = ::vs::atomic<::std::uint64_t>;                                                             \
    using ::vs::atomic_load;                                                                                           \
    using ::vs::atomic_load_explicit;                                                                                  \
    using ::vs::atomic_store;                                                                                          \
    using ::vs::atomic_store_explicit;                                                                                 \
    using ::vs::atomic_exchange;                                                                                       \
    using ::vs::atomic_exchange_explicit;                                                                              \
    using ::vs::atomic_compare_exchange_strong;                                                                        \
    using ::vs::atomic_compare_exchange_weak;                                                                          \
    using ::vs::atomic_compare_exchange_strong_explicit;                                                               \
    using ::vs::atomic_compare_exchange_weak_explicit;                                                                 \
    using ::vs::atomic_fetch_add;                                                                                      \
    using ::vs::atomic_fetch_sub;                                                                                      \
    using ::vs::atomic_fetch_add_explicit;                                                                             \
    using ::vs::atomic_fetch_sub_explicit;                                                                             \
    using ::vs::atomic_fetch_or;                                                                                       \
    using ::vs::atomic_fetch_and;                                                                                      \
    using ::vs::atomic_fetch_or_explicit;                                                                              \
    using ::vs::atomic_fetch_and_explicit;                                                                             \
    using ::vs::atomic_flag_test_and_set;                                                                              \
    using ::vs::atomic_flag_test_and_set_explicit;                                                                     \
    using ::vs::atomic_flag_clear;                                                                                     \
    using ::vs::atomic_flag_clear_explicit;                                                                            \
    inline void atomic_thread_fence(::std::memory_order m) noexcept { ::vs::fence(m); }                                \
    inline void atomic_signal_fence(::std::memory_order) noexcept {}                                                   \
    using ::vs::mutex;                                                                                                 \
    using ::vs::recursive_mutex;                                                                                       \
    using ::vs::timed_mutex;                                                                                           \
    using ::vs::shared_mutex;                                                                                          \
    using ::vs::shared_timed_mutex;                                                                                    \
    using ::vs::condition_variable;                                                                                    \
    using ::vs::condition_variable_any;                                                                                \
    using ::vs::counting_semaphore;                                                                                    \
    using ::vs::binary_semaphore;                                                                                      \
    using ::vs::latch;                                                                                                 \
    using ::vs::thread;                                                                                                \
    using ::vs::jthread;                                                                                               \
    namespace this_thread {                                                                                            \
    inline void yield() noexcept { ::vs::yield(); }                                                                    \
    template<typename R, typename P>                                                                                   \
    void sleep_for(const ::std::chrono::duration<R, P> &d) { ::vs::S().sleepUntil(::vs::deadlineOf(d)); }              \
    template<typename C, typename D>                                                                                   \
    void sleep_until(const ::std::chrono::time_point<C, D> &t) { ::vs::S().sleepUntil(::vs::deadlineOf(t)); }          \
    inline ::vs::thread::id get_id() noexcept { return ::vs::thread::id{ ::vs::self() }; }                             \
    }                                                                                                                  \
    namespace chrono {                                                                                                 \
    using namespace ::std::chrono;                                                                                     \
    using steady_clock = ::vs::steady_clock;                                                                           \
    using system_clock = ::vs::system_clock;                                                                           \
    using high_resolution_clock = ::vs::system_clock;                                                                  \
    }                                                                                                                  \
    }

template<>
struct std::hash<vs::thread::id> {
    std::size_t operator()(const vs::thread::id &i) const noexcept { return std::hash<int>{}(i.v); }
};

#ifndef VS_NO_AUTO_SHADOW
#ifdef VS_AFTER_OPENCMW // opencmw.hpp (no concurrency in it) uses `using namespace opencmw` and must see the real std
#include <opencmw.hpp>
#endif
namespace opencmw {
VS_SHADOW_STD
}
#endif
#endif
