// P03: what a thread pool asks of the operating system for its workers. The system's calls are replaced (linker --wrap)
// by an in-memory stand-in; nothing outside this process is touched.
#include <cmath>
#include <condition_variable>
#include <dlfcn.h>
#include <cstring>
#include <format>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <random>
#include <unordered_map>
#include <ThreadPool.hpp>
#include "hutil.hpp"
using namespace std::chrono_literals;

struct Attr {
    std::string      name = "i";
    std::vector<int> mask;
    int              policy = 0, prio = 0;
};
static std::mutex                                      osMutex;
static std::map<pthread_t, Attr> osThreads;
static int nCpu() { return static_cast<int>(std::thread::hardware_concurrency()); }
static Attr &th(pthread_t t) {
    auto &a = osThreads[t];
    if (a.mask.empty()) a.mask.assign(static_cast<std::size_t>(nCpu()), 1);
    return a;
}
static std::vector<int> fromSet(const cpu_set_t *s) {
    std::vector<int> r(static_cast<std::size_t>(nCpu()));
    for (int i = 0; i < nCpu(); ++i) r[static_cast<std::size_t>(i)] = CPU_ISSET(i, s) ? 1 : 0;
    return r;
}
#define LOCK std::scoped_lock l(osMutex)
extern "C" {
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *arg) noexcept { // a new thread has none of the attributes of an earlier one
    using Fn          = int (*)(pthread_t *, const pthread_attr_t *, void *(*) (void *), void *);
    static Fn create = reinterpret_cast<Fn>(dlsym(RTLD_NEXT, "pthread_create"));
    LOCK;
    const int rc = create(t, at, f, arg);
    if (rc == 0) osThreads.erase(*t);
    return rc;
}
int __real_pthread_setname_np(pthread_t t, const char *n);
int __wrap_pthread_setname_np(pthread_t t, const char *n) {
    if (std::strlen(n) > 15) return ERANGE;
    if (const int rc = __real_pthread_setname_np(t, n)) return rc; // also tells if the thread still exists
    LOCK;
    th(t).name = n;
    return 0;
}
int __wrap_pthread_getname_np(pthread_t t, char *b, size_t len) {
    LOCK;
    auto &n = th(t).name;
    if (len < n.size() + 1) return ERANGE;
    std::memcpy(b, n.c_str(), n.size() + 1);
    return 0;
}
int __wrap_pthread_setaffinity_np(pthread_t t, size_t, const cpu_set_t *s) {
    auto m = fromSet(s);
    if (std::find(m.begin(), m.end(), 1) == m.end()) return EINVAL;
    LOCK;
    th(t).mask = m;
    return 0;
}
int __wrap_sched_get_priority_min(int p) { return p == 0 ? 0 : 1; }
int __wrap_sched_get_priority_max(int p) { return p == 0 ? 0 : 99; }
int __wrap_pthread_setschedparam(pthread_t t, int p, const sched_param *q) {
    LOCK;
    th(t).policy = p;
    th(t).prio   = q->sched_priority;
    return 0;
}
}
template<typename V>
static std::string vec(const V &m) {
    std::string s = "[";
    for (std::size_t i = 0; i < m.size(); ++i) s += (i ? "," : "") + std::to_string(static_cast<int>(m[i]));
    return s + "]";
}
static std::string attr() {
    LOCK;
    auto &a = th(pthread_self());
    return std::format("{{\"name\":{},\"mask\":{},\"policy\":{},\"prio\":{}}}", hu::bytes(a.name), vec(a.mask), a.policy, a.prio);
}
template<opencmw::TaskType TT>
struct Case {
    std::mt19937_64                    &rng;
    FILE                               *out;
    unsigned                            min, max;
    std::string                         pool;
    opencmw::BasicThreadPool<TT>        p;
    std::vector<bool>                   mask;
    int                                 policy = 0, prio = 0;
    std::string                         steps;
    Case(std::mt19937_64 &r, FILE *o, unsigned mi, unsigned ma, std::string name) : rng(r), out(o), min(mi), max(ma), pool(name), p(name, mi, ma) {}
    // n tasks at the same time report what they see; afterwards plain ones report again
    std::vector<std::string> look(int n, bool named) {
        std::vector<std::string>  r;
        std::mutex                m;
        std::condition_variable   cv;
        int                       in = 0, outN = 0;
        auto                      f = [&] {
            std::string a = attr();
            std::unique_lock l(m);
            r.push_back(a);
            ++in;
            cv.notify_all();
            cv.wait_for(l, 20s, [&] { return in >= n; });
            ++outN;
            cv.notify_all();
        };
        for (int i = 0; i < n; ++i) {
            if (named) p.template execute<"a task with a rather long name">(std::function<void()>(f));
            else p.execute(std::function<void()>(f));
        }
        std::unique_lock l(m);
        cv.wait_for(l, 30s, [&] { return outN == n; });
        return r;
    }
    static std::string list(const std::vector<std::string> &v) {
        std::string s = "[";
        for (std::size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + v[i];
        return s + "]";
    }
    template<int ID>
    int pinned() { // 0 accepted, 1 refused
        try {
            auto f = p.template execute<"", 0, ID>([] { return 1; });
            f.wait();
            return 0;
        } catch (const std::invalid_argument &) { return 1; } catch (...) {
            return 2;
        }
    }
    void emit(const char *k, const std::vector<std::string> &w, const std::string &extra) {
        std::fprintf(out, "{\"k\":\"%s\",\"io\":%s,\"min\":%u,\"ncpu\":%d,\"pool\":%s,\"mask\":%s,\"policy\":%d,\"prio\":%d,\"w\":%s,\"caller\":%s%s}\n", k, TT == opencmw::IO_BOUND ? "true" : "false", min, nCpu(),
                hu::bytes(pool).c_str(), vec(mask).c_str(), policy, prio, list(w).c_str(), attr().c_str(), extra.c_str());
    }
    void run() {
        p.keepAliveDuration = 25ms;
        p.waitUntilInitialised();
        const int all = static_cast<int>(TT == opencmw::IO_BOUND ? max : min);
        auto      R   = [&](int n) { return static_cast<int>(rng() % static_cast<unsigned>(n)); };
        for (int round = 0; round < 3; ++round) {
            std::string err = "ok";
            try {
                switch (R(4)) {
                case 0:
                case 1: {
                    std::vector<bool> m(static_cast<std::size_t>(1 + R(nCpu())));
                    for (std::size_t i = 0; i < m.size(); ++i) m[i] = R(2);
                    m[static_cast<std::size_t>(R(static_cast<int>(m.size())))] = true;
                    mask = m;
                    p.setAffinityMask(m);
                    break;
                }
                case 2: {
                    policy = R(3);
                    prio   = policy == 0 ? 0 : 1 + R(99);
                    p.setThreadSchedulingPolicy(static_cast<opencmw::thread::Policy>(policy), prio);
                    break;
                }
                default:
                    for (int i = 0; i < 200 && p.numThreads() > min; ++i) std::this_thread::sleep_for(5ms); // unused workers go
                    if (mask.size()) p.setAffinityMask(mask);
                    break;
                }
            } catch (const std::exception &) { err = "error"; }
            const bool get = p.getAffinityMask() == mask && static_cast<int>(p.getSchedulingPolicy()) == policy && p.getSchedulingPriority() == prio && p.poolName() == pool;
            std::string cpus = mask.empty() ? "" : std::format(",\"refused\":[{},{},{}]", pinned<0>(), pinned<1>(), pinned<3>());
            if (mask.empty()) cpus = ",\"refused\":[]";
            emit("set", look(all, false), std::format(",\"res\":\"{}\",\"get\":{}{}", err, get, cpus));
            emit("named", look(all, true), ",\"res\":\"ok\",\"get\":true,\"refused\":[]");
        }
    }
};
int main(int argc, char **argv) {
    hu::Args        a(argc, argv);
    std::mt19937_64 rng(a.seed * 71 + 5);
    FILE           *out = std::fopen(a.out.c_str(), "w");
    const int       n   = a.thorough ? 6000 : 300;
    std::cout.setstate(std::ios::failbit);
    static const unsigned sizes[][2] = { { 1, 1 }, { 1, 2 }, { 2, 2 }, { 2, 4 }, { 3, 3 }, { 4, 4 }, { 5, 7 } };
    static const char    *names[]    = { "p", "pool", "a rather long name of a pool", "123456789012345", "1234567890123" };
    for (int i = 0; i < n; ++i) {
        const auto &s = sizes[rng() % 7];
        std::string nm = names[rng() % 5];
        if (i % 2) {
            Case<opencmw::IO_BOUND> c(rng, out, s[0], s[1], nm);
            c.run();
        } else {
            Case<opencmw::CPU_BOUND> c(rng, out, s[0], s[1], nm);
            c.run();
        }
        std::fflush(out);
    }
    { opencmw::BasicThreadPool<opencmw::IO_BOUND> standard; standard.waitUntilInitialised(); }
    { opencmw::BasicThreadPool<opencmw::CPU_BOUND> standard; standard.waitUntilInitialised(); }
    std::fclose(out);
    a.stat("pools", n);
    return 0;
}
