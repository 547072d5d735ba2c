// Harness for ThreadAffinity: the operating system's calls are replaced (linker --wrap) by an in-memory stand-in that
// can refuse; nothing outside this process is touched.
#include <ThreadAffinity.hpp>
#include <condition_variable>
#include <map>
#include <random>
#include "hutil.hpp"

struct Attr { std::string name = "i"; std::vector<int> mask; int policy = 0, prio = 0; };
static std::map<pthread_t, Attr> osThreads;
static Attr osProc;
static int  refuse = 0; // error code for the next call, 0 = none
static bool refused = false;
static int  nCpu() { return static_cast<int>(std::thread::hardware_concurrency()); }
static Attr &th(pthread_t t) {
    auto &a = osThreads[t];
    if (a.mask.empty()) a.mask.assign(nCpu(), 1);
    return a;
}
static std::vector<int> fromSet(const cpu_set_t *s) { std::vector<int> r(nCpu()); for (int i = 0; i < nCpu(); ++i) r[i] = CPU_ISSET(i, s) ? 1 : 0; return r; }
static void toSet(const std::vector<int> &m, cpu_set_t *s) { CPU_ZERO(s); for (int i = 0; i < nCpu(); ++i) if (m[i]) CPU_SET(i, s); }
#define REFUSE(x) if (refuse) { refused = true; x; }
extern "C" {
int __wrap_pthread_setname_np(pthread_t t, const char *n) { REFUSE(return refuse) if (std::strlen(n) > 15) return ERANGE; th(t).name = n; return 0; }
int __wrap_pthread_getname_np(pthread_t t, char *b, size_t l) { REFUSE(return refuse) auto &n = th(t).name; if (l < n.size() + 1) return ERANGE; std::memcpy(b, n.c_str(), n.size() + 1); return 0; }
int __wrap_pthread_setaffinity_np(pthread_t t, size_t, const cpu_set_t *s) { REFUSE(return refuse) auto m = fromSet(s); if (std::find(m.begin(), m.end(), 1) == m.end()) return EINVAL; th(t).mask = m; return 0; }
int __wrap_pthread_getaffinity_np(pthread_t t, size_t, cpu_set_t *s) { REFUSE(return refuse) toSet(th(t).mask, s); return 0; }
int __wrap_sched_setaffinity(pid_t, size_t, const cpu_set_t *s) { REFUSE(errno = refuse; return -1) auto m = fromSet(s); if (std::find(m.begin(), m.end(), 1) == m.end()) { errno = EINVAL; return -1; } osProc.mask = m; return 0; }
int __wrap_sched_getaffinity(pid_t, size_t, cpu_set_t *s) { REFUSE(errno = refuse; return -1) toSet(osProc.mask, s); return 0; }
static bool good(int p, int q) { return (p == 0 && q == 0) || ((p == 1 || p == 2) && q >= 1 && q <= 99); }
int __wrap_sched_get_priority_min(int p) { if (p < 0 || p > 2) { errno = EINVAL; return -1; } return p == 0 ? 0 : 1; }
int __wrap_sched_get_priority_max(int p) { if (p < 0 || p > 2) { errno = EINVAL; return -1; } return p == 0 ? 0 : 99; }
int __wrap_pthread_setschedparam(pthread_t t, int p, const sched_param *q) { REFUSE(return refuse) if (!good(p, q->sched_priority)) return EINVAL; th(t).policy = p; th(t).prio = q->sched_priority; return 0; }
int __wrap_pthread_getschedparam(pthread_t t, int *p, sched_param *q) { REFUSE(return refuse) *p = th(t).policy; q->sched_priority = th(t).prio; return 0; }
int __wrap_sched_setscheduler(pid_t, int p, const sched_param *q) { REFUSE(errno = refuse; return -1) if (!good(p, q->sched_priority)) { errno = EINVAL; return -1; } osProc.policy = p; osProc.prio = q->sched_priority; return 0; }
int __wrap_sched_getscheduler(pid_t) { REFUSE(errno = refuse; return -1) return osProc.policy; }
int __wrap_sched_getparam(pid_t, sched_param *q) { REFUSE(errno = refuse; return -1) q->sched_priority = osProc.prio; return 0; }
}
namespace ot = opencmw::thread;
int main(int argc, char **argv) {
    hu::Args a(argc, argv);
    auto *out = std::fopen(a.out.c_str(), "w");
    auto  rng = std::mt19937_64(a.seed * 77 + 3);
    std::mutex mx; std::condition_variable cv; bool stop = false;
    auto park = [&] { std::unique_lock l(mx); cv.wait(l, [&] { return stop; }); };
    std::thread  t1(park), none;
    std::jthread t2(park), jnone;
    const int    N = nCpu();
    long traces = 0, ops = 0;
    for (int k = 0; k < (a.thorough ? 3000 : 400); ++k) {
        osThreads.clear(); osProc = Attr(); osProc.mask.assign(N, 1);
        std::string tr;
        auto log = [&](const char *op, int t, const std::string &arg, const std::string &res) {
            if (!tr.empty()) tr += ",";
            tr += std::string("{\"op\":\"") + op + "\",\"t\":" + std::to_string(t) + ",\"a\":" + arg + ",\"os\":" + (refused ? "1" : "0") + ",\"res\":\"" + res + "\"}";
            ++ops;
        };
        auto vec = [](const auto &m) { std::string s = "["; for (std::size_t i = 0; i < m.size(); ++i) s += (i ? "," : "") + std::to_string(static_cast<int>(m[i])); return s + "]"; };
        auto guarded = [&](auto f) -> std::string { try { f(); return "ok"; } catch (const std::system_error &) { return "error"; } };
        for (int i = 0; i < 14; ++i) {
            const int t = static_cast<int>(rng() % 7) - 1; // -1: no thread (two kinds), 0 self, 1, 2
            const int who = t <= 2 ? t : t - 3 + 0;
            const bool j = rng() % 2;
            auto on = [&](auto f) { who == -1 ? (j ? f(jnone) : f(none)) : who == 1 ? f(t1) : f(t2); };
            refused = false;
            refuse  = rng() % 6 == 0 ? (int[]){ EPERM, ESRCH, EINVAL, ERANGE, EFAULT }[rng() % 5] : 0;
            std::string nm; for (int c = static_cast<int>(rng() % 20); c > 0; --c) nm += static_cast<char>('a' + rng() % 26);
            std::vector<bool> m(rng() % 4 == 0 ? rng() % (N + 3) : N); for (std::size_t c = 0; c < m.size(); ++c) m[c] = rng() % 3 == 0;
            const int pol = static_cast<int>(rng() % 3), pr = (int[]){ 0, 0, 1, 50, 99, 100, -1, 2 }[rng() % 8];
            const int pid = rng() % 6 == 0 ? -static_cast<int>(rng() % 2) : getpid();
            switch (rng() % 10) {
            case 0: { std::string big = nm + "tail"; std::string_view sv(big.data(), nm.size()); auto r = guarded([&] { who == 0 ? ot::setThreadName(sv) : on([&](auto &x) { ot::setThreadName(sv, x); }); }); log("setname", who, hu::bytes(nm), r); break; }
            case 1: { std::string v; auto r = guarded([&] { who == 0 ? (void) (v = ot::getThreadName()) : on([&](auto &x) { v = ot::getThreadName(x); }); }); log("getname", who, hu::bytes(v), r); break; }
            case 2: { auto r = guarded([&] { who == 0 ? ot::setThreadAffinity(m) : on([&](auto &x) { ot::setThreadAffinity(m, x); }); }); log("setmask", who, vec(m), r); break; }
            case 3: { std::vector<bool> v; auto r = guarded([&] { who == 0 ? (void) (v = ot::getThreadAffinity()) : on([&](auto &x) { v = ot::getThreadAffinity(x); }); }); log("getmask", who, vec(v), r); break; }
            case 4: { auto r = guarded([&] { who == 0 ? ot::setThreadSchedulingParameter(static_cast<ot::Policy>(pol), pr) : on([&](auto &x) { ot::setThreadSchedulingParameter(static_cast<ot::Policy>(pol), pr, x); }); }); log("setsched", who, "[" + std::to_string(pol) + "," + std::to_string(pr) + "]", r); break; }
            case 5: { ot::SchedulingParameter v{ ot::UNKNOWN, -9 }; auto r = guarded([&] { who == 0 ? (void) (v = ot::getThreadSchedulingParameter()) : on([&](auto &x) { v = ot::getThreadSchedulingParameter(x); }); }); log("getsched", who, "[" + std::to_string(v.policy) + "," + std::to_string(v.priority) + "]", r); break; }
            case 6: { std::array<bool, 4> fm{}; for (auto &x : fm) x = rng() % 3 == 0; auto r = guarded([&] { ot::setProcessAffinity(fm, pid); }); log("setpmask", pid > 0 ? 0 : -1, vec(fm), r); break; }
            case 7: { std::vector<bool> v; auto r = guarded([&] { v = ot::getProcessAffinity(pid); }); log("getpmask", pid > 0 ? 0 : -1, vec(v), r); break; }
            case 8: { auto r = guarded([&] { ot::setProcessSchedulingParameter(static_cast<ot::Policy>(pol), pr, pid); }); log("setpsched", pid > 0 ? 0 : -1, "[" + std::to_string(pol) + "," + std::to_string(pr) + "]", r); break; }
            default: { ot::SchedulingParameter v{ ot::UNKNOWN, -9 }; auto r = guarded([&] { v = ot::getProcessSchedulingParameter(pid); }); log("getpsched", pid > 0 ? 0 : -1, "[" + std::to_string(v.policy) + "," + std::to_string(v.priority) + "]", r); break; }
            }
            refuse = 0;
        }
        std::fprintf(out, "{\"n\":%d,\"ev\":[%s]}\n", N, tr.c_str());
        ++traces;
    }
    { std::lock_guard l(mx); stop = true; }
    cv.notify_all();
    t1.join(); t2.join();
    std::fclose(out);
    a.stat("operations", ops); a.stat("histories", traces); a.stat("cpus", N);
    return 0;
}
