// Common parts of the ring buffer harnesses: instrumented event, logging, manual consumers, producers.
#ifndef VERIF_RING_COMMON_HPP
#define VERIF_RING_COMMON_HPP
#define VS_AFTER_OPENCMW
#include "vsched.hpp"
#include "hutil.hpp"
#include <opencmw.hpp>
#include <disruptor/BatchEventProcessor.hpp>
#include <disruptor/ProcessingSequenceBarrier.hpp>
#include <disruptor/RingBuffer.hpp>
#include <disruptor/WaitStrategy.hpp>
#include <random>

namespace rh {
using namespace opencmw::disruptor;
using vs::logf;
using std::shared_ptr;
using std::string;
using std::vector;

struct Ev { // two halves written separately: a torn or overwritten event shows as a wrong value
    long         a = 0, b = 0;
    std::int64_t seq = -1; // work handlers are not told the sequence
    vs::RaceCell cell;
};
inline void race(const char *where) { logf("{{\"e\":\"race\",\"t\":0,\"at\":\"{}\"}}", where); }
inline void fill(Ev &e, int t, std::int64_t s, long v) {
    logf("{{\"e\":\"w\",\"t\":{},\"s\":{},\"v\":{}}}", t, s, v);
    if (!e.cell.onWrite()) race("write");
    e.a   = v;
    e.seq = s;
    vs::point();
    if (!e.cell.onWrite()) race("write");
    e.b = v;
}
inline long look(Ev &e) { // value, -1 if inconsistent
    if (!e.cell.onRead()) race("read");
    const long a = e.a;
    vs::point();
    if (!e.cell.onRead()) race("read");
    const long b = e.b;
    return a == b ? a : -1;
}
struct TimeoutWait : TimeoutBlockingWaitStrategy { // RingBuffer default-constructs its wait strategy
    TimeoutWait() : TimeoutBlockingWaitStrategy(std::chrono::milliseconds(2)) {}
};

struct GroupCfg {
    vector<int> deps; // 1-based
    bool        gate = true, batch = true, late = false;
};
inline string metaOf(std::size_t size, bool mp, bool manual, const vector<GroupCfg> &gs) {
    auto   B = [](bool b) { return b ? "true" : "false"; };
    string r = std::format("\"size\":{},\"mp\":{},\"manual\":{},\"groups\":[", size, B(mp), B(manual));
    for (std::size_t i = 0; i < gs.size(); ++i) {
        r += std::format("{}{{\"batch\":{},\"gate\":{},\"late\":{},\"deps\":[", i ? "," : "", B(gs[i].batch), B(gs[i].gate), B(gs[i].late));
        for (std::size_t k = 0; k < gs[i].deps.size(); ++k) r += std::format("{}{}", k ? "," : "", gs[i].deps[k]);
        r += "]}";
    }
    return r + "]";
}
struct POp {
    char op; // N next, T tryNext, E publishEvent, F tryPublishEvent, A claim ahead (two claims, then publish both), H hascap, R remain, V avail, C cursor, M mingate, Y yield
    int  n = 1;
};

template<typename Ring>
struct Producer {
    Ring &ring;
    int   t;
    bool  mp;
    long  count = 0;
    long  val() { return t * 1000 + ++count; }
    void  writeAll(std::int64_t lo, std::int64_t hi) {
        for (auto s = lo; s <= hi; ++s) fill(ring[s], t, s, val());
    }
    void pub(std::int64_t s) {
        logf("{{\"e\":\"p\",\"t\":{},\"s\":{}}}", t, s);
        ring.publish(s);
        logf("{{\"e\":\"pe\",\"t\":{},\"s\":{}}}", t, s);
    }
    void pubAll(std::int64_t lo, std::int64_t hi, bool atOnce) {
        if (atOnce && !mp) return pub(hi); // a single producer publishes everything up to hi
        for (auto s = lo; s <= hi; ++s) pub(s);
    }
    std::int64_t next(int n) {
        logf("{{\"e\":\"cc\",\"t\":{},\"n\":{}}}", t, n);
        auto s = ring.next(n);
        logf("{{\"e\":\"cr\",\"t\":{},\"n\":{},\"hi\":{}}}", t, n, s);
        return s;
    }
    void ask(const char *op) { logf("{{\"e\":\"qc\",\"t\":{},\"op\":\"{}\"}}", t, op); }
    void answer(const char *op, std::int64_t a, std::int64_t v, std::int64_t b = 0) { logf("{{\"e\":\"qr\",\"t\":{},\"op\":\"{}\",\"a\":{},\"b\":{},\"v\":{}}}", t, op, a, b, v); }
    void run(const vector<POp> &ops) {
        for (auto [op, n] : ops) {
            switch (op) {
            case 'N': {
                auto hi = next(n);
                writeAll(hi - n + 1, hi);
                pubAll(hi - n + 1, hi, count % 2);
                break;
            }
            case 'T': {
                logf("{{\"e\":\"cc\",\"t\":{},\"n\":{}}}", t, n);
                std::int64_t hi = -1;
                try {
                    hi = ring.tryNext(n);
                } catch (const NoCapacityException &) {
                    logf("{{\"e\":\"cf\",\"t\":{},\"n\":{}}}", t, n);
                    vs::yield();
                    break;
                }
                logf("{{\"e\":\"cr\",\"t\":{},\"n\":{},\"hi\":{}}}", t, n, hi);
                writeAll(hi - n + 1, hi);
                pubAll(hi - n + 1, hi, count % 2);
                break;
            }
            case 'E': {
                logf("{{\"e\":\"cc\",\"t\":{},\"n\":1}}", t);
                std::int64_t q = -1;
                ring.publishEvent([&](Ev &&e, std::int64_t s) {
                    logf("{{\"e\":\"cr\",\"t\":{},\"n\":1,\"hi\":{}}}", t, s);
                    q = s;
                    fill(e, t, s, val());
                    logf("{{\"e\":\"p\",\"t\":{},\"s\":{}}}", t, s);
                    if (n == 2) throw std::runtime_error("translator"); // still published
                });
                logf("{{\"e\":\"pe\",\"t\":{},\"s\":{}}}", t, q);
                break;
            }
            case 'F': {
                logf("{{\"e\":\"cc\",\"t\":{},\"n\":1}}", t);
                std::int64_t q  = -1;
                bool         ok = ring.tryPublishEvent([&](Ev &&e, std::int64_t s) {
                    logf("{{\"e\":\"cr\",\"t\":{},\"n\":1,\"hi\":{}}}", t, s);
                    q = s;
                    fill(e, t, s, val());
                    logf("{{\"e\":\"p\",\"t\":{},\"s\":{}}}", t, s);
                    if (n == 2) throw std::runtime_error("translator");
                });
                if (ok) logf("{{\"e\":\"pe\",\"t\":{},\"s\":{}}}", t, q);
                else if (q < 0) logf("{{\"e\":\"cf\",\"t\":{},\"n\":1}}", t);
                else logf("{{\"e\":\"refused after publishing\",\"t\":{}}}", t);
                break;
            }
            case 'A': {
                auto s1 = next(1);
                auto s2 = next(n);
                writeAll(s1, s1);
                writeAll(s2 - n + 1, s2);
                pub(s1);
                pubAll(s2 - n + 1, s2, count % 2);
                break;
            }
            case 'H': {
                ask("hascap");
                answer("hascap", n, ring.hasAvailableCapacity(n) ? 1 : 0);
                break;
            }
            case 'R': {
                ask("remain");
                answer("remain", 0, ring.getRemainingCapacity());
                break;
            }
            case 'V': {
                const std::int64_t s = std::max<std::int64_t>(0, ring.cursor() - n + 2);
                ask("avail");
                answer("avail", s, (n % 2 ? ring.isAvailable(s) : ring.isPublished(s)) ? 1 : 0);
                break;
            }
            case 'C': {
                ask("cursor");
                answer("cursor", 0, ring.cursor());
                break;
            }
            case 'M': {
                ask("mingate");
                answer("mingate", 0, ring.getMinimumGatingSequence());
                break;
            }
            default: vs::yield();
            }
        }
    }
};

// a consumer written by the user: waits on a barrier, handles, stores its progress itself
template<typename Ring>
struct Manual {
    Ring                        &ring;
    int                          g;
    shared_ptr<Sequence>         seq;
    shared_ptr<ISequenceBarrier> barrier;
    bool                         each  = false; // store progress after each event instead of after the batch
    int                          slow  = 0;
    std::int64_t                 atMost = 1000; // number of events after which it stops by itself
    void store(std::int64_t v) {
        logf("{{\"e\":\"sb\",\"g\":{},\"v\":{}}}", g, v);
        seq->setValue(v);
        logf("{{\"e\":\"sa\",\"g\":{},\"v\":{}}}", g, v);
    }
    void run() {
        auto next = seq->value() + 1;
        while (atMost > 0) {
            std::int64_t r;
            try {
                r = barrier->waitFor(next);
            } catch (const AlertException &) {
                return;
            } catch (const TimeoutException &) {
                continue;
            }
            if (r < next) {
                vs::yield();
                continue;
            }
            const auto q = seq->value();
            for (; next <= r && atMost > 0; ++next, --atMost) {
                const bool last = each || next == r || atMost == 1;
                const auto own  = each ? next - 1 : q;
                logf("{{\"e\":\"h\",\"g\":{},\"m\":1,\"s\":{},\"v\":{},\"b\":{},\"q\":{}}}", g, next, look(ring[next]), last ? "true" : "false", own);
                for (int i = 0; i < slow; ++i) vs::yield();
                if (!ring[next].cell.onRead()) race("late read");
                logf("{{\"e\":\"d\",\"g\":{},\"m\":1,\"s\":{}}}", g, next);
                if (each) store(next);
            }
            if (!each) store(next - 1);
        }
    }
};
template<typename V>
void endEvent(const V &seqs) {
    string q;
    for (auto &s : seqs) q += std::format("{}{}", q.empty() ? "" : ",", s->value());
    logf("{{\"e\":\"end\",\"t\":0,\"q\":[{}]}}", q);
}
} // namespace rh
#endif
