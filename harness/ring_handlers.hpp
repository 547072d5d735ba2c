// Instrumented event handlers, work handlers and exception handler of the processor harnesses.
#ifndef VERIF_RING_HANDLERS_HPP
#define VERIF_RING_HANDLERS_HPP
#include "ring_common.hpp"
#include <disruptor/WorkerPool.hpp>
#include <set>
namespace rh {
struct Boom : std::runtime_error {
    int          g, m;
    std::int64_t s;
    bool         fatal = false;
    Boom(int g_, int m_, std::int64_t s_) : std::runtime_error("boom"), g(g_), m(m_), s(s_) {}
};
struct OnError : IExceptionHandler<Ev> {
    void handleEventException(const std::exception &ex, std::int64_t sequence, Ev &evt) override {
        auto &b = dynamic_cast<const Boom &>(ex);
        if (b.fatal) throw b;
        logf("{{\"e\":\"eh\",\"g\":{},\"m\":{},\"s\":{},\"v\":{}}}", b.g, b.m, sequence, look(evt));
        logf("{{\"e\":\"d\",\"g\":{},\"m\":{},\"s\":{}}}", b.g, b.m, sequence);
    }
    void handleOnStartException(const std::exception &) override { logf("{{\"e\":\"note\",\"k\":\"start\"}}"); }
    void handleOnShutdownException(const std::exception &) override { logf("{{\"e\":\"note\",\"k\":\"shutdown\"}}"); }
    void handleOnTimeoutException(const std::exception &, std::int64_t) override { logf("{{\"e\":\"note\",\"k\":\"timeout\"}}"); }
};
struct Who {
    int                    g = 0, m = 1;
    std::set<std::int64_t> fatal; // the exception handler throws as well, once
    std::set<std::int64_t> bad;  // sequences at which the handler throws
    int                    slow = 0;
    bool                   rude = false; // the notifications throw as well
};
struct Notified : ILifecycleAware, ITimeoutHandler {
    Who                  w;
    shared_ptr<Sequence> seq;
    bool                 started = false, runs = false;
    void onStart() override {
        logf("{{\"e\":\"os\",\"g\":{},\"m\":{}}}", w.g, w.m);
        started = true;
        if (w.rude) throw std::runtime_error("start");
    }
    void onShutdown() override {
        logf("{{\"e\":\"od\",\"g\":{},\"m\":{}}}", w.g, w.m);
        if (w.rude) throw std::runtime_error("shutdown");
    }
    void onTimeout(std::int64_t q) override {
        logf("{{\"e\":\"to\",\"g\":{},\"m\":{},\"q\":{}}}", w.g, w.m, q);
        if (w.rude) throw std::runtime_error("timeout");
    }
    void handle(Ev &e, std::int64_t s, bool b) {
        logf("{{\"e\":\"h\",\"g\":{},\"m\":{},\"s\":{},\"v\":{},\"b\":{},\"q\":{}}}", w.g, w.m, s, look(e), b ? "true" : "false", seq ? seq->value() : -1);
        for (int i = 0; i < w.slow; ++i) vs::yield();
        if (!e.cell.onRead()) race("late read");
        if (w.fatal.erase(s)) {
            logf("{{\"e\":\"x\",\"g\":{},\"m\":{},\"s\":{}}}", w.g, w.m, s);
            Boom b(w.g, w.m, s);
            b.fatal = true;
            throw b;
        }
        if (w.bad.count(s)) {
            logf("{{\"e\":\"x\",\"g\":{},\"m\":{},\"s\":{}}}", w.g, w.m, s);
            throw Boom(w.g, w.m, s);
        }
        logf("{{\"e\":\"d\",\"g\":{},\"m\":{},\"s\":{}}}", w.g, w.m, s);
    }
};
struct BatchHandler : IEventHandler<Ev>, Notified, IEventProcessorSequenceAware {
    void onEvent(Ev &e, std::int64_t s, bool b) override { handle(e, s, b); }
    void setSequenceCallback(const shared_ptr<Sequence> &s) override { seq = s; }
};
struct PoolHandler : IWorkHandler<Ev>, Notified {
    void onEvent(Ev &e) override { handle(e, e.seq, false); }
};

} // namespace rh
#endif
