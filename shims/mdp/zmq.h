// In-memory stand-in for the part of libzmq that opencmw uses: inproc-like message transport with the documented
// semantics of the socket types (ROUTER identities, DEALER round robin, PUB/SUB/XPUB/XSUB prefix subscriptions with
// reference counts, PUSH/PULL, PAIR, multi-part atomicity, DONTWAIT, RCVMORE, polling). Every message that is read
// from or written to a socket can be observed through fz::Hooks. Not thread safe by itself: run single threaded or on
// the cooperative scheduler (vsched), where only zmq_poll blocks.
#ifndef VERIF_FAKE_ZMQ_H
#define VERIF_FAKE_ZMQ_H
#include <algorithm>
#include <cerrno>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <string>
#include <vector>

#define ZMQ_PAIR 0
#define ZMQ_PUB 1
#define ZMQ_SUB 2
#define ZMQ_REQ 3
#define ZMQ_REP 4
#define ZMQ_DEALER 5
#define ZMQ_ROUTER 6
#define ZMQ_PULL 7
#define ZMQ_PUSH 8
#define ZMQ_XPUB 9
#define ZMQ_XSUB 10
#define ZMQ_SUBSCRIBE 6
#define ZMQ_UNSUBSCRIBE 7
#define ZMQ_RCVMORE 13
#define ZMQ_LINGER 17
#define ZMQ_SNDHWM 23
#define ZMQ_RCVHWM 24
#define ZMQ_XPUB_VERBOSE 40
#define ZMQ_HEARTBEAT_IVL 75
#define ZMQ_HEARTBEAT_TTL 76
#define ZMQ_HEARTBEAT_TIMEOUT 77
#define ZMQ_XPUB_VERBOSER 78
#define ZMQ_ROUTING_ID 5
#define ZMQ_IDENTITY 5
#define ZMQ_DONTWAIT 1
#define ZMQ_SNDMORE 2
#define ZMQ_POLLIN 1
#define ZMQ_POLLOUT 2
#define ZMQ_POLLERR 4
#define ETERM 156384765
#define EFSM 156384763

typedef void(zmq_free_fn)(void *data, void *hint);
struct zmq_msg_t {
    void *p;
};
typedef struct zmq_pollitem_t {
    void *socket;
    int   fd;
    short events;
    short revents;
} zmq_pollitem_t;

namespace fz {
using Frames = std::vector<std::string>;
struct Msg {
    std::string  own;
    void        *ext  = nullptr;
    std::size_t  n    = 0;
    zmq_free_fn *ffn  = nullptr;
    void        *hint = nullptr;
    char        *data() { return ext ? static_cast<char *>(ext) : own.data(); }
    std::size_t  size() const { return ext || n ? n : own.size(); }
    void         clear() {
        if (ffn) ffn(ext, hint);
        own.clear();
        ext = nullptr;
        n   = 0;
        ffn = nullptr;
    }
};
struct Ctx;
struct Sock {
    Ctx                       *ctx;
    int                        type;
    std::string                id;     // identity seen by a ROUTER peer
    std::string                name;   // label for the observer (first endpoint bound or connected to)
    std::vector<Sock *>        peers;
    std::deque<Frames>         in, unsent;
    Frames                     cur;    // message being read
    std::size_t                pos = 0;
    Frames                     out;    // message being written
    std::map<std::string, int> subs;   // SUB: own subscriptions (reference counted)
    std::map<std::string, std::map<Sock *, int>> peerSubs; // XPUB: what the peers subscribed to
    bool                       verbose = false, verboser = false;
    std::size_t                rr = 0;
    bool                       closed = false;
    const void                *writer = nullptr; // who is in the middle of sending a message
    bool                       more() const { return pos < cur.size(); }
    bool                       readable() const { return more() || !in.empty(); }
};
struct Ctx {
    std::map<std::string, Sock *> bound;
    std::vector<std::pair<std::string, Sock *>> waiting; // inproc: connected before it is bound
    std::vector<Sock *>           socks;
    int                           nextId = 0;
    bool                          term   = false;
};
struct Hooks {
    std::function<void(Sock &, const Frames &)> recv, send;             // a message leaves / enters the socket's owner
    std::function<void(Sock &, bool, const std::string &)> subscription; // a SUB socket changed an effective subscription
    std::function<bool(long)>                              idle;         // nothing readable: wait up to ms (<0: for ever); true: look again
    std::function<void()>                                  touched;      // some socket became readable
    std::function<std::string(Sock &)>                     identity;     // identity of a new DEALER
    std::function<bool(int)>                               fdReadable;   // plain file descriptors given to zmq_poll
    std::function<void()>                                  point;        // a moment at which another thread may run
    std::function<void(const char *)>                      misuse;       // a socket used after it was closed, or by two threads at once
    std::function<const void *()>                          who;          // the calling thread
    bool                                                   failConnect = false; // connecting to an endpoint nobody bound fails
};
inline Hooks &hooks() {
    static Hooks h;
    return h;
}
inline void enter(Sock *s) {
    if (hooks().point) hooks().point();
    if (s && s->closed && hooks().misuse) hooks().misuse("socket used after it was closed");
    if (s && hooks().who && s->writer && s->writer != hooks().who() && hooks().misuse) hooks().misuse("socket used by two threads at once");
}
inline void enqueue(Sock *to, Frames f) {
    to->in.push_back(std::move(f));
    if (hooks().touched) hooks().touched();
}
inline bool isSub(int t) { return t == ZMQ_SUB || t == ZMQ_XSUB; }
inline bool isPub(int t) { return t == ZMQ_PUB || t == ZMQ_XPUB; }
inline void tellPub(Sock *sub, Sock *pub, bool on, const std::string &topic, bool effective) {
    if (!isPub(pub->type)) return;
    auto &m     = pub->peerSubs[topic];
    bool  first = m.empty();
    bool  pass;
    if (on) {
        m[sub]++;
        pass = first || pub->verbose || pub->verboser;
    } else {
        m.erase(sub);
        pass = m.empty() || pub->verboser;
        if (m.empty()) pub->peerSubs.erase(topic);
    }
    (void)effective;
    if (pub->type == ZMQ_XPUB && pass) enqueue(pub, { std::string(1, on ? '\1' : '\0') + topic });
}
inline void link(Sock *a, Sock *b) {
    a->peers.push_back(b);
    b->peers.push_back(a);
    for (auto [s, p] : { std::pair{ a, b }, std::pair{ b, a } })
        for (; !s->unsent.empty(); s->unsent.pop_front()) enqueue(p, std::move(s->unsent.front()));
    for (auto [s, p] : { std::pair{ a, b }, std::pair{ b, a } })
        if (isSub(s->type) && isPub(p->type))
            for (auto &[t, n] : s->subs) tellPub(s, p, true, t, true);
}
inline void unlink(Sock *s) {
    for (auto *p : s->peers) {
        p->peers.erase(std::remove(p->peers.begin(), p->peers.end(), s), p->peers.end());
        if (isPub(p->type)) {
            std::vector<std::string> gone;
            for (auto &[t, m] : p->peerSubs)
                if (m.count(s)) gone.push_back(t);
            for (auto &t : gone) tellPub(s, p, false, t, true);
        }
    }
    s->peers.clear();
}
inline bool matches(const std::string &topic, const std::string &frame) { return frame.compare(0, topic.size(), topic) == 0; }
inline void deliver(Sock *s, Frames f) {
    if (hooks().send) hooks().send(*s, f);
    switch (s->type) {
    case ZMQ_ROUTER: {
        const auto id = f.front();
        for (auto *p : s->peers)
            if (p->id == id) {
                f.erase(f.begin());
                enqueue(p, std::move(f));
                return;
            }
        return; // unroutable: dropped
    }
    case ZMQ_PUB:
    case ZMQ_XPUB:
        for (auto *p : s->peers) {
            bool hit = false;
            for (auto &[t, m] : s->peerSubs)
                if (m.count(p) && matches(t, f.front())) hit = true;
            if (hit) enqueue(p, f);
        }
        return;
    default: // DEALER, PUSH, PAIR: round robin over the peers
        if (s->peers.empty()) {
            if (s->type == ZMQ_PAIR) s->unsent.push_back(std::move(f));
            return;
        }
        auto *p = s->peers[s->rr++ % s->peers.size()];
        if (p->type == ZMQ_ROUTER) f.insert(f.begin(), s->id);
        enqueue(p, std::move(f));
    }
}
} // namespace fz

inline void *zmq_ctx_new() { return new fz::Ctx; }
inline int   zmq_ctx_term(void *c) {
    auto *x = static_cast<fz::Ctx *>(c);
    if (!x) return 0;
    if (x->socks.empty()) delete x;
    else x->term = true;
    return 0;
}
inline void *zmq_socket(void *c, int type) {
    auto *s = new fz::Sock;
    s->ctx  = static_cast<fz::Ctx *>(c);
    s->type = type;
    s->ctx->socks.push_back(s);
    s->id = fz::hooks().identity ? fz::hooks().identity(*s) : "id" + std::to_string(++s->ctx->nextId);
    return s;
}
inline int zmq_close(void *v) {
    auto *s = static_cast<fz::Sock *>(v);
    if (!s) return -1;
    fz::enter(s);
    fz::unlink(s);
    auto *c = s->ctx;
    std::erase_if(c->waiting, [s](auto &w) { return w.second == s; });
    for (auto it = c->bound.begin(); it != c->bound.end();) it = it->second == s ? c->bound.erase(it) : std::next(it);
    c->socks.erase(std::remove(c->socks.begin(), c->socks.end(), s), c->socks.end());
    if (fz::hooks().misuse) s->closed = true; // kept to notice later uses
    else delete s;
    if (c->term && c->socks.empty()) delete c;
    return 0;
}
inline int zmq_bind(void *v, const char *ep) {
    auto *s = static_cast<fz::Sock *>(v);
    if (s->ctx->bound.count(ep)) {
        errno = EADDRINUSE;
        return -1;
    }
    s->ctx->bound[ep] = s;
    if (s->name.empty()) s->name = ep;
    auto &w = s->ctx->waiting;
    for (auto it = w.begin(); it != w.end();)
        if (it->first == ep) {
            fz::link(it->second, s);
            it = w.erase(it);
        } else ++it;
    return 0;
}
inline int zmq_unbind(void *v, const char *ep) {
    auto *s = static_cast<fz::Sock *>(v);
    s->ctx->bound.erase(ep);
    return 0;
}
inline int zmq_connect(void *v, const char *ep) {
    auto *s  = static_cast<fz::Sock *>(v);
    fz::enter(s);
    auto  it = s->ctx->bound.find(ep);
    if (s->name.empty()) s->name = std::string("->") + ep;
    if (it == s->ctx->bound.end()) {
        errno = ECONNREFUSED;
        if (s->type == ZMQ_PAIR) s->ctx->waiting.emplace_back(ep, s);
        return fz::hooks().failConnect ? -1 : 0;
    }
    fz::link(s, it->second);
    return 0;
}
inline int zmq_disconnect(void *v, const char *) {
    fz::unlink(static_cast<fz::Sock *>(v));
    return 0;
}
inline int zmq_setsockopt(void *v, int opt, const void *val, std::size_t len) {
    auto *s = static_cast<fz::Sock *>(v);
    if (opt == ZMQ_XPUB_VERBOSE) s->verbose = *static_cast<const int *>(val) != 0;
    else if (opt == ZMQ_XPUB_VERBOSER) s->verboser = *static_cast<const int *>(val) != 0;
    else if (opt == ZMQ_ROUTING_ID && s->type == ZMQ_DEALER) s->id.assign(static_cast<const char *>(val), len);
    else if ((opt == ZMQ_SUBSCRIBE || opt == ZMQ_UNSUBSCRIBE) && s->type == ZMQ_SUB) {
        const std::string t(static_cast<const char *>(val), len);
        const bool        on = opt == ZMQ_SUBSCRIBE;
        if (!on && !s->subs.count(t)) return 0;
        bool effective;
        if (on) effective = ++s->subs[t] == 1;
        else {
            effective = --s->subs[t] == 0;
            if (effective) s->subs.erase(t);
        }
        if (effective && fz::hooks().subscription) fz::hooks().subscription(*s, on, t);
        if (on || effective) {
            const auto peers = s->peers;
            for (auto *p : peers) fz::tellPub(s, p, on, t, effective);
        }
    }
    return 0;
}
inline int zmq_getsockopt(void *v, int opt, void *val, std::size_t *len) {
    auto *s = static_cast<fz::Sock *>(v);
    if (opt != ZMQ_RCVMORE || *len < sizeof(int)) {
        errno = EINVAL;
        return -1;
    }
    const int more = s->more() ? 1 : 0;
    std::memset(val, 0, *len);
    std::memcpy(val, &more, sizeof(more));
    *len = sizeof(more);
    return 0;
}
inline int zmq_msg_init(zmq_msg_t *m) {
    m->p = new fz::Msg;
    return 0;
}
inline int zmq_msg_init_data(zmq_msg_t *m, void *data, std::size_t n, zmq_free_fn *ffn, void *hint) {
    auto *x = new fz::Msg;
    x->ext  = data;
    x->n    = n;
    x->ffn  = ffn;
    x->hint = hint;
    m->p    = x;
    return 0;
}
inline int zmq_msg_close(zmq_msg_t *m) {
    if (!m->p) {
        errno = EFAULT;
        return -1;
    }
    auto *x = static_cast<fz::Msg *>(m->p);
    x->clear();
    delete x;
    m->p = nullptr;
    return 0;
}
inline int zmq_msg_move(zmq_msg_t *d, zmq_msg_t *s) {
    if (!s->p) {
        errno = EFAULT;
        return -1;
    }
    if (d->p) zmq_msg_close(d);
    d->p = s->p;
    s->p = new fz::Msg;
    return 0;
}
inline void       *zmq_msg_data(zmq_msg_t *m) { return static_cast<fz::Msg *>(m->p)->data(); }
inline std::size_t zmq_msg_size(const zmq_msg_t *m) { return static_cast<const fz::Msg *>(m->p)->size(); }
inline int         zmq_msg_recv(zmq_msg_t *m, void *v, int flags) {
    auto *s = static_cast<fz::Sock *>(v);
    fz::enter(s);
    if (s->type == ZMQ_PUB || s->type == ZMQ_PUSH) {
        errno = ENOTSUP;
        return -1;
    }
    if (!s->more()) {
        while (s->in.empty()) {
            if ((flags & ZMQ_DONTWAIT) || !fz::hooks().idle || !fz::hooks().idle(-1)) {
                errno = EAGAIN;
                return -1;
            }
        }
        s->cur = std::move(s->in.front());
        s->in.pop_front();
        s->pos = 0;
        if (fz::hooks().recv) fz::hooks().recv(*s, s->cur);
    }
    if (!m->p) zmq_msg_init(m);
    auto *x = static_cast<fz::Msg *>(m->p);
    x->clear();
    x->own = s->cur[s->pos++];
    const int n = static_cast<int>(x->own.size());
    if (s->pos == s->cur.size()) {
        s->cur.clear();
        s->pos = 0;
    }
    return n;
}
inline int zmq_msg_send(zmq_msg_t *m, void *v, int flags) {
    auto *s = static_cast<fz::Sock *>(v);
    fz::enter(s);
    s->writer = (flags & ZMQ_SNDMORE) && fz::hooks().who ? fz::hooks().who() : nullptr;
    if (s->type == ZMQ_SUB || s->type == ZMQ_PULL) {
        errno = ENOTSUP;
        return -1;
    }
    auto     *x = static_cast<fz::Msg *>(m->p);
    const int n = static_cast<int>(x->size());
    s->out.emplace_back(x->data(), x->size());
    x->clear();
    if (!(flags & ZMQ_SNDMORE)) {
        auto f = std::move(s->out);
        s->out.clear();
        fz::deliver(s, std::move(f));
    }
    return n;
}
inline int zmq_poll(zmq_pollitem_t *items, int n, long timeout) {
    for (int i = 0; i < n; ++i)
        if (items[i].socket) fz::enter(static_cast<fz::Sock *>(items[i].socket));
    while (true) {
        int ready = 0;
        for (int i = 0; i < n; ++i) {
            items[i].revents = 0;
            if (items[i].socket) {
                auto *s = static_cast<fz::Sock *>(items[i].socket);
                if ((items[i].events & ZMQ_POLLIN) && s->readable()) items[i].revents |= ZMQ_POLLIN;
                if (items[i].events & ZMQ_POLLOUT) items[i].revents |= ZMQ_POLLOUT;
            } else if ((items[i].events & ZMQ_POLLIN) && fz::hooks().fdReadable && fz::hooks().fdReadable(items[i].fd)) items[i].revents |= ZMQ_POLLIN;
            if (items[i].revents) ++ready;
        }
        if (ready || timeout == 0) return ready;
        if (!fz::hooks().idle || !fz::hooks().idle(timeout)) return 0;
        // the hook returned because something changed
    }
}
inline const char *zmq_strerror(int) { return "error"; }
inline int         zmq_errno() { return errno; }
inline void        zmq_version(int *a, int *b, int *c) { *a = 4, *b = 3, *c = 5; }
#endif
