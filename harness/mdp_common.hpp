// common parts of the Majordomo harnesses: the stand-in for libzmq, virtual time, a stand-in for the REST server,
// and the recording of messages as JSON
#ifndef VERIF_MDP_COMMON_HPP
#define VERIF_MDP_COMMON_HPP
#define VS_NO_AUTO_SHADOW
#include <vsched.hpp>

#include <cassert>
#include <cmath>
#include <set>
#define OPENCMW_MAJORDOMO_RESTSERVER_HPP // the REST server needs nghttp2/nghttp3/ngtcp2: replaced by a stand-in
#include <zmq.h>

#include <IoBuffer.hpp>
#include <MdpMessage.hpp>
#include <MIME.hpp>
#include <opencmw.hpp>
#include <Topic.hpp>
#include <majordomo/Rest.hpp>
#include <QuerySerialiser.hpp>
#include <zmq/ZmqUtils.hpp>

#include "hutil.hpp"

namespace mh {
inline std::string js(std::string_view s) { // JSON string; bytes outside of printable ASCII as \xNN text
    std::string r = "\"";
    char        b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') r += '\\', r += static_cast<char>(c);
        else if (c < 32 || c > 126) {
            std::snprintf(b, sizeof b, "<%02x>", c);
            r += b;
        } else r += static_cast<char>(c);
    }
    return r + "\"";
}
struct M { // the eight frames every message has
    std::string p, c, s, r, t, d, e, b;
};
inline M    ofFrames(const fz::Frames &f, std::size_t o) { return { f[o], f[o + 1], f[o + 2], f[o + 3], f[o + 4], f[o + 5], f[o + 6], f[o + 7] }; }
inline fz::Frames frames(const M &m) { return { m.p, m.c, m.s, m.r, m.t, m.d, m.e, m.b }; }
inline int  cmd(const M &m) { return m.c.size() == 1 ? static_cast<unsigned char>(m.c[0]) : -1; }
inline std::string json(const M &m) {
    return "{\"p\":" + js(m.p) + ",\"c\":" + std::to_string(cmd(m)) + ",\"s\":" + js(m.s) + ",\"r\":" + js(m.r) + ",\"t\":" + js(m.t) + ",\"d\":" + js(m.d) + ",\"e\":" + js(m.e) + ",\"b\":" + js(m.b) + "}";
}
template<opencmw::mdp::MessageFormat F>
M ofMessage(const opencmw::mdp::BasicMessage<F> &m) {
    return { m.protocolName, std::string(1, static_cast<char>(m.command)), m.serviceName, std::string(m.clientRequestID.asString()), std::string(m.topic.str()), std::string(m.data.asString()), m.error, std::string(m.rbac.asString()) };
}
inline std::string C(int c) { return std::string(1, static_cast<char>(c)); }
enum { GET = 1, SET, PARTIAL, FINAL, READY, DISCONNECT, SUBSCRIBE, UNSUBSCRIBE, NOTIFY, HEARTBEAT };
inline const std::string PC = "MDPC03", PW = "MDPW03";
inline std::int64_t      nowMs() { return vs::S().vtime / 1'000'000; }
inline void              advance(std::int64_t ms) { vs::S().vtime += ms * 1'000'000; }
} // namespace mh

namespace opencmw::rest::detail {
inline void setupIgnoreSigpipe() {}
} // namespace opencmw::rest::detail
namespace opencmw::majordomo::detail::rest {
struct RestServer { // records what the broker hands to the REST side and injects requests
    using BM = mdp::BasicMessage<mdp::MessageFormat::WithSourceId>;
    struct Hub {
        std::vector<BM>                                          in;
        std::function<void(const mdp::Topic *, const mh::M &)> out;
    };
    static Hub &hub() {
        static Hub h;
        return h;
    }
    static std::expected<RestServer, std::string> sslWithPaths(auto &&...) { return RestServer{}; }
    static std::expected<RestServer, std::string> sslWithBuffers(auto &&...) { return RestServer{}; }
    static std::expected<RestServer, std::string> unencrypted() { return RestServer{}; }
    void                                          setHandlers(auto &&) {}
    std::expected<void, std::string>              bind(auto &&...) { return {}; }
    std::vector<BM>                               processReadWrite(int, bool, bool) { return std::exchange(hub().in, {}); }
    void                                          populatePollerItems(std::vector<zmq_pollitem_t> &v) {
        if (!hub().in.empty()) v.push_back({ .socket = nullptr, .fd = 1, .events = ZMQ_POLLIN, .revents = ZMQ_POLLIN });
    }
    void handleNotification(const mdp::Topic &t, BM &&m) { hub().out(&t, mh::ofMessage(m)); }
    void handleResponse(BM &&m) { hub().out(nullptr, mh::ofMessage(m)); }
};
} // namespace opencmw::majordomo::detail::rest
namespace opencmw::majordomo {
VS_SHADOW_STD
}
#include <majordomo/Broker.hpp>
#endif
