// the real Majordomo worker on the stand-ins (no HTML templates)
#ifndef VERIF_MDP_WORKER_HPP
#define VERIF_MDP_WORKER_HPP
#include "mdp_common.hpp"
#define OPENCMW_MUSTACHESERIALISER_H
#include <cmrc/cmrc.hpp>
CMRC_DECLARE(assets);
namespace opencmw::mustache {
template<typename... P>
void serialise(const cmrc::embedded_filesystem &, const std::string &name, std::ostream &o, P &&...) {
    o << "<html>" << name << "</html>";
}
} // namespace opencmw::mustache
#include <majordomo/Worker.hpp>
#endif
