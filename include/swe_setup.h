// The parallel preprocessors: two submeshes (and a third one between them in the list that is not connected) that exchange messages through a communicator that checks the order of the calls
// and delivers what was in the send buffer when the send was started.
#define TRACE_INPUT double
#include "swe_trace.h"
#include "problem/SWE/problem_preprocessor/swe_pre_init_data.hpp"
namespace {
struct Comm {
    Wire *out = nullptr, *in = nullptr; Comm* partner = nullptr; std::vector<int> sending, receiving; std::vector<int> sent, got; Wire wire;
    void start(std::size_t n, Wire& o, Wire& i, Comm& p) { out = &o; in = &i; partner = &p; sending.assign(n, 0); receiving.assign(n, 0); sent.assign(n, 0); got.assign(n, 0); wire.resize(n); }
    void ReceiveAll(uint c, uint) { ENSURES("receive not posted twice", !receiving[c]); receiving[c] = true; for (double& x : (*in)[c]) x = REAL("receive buffer before the message arrives"); }
    void SendAll(uint c, uint) { ENSURES("send not posted twice", !sending[c]); sending[c] = true; ++sent[c]; wire[c] = (*out)[c]; }
    void WaitAllReceives(uint c, uint) {
        ENSURES("receive was posted", receiving[c]); ENSURES("the partner has sent (no deadlock)", partner->sent[c] == got[c] + 1); receiving[c] = false; ++got[c]; (*in)[c] = partner->wire[c];
    }
    void WaitAllSends(uint c, uint) { ENSURES("send was posted", sending[c]); sending[c] = false; for (std::size_t k = 0; k < wire[c].size(); ++k) ENSURES_EQ("send buffer untouched", (*out)[c][k], wire[c][k]); }
    void idle() { for (std::size_t c = 0; c < sent.size(); ++c) ENSURES("no operation left open, every message received", !sending[c] && !receiving[c] && partner->sent[c] == got[c]); }
};
template <class> struct Unit {
    SETUP_DISC discretization; Comm communicator; double problem_input = 0; 
};
// the common initialization: each submesh announces a number and hears its neighbour's
double heard[3]; int posted[3];
}
namespace SWE {
template <> inline void initialize_data_parallel_pre_send(Mesh& m, const double& in, uint c) { ENSURES_INT("kind of message", c, SETUP_NS::CommTypes::baryctr_coord); if (!m.dbounds.empty()) m.dbounds[0]->boundary_condition.exchanger.SetToSendBuffer(c, {in, in + 1}); ++posted[m.id]; }
template <> inline void initialize_data_parallel_post_receive(Mesh& m, uint c) { ENSURES_INT("kind of message", c, SETUP_NS::CommTypes::baryctr_coord); std::vector<double> v(2); ++posted[m.id]; if (!m.dbounds.empty()) m.dbounds[0]->boundary_condition.exchanger.GetFromReceiveBuffer(c, v); heard[m.id] = v[1]; }
template <> inline void initialize_data_serial(Mesh& m, const double& in) { ++posted[m.id]; heard[m.id] = in; }
}
namespace {
struct Setup {
    Part p, q, r; Wire pr, rp, p_in, r_in, alone; std::vector<std::unique_ptr<Unit<Own>>> units; std::vector<uint> offsets;
    Setup(uint n, uint nt, uint kinds) : p(n, nt, 0, (uint)vc_choose("side", 0, 2)), q(n, nt, 1, 2), r(n, nt, 1, (uint)vc_choose("other side", 0, 2)), pr(kinds), rp(kinds), p_in(kinds), r_in(kinds), alone(kinds), offsets(kinds, 3) {
        for (Wire* w : {&pr, &rp, &p_in, &r_in}) for (auto& b : *w) b.resize(20);
        p.split(0, 0, 0, 2, offsets, pr, p_in); r.split(0, 2, 0, 0, offsets, rp, r_in);
        for (int u = 0; u < 3; ++u) { units.emplace_back(new Unit<Own>()); Part& x = u == 2 ? r : u ? q : p; x.discretization.mesh.id = u; heard[u] = 0; posted[u] = 0; units[u]->problem_input = REAL("announced"); units[u]->discretization.mesh = x.discretization.mesh; 
#ifndef SETUP_PLAIN
            units[u]->discretization.mesh_skeleton = x.discretization.mesh_skeleton;
#endif
        }
        units[0]->communicator.start(kinds, pr, p_in, units[2]->communicator); units[1]->communicator.start(kinds, alone, alone, units[1]->communicator); units[2]->communicator.start(kinds, rp, r_in, units[0]->communicator);
    }
    void check(uint stages) {
        for (int u = 0; u < 3; ++u) {
            units[u]->communicator.idle(); ENSURES_INT("initialized once, before and after the exchange", posted[u], 2); if (u != 1) ENSURES_EQ("heard the neighbour", heard[u], units[2 - u]->problem_input + 1);
            for (auto e : units[u]->discretization.mesh.elements) ENSURES_INT("room for the stages", e->data.state.size(), stages + 1);
        }
    }
};
}
#define SETUP_SERIAL(D, G)                                                                                                          \
    Part p(2, (uint)vc_choose("trace functions", 1, 2), (uint)vc_choose("side", 0, 2), 1); D d; G g; double in = REAL("in"); posted[0] = 0; \
    d.mesh = p.discretization.mesh;
