// Tide and flow boundary input: two nodes, up to three constituents with arbitrary data
#ifndef SWE_FORCING_H
#define SWE_FORCING_H
#include "swe_stub.h"
#include "problem/SWE/problem_input/swe_inputs.hpp"
template <class Node> struct Forcing {
    std::size_t C; std::vector<Node> nodes;
    Forcing() : C(vc_choose("constituents", 1, 3)), nodes(2) {
        static const char* f[3] = {"freq0", "freq1", "freq2"}; static const char* ff[3] = {"fact0", "fact1", "fact2"};
        static const char* eq[3] = {"equil0", "equil1", "equil2"};
        static const char* am[3][2] = {{"amp00", "amp01"}, {"amp10", "amp11"}, {"amp20", "amp21"}};
        static const char* ph[3][2] = {{"phase00", "phase01"}, {"phase10", "phase11"}, {"phase20", "phase21"}};
        for (std::size_t c = 0; c < C; ++c) {
            double a = REAL(f[c], 0.1, 2), b = REAL(ff[c], 0.5, 1.5), e = REAL(eq[c], -180, 180);
            for (int n = 0; n < 2; ++n) {
                nodes[n].frequency.push_back(a); nodes[n].forcing_fact.push_back(b); nodes[n].equilib_arg.push_back(e);
                nodes[n].amplitude.push_back(REAL(am[c][n], -0.3, 0.3)); nodes[n].phase.push_back(REAL(ph[c][n], -180, 180));
            }
        }
    }
    template <class B> double value(B& b, std::size_t k, double t, double ramp) const {  // sum of ramped, phase shifted constituents
        double s = 0;
        for (std::size_t c = 0; c < C; ++c) {
            double w0 = b.weights(0, k), w1 = b.weights(1, k);
            double a = nodes[0].amplitude[c] * w0 + nodes[1].amplitude[c] * w1, p = nodes[0].phase[c] * w0 + nodes[1].phase[c] * w1;
            s += ramp * nodes[0].forcing_fact[c] * a * std::cos(nodes[0].frequency[c] * t + (nodes[0].equilib_arg[c] - p) * PI / 180);
        }
        return s;
    }
};
#endif
