// Force-included before decode.cpp: replaces std::discrete_distribution by scripted choice points.
#pragma once
#include <random>
#include <vector>
#include <cmath>
namespace vmc {
template <class X> struct Shared { static std::vector<int> script; static std::vector<double> probs; static std::vector<int> sizes; static size_t at; };
template <class X> std::vector<int> Shared<X>::script;
template <class X> std::vector<double> Shared<X>::probs;
template <class X> std::vector<int> Shared<X>::sizes;
template <class X> size_t Shared<X>::at = 0;
}
extern "C" {
#define VMC_API __attribute__((used, visibility("default"))) inline
VMC_API void vmc_set(const int* s, int n) { vmc::Shared<int>::script.assign(s, s + n); vmc::Shared<int>::probs.clear(); vmc::Shared<int>::sizes.clear(); vmc::Shared<int>::at = 0; }
VMC_API int vmc_points() { return (int)vmc::Shared<int>::sizes.size(); }
VMC_API int vmc_size(int i) { return vmc::Shared<int>::sizes[i]; }
VMC_API int vmc_total() { return (int)vmc::Shared<int>::probs.size(); }
VMC_API double vmc_prob(int i) { return vmc::Shared<int>::probs[i]; }
}
namespace std {
template <class T = int> class vmc_discrete_distribution {
    std::vector<double> p;
    void norm() {   // as std::discrete_distribution: weights are normalised, an empty/one-element list always gives 0
        double s = 0; for (double v : p) s += v;
        if (p.size() < 2) { p.assign(1, 1.0); return; }
        for (double& v : p) v /= s;
    }
public:
    typedef T result_type;
    vmc_discrete_distribution() { norm(); }
    template <class It> vmc_discrete_distribution(It a, It b) : p(a, b) { norm(); }
    vmc_discrete_distribution(std::initializer_list<double> l) : p(l) { norm(); }
    template <class G> T operator()(G&) {
        typedef vmc::Shared<int> S;
        for (double v : p) S::probs.push_back(v);
        S::sizes.push_back((int)p.size());
        size_t i = S::at++;
        if (i < S::script.size()) return (T)S::script[i];
        for (size_t k = 0; k < p.size(); k++) if (p[k] > 0) return (T)k;   // default: first possible outcome
        return (T)0;
    }
    void reset() {}
    std::vector<double> probabilities() const { return p; }
};
}
#define discrete_distribution vmc_discrete_distribution
