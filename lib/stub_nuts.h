// Force-included before mcmc.cpp: the sampler's uniform and exponential draws become scripted choice points.
#pragma once
#include <random>
#include <vector>
namespace vmc {
template <class X> struct Nuts { static std::vector<double> u, e; static size_t ui, ei; };
template <class X> std::vector<double> Nuts<X>::u;
template <class X> std::vector<double> Nuts<X>::e;
template <class X> size_t Nuts<X>::ui = 0;
template <class X> size_t Nuts<X>::ei = 0;
}
extern "C" {
#define VMC_API __attribute__((used, visibility("default"))) inline
VMC_API void nuts_set(const double* u, int nu, const double* e, int ne) {
    typedef vmc::Nuts<int> S;
    S::u.assign(u, u + nu); S::e.assign(e, e + ne); S::ui = 0; S::ei = 0;
}
VMC_API int nuts_u() { return (int)vmc::Nuts<int>::ui; }
VMC_API int nuts_e() { return (int)vmc::Nuts<int>::ei; }
}
namespace std {
template <class T = double> class vmc_uniform {
    double a, b;
public:
    typedef T result_type;
    vmc_uniform(double lo = 0, double hi = 1) : a(lo), b(hi) {}
    template <class G> T operator()(G&) {
        typedef vmc::Nuts<int> S;
        size_t i = S::ui++;
        return a + (b - a) * (i < S::u.size() ? S::u[i] : 0.5);
    }
    void reset() {}
};
template <class T = double> class vmc_exponential {
    double l;
public:
    typedef T result_type;
    vmc_exponential(double rate = 1) : l(rate) {}
    template <class G> T operator()(G&) {
        typedef vmc::Nuts<int> S;
        size_t i = S::ei++;
        return (i < S::e.size() ? S::e[i] : 1.0) / l;
    }
    void reset() {}
};
}
#define uniform_real_distribution vmc_uniform
#define exponential_distribution vmc_exponential
