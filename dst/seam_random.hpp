// Compiled into the simulator ahead of its own sources: lets the harness dictate the uniform draws (nothing dictated: unchanged).
#ifndef DST_SEAM_RANDOM_HPP
#define DST_SEAM_RANDOM_HPP
#include <random>
namespace dst {
static const double* draws = nullptr;
static long ndraws = 0, used = 0;
}
namespace std {
template <class T = double>
class dst_uniform_real_distribution : public uniform_real_distribution<T> {
    using B = uniform_real_distribution<T>;
public:
    using B::B;
    template <class G> T operator()(G& g){
        T v = B::operator()(g);
        if (dst::used < dst::ndraws)
            return this->a() + (this->b() - this->a()) * T(dst::draws[dst::used++]);
        return v;
    }
};
}
#define uniform_real_distribution dst_uniform_real_distribution
extern "C" __attribute__((visibility("default"), used)) void dst_set_draws(const double* d, long n){
    dst::draws = d; dst::ndraws = n; dst::used = 0;
}
extern "C" __attribute__((visibility("default"), used)) long dst_used_draws(){ return dst::used; }
#endif
