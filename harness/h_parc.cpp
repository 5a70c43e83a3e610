// Parallel regions over shipped curve groups. MODE = msm
#include "curvemachine.hpp"
#include "expio.hpp"
#ifdef VOMP
#include "vomp.hpp"
void vomp::stuck() { vt::bad_event("WorkersStuck"); }
extern "C" void __tsan_on_report(void *) { vt::bad_event("DataRace"); }
#else
#include <omp.h>
#endif
using namespace vt;
#ifdef USE_MIXED_ADDITION
static const bool SPECIAL = true;
#else
static const bool SPECIAL = false;
#endif
template<class G> std::string jc(const G &p) { return js(p); }
template<class G> void par(int salt) {
    Rng g(seed() * 27644437 + salt); typedef typename G::scalar_field Fr; const Z r = K<Fr>::p();
    { Begin b; b.str("group", C<G>::name()).i("n", 1); }
    for (int i = 0; i < N(3, 30); i++) {
        omp_set_num_threads((int)(2 + g.below(7)));
        size_t len = i == 0 ? 12 : 2 + g.below(8); std::vector<Fr> ks; std::vector<G> ps;
        for (size_t j = 0; j < len; j++) {
            ks.push_back(g.chance(1, 4) ? Fr((long)g.below(3)) : any<Fr>(g));
            G p = any_operand<G>(g); if (SPECIAL) p.to_special(); ps.push_back(p);
        }
        // both ways of reporting, and none
        inhibit_profiling_info = true; inhibit_profiling_counters = i % 2;
        msm_event<G, Fr>(ps, ks, {2 + (size_t)g.below(len - 1), len}, jc<G>);
        size_t w = 1 + g.below(4);
        G q = subgroup_point<G>(g); Fr c = any<Fr>(g);
        fixed_event<G, Fr>(q, Fr::ceil_size_in_bits(), w, ks, nullptr, Z(0), jc<G>);
        fixed_event<G, Fr>(q, Fr::ceil_size_in_bits(), w, ks, &c, r, jc<G>);
    }
}
int main(int, char **argv) {
    open_trace(argv[1]); inhibit_profiling_info = true;
    init_all_curves();
    par<alt_bn128_G1>(1); par<alt_bn128_G2>(2); par<edwards_G1>(3); par<mnt6_G2>(4); par<mnt4_G1>(5); par<bls12_381_G2>(6);
    close_trace(); return 0;
}
