// P09: published parameters, judged by their defining equations (spec/T_Params.tla).
#include "params.hpp"
using namespace vt;
static void put(const Dump &d) { for (const S &x : d) Ev("param").raw("x", x); }
// cofactor times order annihilates every point of the curve
template<class G> void annihilated(Rng &g) {
    for (int i = 0; i < N(2, 20); i++) Ev("oncurve").str("g", C<G>::name()).raw("P", js(any_point<G>(g)));
}
int main(int, char **argv) {
    open_trace(argv[1]);
    init_all_curves();
    Rng g(seed() * 7919);
#define D(c) Begin(); put(dump_##c(g)); annihilated<c##_G1>(g); annihilated<c##_G2>(g);
    for (int i = 0; i < N(1, 4); i++) { D(alt_bn128) D(bls12_381) D(edwards) D(mnt4) D(mnt6) }
    Begin(); put(dump_binary());
    close_trace();
}
