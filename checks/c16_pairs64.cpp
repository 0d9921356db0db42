// C16: every binary operation on every pair from bounded families of 64-bit bitmaps.
#include "pairs64.hpp"
int main(int argc, char **argv) {
    auto &e = mc::E();
    e.init(argc, argv, "C16");
    hk::install();
    PairOpts o;
    p64::families(o);
    e.rule = "every ordered pair from the families (chunk shapes x representations at ten key positions, all pairs of subsets of key pools, "
             "all pairs of index sizes); all four operations in three forms plus all predicates against the interval-set model";
    return e.finish();
}
