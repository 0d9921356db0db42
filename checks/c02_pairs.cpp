// C02: binary set algebra on 32-bit bitmaps.
#include "pairs.hpp"
int main(int argc, char **argv) {
    auto &e = mc::E();
    e.init(argc, argv, "C02");
    hk::install();
    PairOpts o;
    run_pair_families(o);
    e.rule = "a case is one ordered pair of operand bitmaps (contents x representation x key layout) under one "
             "instruction-set level; every binary operation, count and predicate is compared with interval-set "
             "arithmetic; distinct outcomes are hashes of (operands, results)";
    return e.finish();
}
