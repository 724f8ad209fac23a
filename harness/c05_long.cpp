//@ property C05
//@ theory real
//@ modes debug release
//@ reach forward backward mixed flat deep scattered plain reuse fast
//@ bounds a larger instance: a chain of 20 blocks with feedback through an integrator, created in 3 orders, flat, each block one level deeper than the one before it (depth 21), or scattered over 5 submodels; all simulators, initialization and 2 Euler runs; all values symbolic
#include "chain.hpp"

void pse_main() { long_chain(); }
