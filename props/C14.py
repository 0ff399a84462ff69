"""C14: exact dimension of equidistribution."""
from lattasks import *
import C01
UNITS = ["rt.cpp", "util.cpp"]
LEVEL = "proof"
NOTE = "linear_generator_vector and AlgorithmEquidistribution for 32- and 64-bit words, every generator (through its interface contract), state size and width: each heap function under contract (the constructors, add, next_state, adjust, get_equidist_main, get_all_equidist, get_equidist), with the loop invariant 'the first v+1 objects generate the lattice of the v-bit outputs, the first v in triangular form' over symbolic heap arrays. The mathematics (a triangular reduced basis has minimal count k(v) exactly; operations keep the lattice; truncation) is proved in lean/Lattice.lean and re-checked on every run; facts about bit positions used by the contracts are obligations here. The proof is of partial correctness: that the reduction loop ends is exercised by the bounded driver only."
ASSUMPTIONS = ["the generator is linear and its components behave as the interface contract says (C05, C07, C23)", "counts of outputs stay below 2^30, state size at most 2^20 bits", "the generator passed to each lattice object is a separate clone (interface contract of clone)"]
TRUSTED = ["std::shared_ptr, std::swap", "correspondence of the abstract vectors VEC/SPAN/LATTICE with vec/spn/lat of lean/Lattice.lean (definitions, read by eye)", "iostream output (not observed)"]
BOUNDED = ["termination of get_equidist_main: real code run on random linear generators of up to 62 state bits against exact linear algebra, for the driver's time budget"]
CFG = [Cfg(32, "unsigned int"), Cfg(64, "unsigned long")]
def tasks(tier):
    T_ = [lean_task("Lattice.lean", ["vec_step", "vec_add", "spn_update", "spn_reindex", "spn_drop", "trunc", "vec_zero", "dimension", "bound"]), lemmas(32), lemmas(64)]
    T_ += [t for t in C01.tasks(tier) if t.name in ("calc_1pos u32", "calc_1pos u64")]
    for c in CFG: T_ += [next_state(c), ctors(c), add_task(c), main(c), adjust(c), ctor(c), sums(c, "get_all_equidist"), sums(c, "get_equidist")]
    return T_
