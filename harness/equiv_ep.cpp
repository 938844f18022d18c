// C25: the workloads of the other properties, chosen pseudo-randomly. run.py executes the same episodes against the modular
// sources, the checked-in distribution and a regenerated one, and compares the digests of everything observable
// (return values, records, streams, operator rows, storage contents).
#include "core.h"

void equivEpisode(const std::string &, uint64_t seed, uint64_t ix, bool th) {
    static const char *SUB[] = {"C19", "C20", "C10", "C24", "C31", "C13", "C09", "C23", "C11", "C07", "C16", "C17", "C15", "C03", "C21", "C30", "C26", "C14", "C18", "C02"};
    Rng r(mix(mix(seed, 0xe9), ix));
    std::string p = SUB[ix % 20];
    uint64_t sub = r.next() % 1000000;
    TRACE("workload of %s, seed %llu", p.c_str(), (unsigned long long)sub);
    dispatch(p, sub, ix, th);
    cnt("workloads_compared");
    cnt(("workload_" + p).c_str());
    g_nontrivial = true;
}
