// C23: prints the observations of the shared workload, one line per run, so that builds can
// be compared. Within C++11 and without OpenMP requirements.
//   c23 <seed> <from> <to> <scratch dir> <threads, 0 = vary>
#include "combos.hpp"
#include <cstdlib>
#include <sys/stat.h>
#ifdef _OPENMP
#include <omp.h>
#endif
struct Teams { ops::Rng r; int t; explicit Teams(ops::u64 s) : r(s), t(0) {} static void step(void* p, unsigned) { Teams& x = *(Teams*)p; (void)x;
#ifdef _OPENMP
    omp_set_num_threads(x.t ? x.t : (int)x.r.range(1, 8));
#endif
} };
int main(int argc, char** argv) {
    if (argc != 6) return 9;
    ops::u64 seed = strtoull(argv[1], 0, 10); long from = atol(argv[2]), to = atol(argv[3]); mkdir(argv[4], 0755); std::vector<ops::Combo> cs = ops::combos();
    for (long i = from; i < to; ++i) {
        ops::Rng r(ops::mix(seed * 1000003 + (ops::u64)i)); unsigned k = (unsigned)r.below(14); ops::u64 s = r.next(); ops::u64 ml = 1, mm = 1; int wkr = (int)r.below(3); switch (r.below(4)) { case 0: ml = 12; mm = 12; break; case 1: ml = 60; mm = 50; break; case 2: ml = 3000; mm = 1000; break; default: ml = 60; mm = 300; }
        for (size_t c = 0; c < cs.size(); ++c) {
            ops::Env e(s, std::min(ml, ops::class_labels(cs[c].cls)), std::min<size_t>((size_t)mm, ops::class_entries(cs[c].cls)), std::min(wkr, cs[c].wk), argv[4]); Teams t(ops::mix(s)); t.t = atoi(argv[5]); e.step = Teams::step; e.arg = &t;
            printf("%ld %s %s:", i, ops::group_name(k), cs[c].name); ops::Log l = cs[c].fn(e, k);
            for (size_t j = 0; j < l.size(); ++j) printf(" %s=%llx", l[j].first.c_str(), (unsigned long long)l[j].second);
            printf("\n");
        }
        fflush(stdout);
    }
    printf("DONE\n"); return 0;
}
