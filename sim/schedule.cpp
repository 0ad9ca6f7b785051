#include "core.h"

namespace sim {

void random_switches(rt::prng& r, scenario& s, oracle& orc, std::size_t most) {
    auto strategy = r.below(5);
    for (std::size_t t = 0; t < s.threads.size(); ++t) {
        std::vector<u64> candidates {};
        u64 total = 0;
        for (auto&& o : s.threads[t]) {
            auto&& m = orc.solo(s.prop, o);
            for (auto p : m.points) candidates.push_back(total + p);
            total += m.steps;
        }
        if (total == 0) continue;
        auto k = static_cast<std::size_t>(1 + r.below(most / (s.threads.size())));
        if (strategy == 0) k = 1;
        for (std::size_t i = 0; i < k; ++i) {
            u64 at = !candidates.empty() && r.chance(1, 2) ? candidates[r.below(candidates.size())] : 1 + r.below(total);
            if (strategy == 1) at = 1 + r.below(total / 8 + 1);                       // early
            s.switches.push_back({ static_cast<int>(t), at, static_cast<int>(r.below(4)) });
            if (strategy == 2) for (u64 j = 1; j < 1 + r.below(12); ++j) s.switches.push_back({ static_cast<int>(t), at + j * (1 + r.below(6)), static_cast<int>(r.below(4)) }); // bursts
        }
        if (strategy == 3) { u64 step = total / (20 + r.below(60)) + 1; for (u64 x = step; x < total; x += step) s.switches.push_back({ static_cast<int>(t), x, static_cast<int>(r.below(4)) }); } // round robin
    }
}

} // namespace sim
