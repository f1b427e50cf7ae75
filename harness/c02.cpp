#include <algorithm>
#include "seqdrv.hpp"
#include <archon/core/vector.hpp>
using namespace archon;

template<class E, std::size_t N, bool tracked, bool movable>
void go(vp::Args& args, vp::Trace& trace, vp::Rng& rng, bool scripts, long episodes)
{
    using C = core::Vector<E, N>;
    std::vector<std::string> ops { "push_back", "pop_back", "clear", "resize", "append", "append_each",
        "assign", "assign_each", "construct", "reserve", "reserve_extra", "shrink", "push_back", "push_back", "pop_back", "resize" };
    if (movable) for (const char* s : { "erase", "erase", "erase", "insert", "insert", "insert", "insert", "move_construct", "move_assign", "move_assign" }) ops.push_back(s);
    vp::SeqDriver<C, E, tracked, movable> d(trace, rng);
    if (scripts) for (auto& s : args.scripts) d.script(s, ops);
    for (long k = 0; k < episodes; ++k) d.random_episode(ops, args.steps, int(rng.range(3, 14)), tracked && k % 2 == 1);
    d.finish();
}

int main(int argc, char** argv)
{
    vp::Args args(argc, argv);
    vp::Trace trace(args.trace);
    vp::Rng rng(args.seed);
    long n = args.episodes;
    go<vp::Elem<true>, 2, true, true>(args, trace, rng, true, n / 4);
    go<vp::Elem<true>, 0, true, true>(args, trace, rng, false, n / 8);
    go<vp::Elem<true>, 5, true, true>(args, trace, rng, false, n / 8);
    go<vp::Elem<false>, 0, true, false>(args, trace, rng, false, n / 8);
    go<vp::Elem<false>, 3, true, false>(args, trace, rng, false, n / 8);
    go<int, 4, false, true>(args, trace, rng, false, n / 8);
    go<int, 0, false, true>(args, trace, rng, false, n / 8);
    if (!vp::Life::live.empty()) { std::fprintf(stderr, "%zu element objects are left\n", vp::Life::live.size()); return 1; }
}
