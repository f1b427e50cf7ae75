#include <algorithm>
#include "seqdrv.hpp"
#include <archon/core/deque.hpp>
using namespace archon;

template<class E, bool tracked, bool movable>
void go(vp::Args& args, vp::Trace& trace, vp::Rng& rng, bool scripts, long episodes)
{
    using C = core::Deque<E>;
    std::vector<std::string> ops { "push_back", "push_front", "pop_back", "pop_front", "clear", "resize", "append", "append_each",
        "assign", "assign_each", "construct", "copy_construct", "copy_assign", "move_construct", "move_assign", "swap",
        "reserve", "reserve_extra", "shrink", "push_back", "push_front", "pop_back", "pop_front" };
    if (movable) for (int i = 0; i < 5; ++i) ops.push_back("erase");
    vp::SeqDriver<C, E, tracked, movable> d(trace, rng);
    if (scripts) for (auto& s : args.scripts) d.script(s, ops);
    for (long k = 0; k < episodes; ++k) d.random_episode(ops, args.steps, int(rng.range(3, 14)), tracked && k % 2 == 1);
    d.finish();
}

int main(int argc, char** argv)
{
    vp::Args args(argc, argv);
    vp::Trace trace(args.trace);
    vp::Rng rng(args.seed);
    go<vp::Elem<true>, true, true>(args, trace, rng, true, args.episodes / 2);
    go<vp::Elem<false>, true, false>(args, trace, rng, false, args.episodes / 4);
    go<int, false, true>(args, trace, rng, false, args.episodes / 4);
    if (!vp::Life::live.empty()) { std::fprintf(stderr, "%zu element objects are left\n", vp::Life::live.size()); return 1; }
}
