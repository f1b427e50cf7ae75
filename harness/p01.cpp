// Patterns with functions that have parameters of many different types
#include "cli_common.hpp"

using namespace vpcli;
using S = std::string;
using V = std::string_view;
using N = std::size_t;
using M = std::monostate;
template<class U> using O = std::optional<U>;
template<class U> using R = std::vector<U>;
template<class... U> using A = std::variant<U...>;
template<class... U> using T = std::tuple<U...>;
template<class U, class W> using P = std::pair<U, W>;

int main(int argc, char** argv)
{
    vp::Args a(argc, argv);
    vp::Rng rng(a.seed);
    vp::Trace trace(a.trace);
    Plan plan;
    plan.sigs = {
        Sig<>::make, Sig<S>::make, Sig<int>::make, Sig<S, int>::make, Sig<bool>::make, Sig<N>::make, Sig<V, V, V>::make,
        Sig<O<S>>::make, Sig<O<int>, S>::make, Sig<bool, O<M>, S>::make, Sig<R<S>>::make, Sig<S, R<int>>::make,
        Sig<R<S>, int>::make, Sig<N, N, S>::make, Sig<O<T<S, int>>>::make, Sig<O<P<S, S>>, bool>::make,
        Sig<R<T<S, bool>>>::make, Sig<R<P<int, S>>, O<S>>::make, Sig<R<M>, S>::make, Sig<R<R<S>>>::make,
        Sig<A<S, M>>::make, Sig<A<T<S, int>, S, M>>::make, Sig<A<M, M, M>, S>::make, Sig<A<O<S>, T<int, int>>>::make,
        Sig<A<R<S>, int>, bool>::make, Sig<R<A<S, int>>>::make, Sig<R<A<M, S>>, N>::make, Sig<O<A<S, M>>>::make,
        Sig<O<R<T<S, S>>>>::make, Sig<O<O<S>>>::make, Sig<O<T<O<S>, bool>>>::make, Sig<R<std::array<S, 2>>>::make,
        Sig<O<std::array<int, 2>>>::make, Sig<R<O<S>>>::make, Sig<S, O<T<S, O<T<S, O<S>>>>>>::make,
        Sig<A<T<R<S>, int>, T<bool, O<int>>, T<N, S>>>::make, Sig<R<T<S, R<int>>>>::make, Sig<R<T<int, O<S>, N>>>::make,
        Sig<A<A<S, M>, M>>::make, Sig<R<T<A<S, T<int, int>>, bool>>, O<S>>::make, Sig<bool, bool, N, bool>::make,
    };
    plan.max_opts = 2;
    Maker maker(rng, plan);
    for (long k = 0; k < a.episodes; ++k) {
        Session s;
        plan.decorate = rng.chance(70) ? 45 : 10;
        maker.make(s);
        s.build(trace);
        for (long j = 0; j < a.steps && s.usable; ++j)
            s.process(Liner { rng, *s.specs[0], s.specs }.line(), trace);
        trace.flush();
    }
}
