// Which specifications are accepted
#include "cli_common.hpp"

using namespace vpcli;
using S = std::string;
using N = std::size_t;
using M = std::monostate;
template<class U> using O = std::optional<U>;
template<class U> using R = std::vector<U>;
template<class... U> using A = std::variant<U...>;
template<class... U> using T = std::tuple<U...>;

namespace {

const std::vector<std::string> garbage { "$", "a $", "<v", "..", "a ..", "[a,b]", "a,b", "a,", ",", "{a}", "a;b", "<v> ....",
                                         "a | b", "( <v> | b", "a...b", "[]", "()", "...", "a \"b\"", "[a|]", "<v>[", ". a" };
const std::vector<std::string> bad_forms { "x", "-x --foo", "[-x]", "-x | --foo", "-x,,--foo", "-x,", ",-x", "<v>", "-x...",
                                           "-x $", "-x, y", "--foo <v>", "" , " ", "-x --" };
const std::vector<std::string> bad_args { "foo", "<x> <y>", "[[<x>]]", "<x>...", "[<x>", "-x", "<x> | <y>", "<x>, <y>", "[]", "<x",
                                          "[foo]", "[<x>] [<y>]", "--", "[<x>...]" };

struct Flawed {
    vp::Rng& rng;
    Maker& maker;
    Plan& plan;

    Tok token(Symbols& s)
    {
        switch (rng.below(9)) {
            case 0: return { "[", "[", true };
            case 1: return { "]", "]", false };
            case 2: return { "(", "(", true };
            case 3: return { ")", ")", false };
            case 4: return { "...", "...", false };
            case 5: return { "|", "|", true };
            case 6: return { "val", "<v>", true };
        }
        Node n = s.next();
        return { n.k, n.x, true };
    }
    std::unique_ptr<SpecDesc> make()
    {
        auto d = std::make_unique<SpecDesc>();
        plan.max_opts = rng.chance(50) ? 0 : 4;
        int flaw = int(rng.below(14));
        maker.make_options(*d);
        if (!d->opts.empty())
            flaw_options(*d, flaw);
        Symbols syms = maker.symbols(*d);
        if (flaw == 5)
            for (const Option& o : d->opts)
                for (const std::string& f : o.forms)
                    (f[1] == '-' ? syms.los : syms.sos).push_back(f);
        if (rng.chance(30))
            syms.kws = { "a", "b" };
        d->xamb = rng.chance(25);
        d->pamb = rng.chance(25);
        int n = int(rng.below(4));
        for (int i = 0; i < n; ++i) {
            if (rng.chance(50))
                syms.used.clear();
            Pattern p;
            p.id = i;
            p.compl_ = rng.chance(30);
            p.mute = true;
            if (rng.chance(flaw == 6 ? 70 : 15)) {
                p.deleg = true;
                p.nodes = rng.chance(15) ? Nodes() : syms.plain(3);
            }
            else
                rng.pick(plan.sigs)(p, syms);
            Printer pr { rng, {} };
            pr.seq(p.nodes, 0, p.nodes.size());
            Toks toks = pr.out;
            if (flaw == 7 || flaw == 8 || flaw == 9) {
                // Another text than that which the function was made for
                if (rng.chance(50)) {
                    int k = 1 + int(rng.below(2));
                    for (int j = 0; j < k; ++j) {
                        std::size_t at = toks.empty() ? 0 : std::size_t(rng.below(long(toks.size())));
                        if (toks.empty() || rng.chance(40))
                            toks.insert(toks.begin() + long(at), token(syms));
                        else if (rng.chance(50))
                            toks.erase(toks.begin() + long(at));
                        else if (rng.chance(50))
                            toks[at] = token(syms);
                        else
                            toks[at].sp = !toks[at].sp;
                    }
                }
            }
            if (flaw == 10 && !p.deleg) {
                Pattern q;
                rng.pick(plan.sigs)(q, syms);
                p.add = q.add;
                p.types = q.types;
                p.fn = q.fn;
            }
            set_tokens(p, toks, rng);
            if (flaw == 11 && rng.chance(50)) {
                p.bad = true;
                p.text = rng.pick(garbage);
            }
            p.badattr = flaw == 12 && rng.chance(50);
            d->pats.push_back(std::move(p));
        }
        return d;
    }
    void flaw_options(SpecDesc& d, int flaw)
    {
        Option& o = d.opts[std::size_t(rng.below(long(d.opts.size())))];
        bool standard = o.forms.size() == 1 && o.forms[0] == "--";
        if (standard)
            return;
        switch (flaw) {
            case 0:
                o.badforms = true;
                o.forms.clear();
                o.forms_text = rng.pick(bad_forms);
                break;
            case 1:
                o.badarg = true;
                o.arg_text = rng.pick(bad_args);
                break;
            case 2:
                o.badattr = true;
                break;
            case 3:
                // Any argument with any action
                switch (rng.below(3)) {
                    case 0: o.arg = "none"; o.arg_text = ""; break;
                    case 1: o.arg = "req"; o.arg_text = "<x>"; break;
                    case 2: o.arg = "opt"; o.arg_text = "[<x>]"; break;
                }
                break;
            case 4:
                if (rng.chance(50)) {
                    o.sc = rng.chance(50);
                    o.stop = !o.sc;
                }
                else {
                    const Option& q = d.opts[std::size_t(rng.below(long(d.opts.size())))];
                    std::string f = rng.pick(q.forms);
                    o.forms.push_back(f);
                    o.forms_text += ", " + f;
                }
                break;
        }
    }
};

} // namespace

int main(int argc, char** argv)
{
    vp::Args a(argc, argv);
    vp::Rng rng(a.seed);
    vp::Trace trace(a.trace);
    Plan plan;
    plan.sigs = {
        Sig<>::make, Sig<S>::make, Sig<int, S>::make, Sig<bool>::make, Sig<N>::make, Sig<bool, S>::make, Sig<O<S>>::make,
        Sig<R<S>>::make, Sig<R<M>>::make, Sig<O<M>, bool>::make, Sig<A<S, M>>::make, Sig<A<M, M, M>>::make, Sig<R<R<S>>>::make,
        Sig<O<T<S, int>>>::make, Sig<R<T<S, bool>>>::make, Sig<A<O<S>, T<int, int>>>::make, Sig<A<R<S>, int>, N>::make,
        Sig<O<O<S>>>::make, Sig<S, O<T<S, O<S>>>>::make, Sig<A<O<S>, O<int>>>::make, Sig<O<R<S>>>::make, Sig<R<O<int>>>::make,
        Sig<R<std::array<S, 2>>>::make, Sig<O<std::pair<S, int>>>::make, NoSig::make, NoSig::make,
    };
    Maker maker(rng, plan);
    // Patterns of which all short ones are considered; the first may be a delegating one
    for (const vp::J& j : a.scripts) {
        Session s;
        auto d = std::make_unique<SpecDesc>();
        d->xamb = rng.chance(15);
        d->pamb = rng.chance(15);
        const auto& pats = j["pats"].a;
        for (std::size_t i = 0; i < pats.size(); ++i) {
            Pattern p;
            p.id = int(i);
            Toks toks;
            bool values = false;
            for (const vp::J& t : pats[i].a) {
                bool val = t["k"].s == "val";
                values = values || val;
                toks.push_back({ t["k"].s, val ? "<v>" : t["x"].s, true });
            }
            p.deleg = rng.chance(values ? 5 : 50);
            p.add = &NoSig::add;
            set_tokens(p, toks, rng);
            d->pats.push_back(std::move(p));
        }
        s.specs.push_back(std::move(d));
        s.build(trace);
    }
    Flawed flawed { rng, maker, plan };
    for (long k = 0; k < a.episodes; ++k) {
        Session s;
        s.specs.push_back(flawed.make());
        s.build(trace);
        trace.flush();
    }
}
