// Options, several patterns, and delegation
#include "cli_common.hpp"

using namespace vpcli;
using S = std::string;
template<class U> using O = std::optional<U>;
template<class U> using R = std::vector<U>;

namespace {

// The specifications of which all short command lines are considered (CliMC)
struct Fixed {
    vp::Rng& rng;

    static Option plain(int id, std::vector<std::string> forms, std::string arg, char kind)
    {
        Option o;
        o.id = id;
        o.forms = forms;
        o.forms_text = forms[0] + (forms.size() > 1 ? ", " + forms[1] : "");
        o.arg = arg;
        o.arg_text = arg == "req" ? "<x>" : arg == "opt" ? "[<x>]" : "";
        o.takes = "may";
        o.kind = kind;
        o.dflt = kind == 'i' ? "9" : "D";
        if (kind == 'i')
            o.add = [](cli::Spec& s, int attr, const Option& x, World& w) {
                s.add_option(x.forms_text, x.arg_text, attr, "", cli::exec([&x, &w](int v) {
                    w.log.push_back("o" + std::to_string(x.id) + ":" + std::to_string(v));
                }, 9));
            };
        else
            o.add = [](cli::Spec& s, int attr, const Option& x, World& w) {
                s.add_option(x.forms_text, x.arg_text, attr, "", cli::exec([&x, &w](std::string_view v) {
                    w.log.push_back("o" + std::to_string(x.id) + ":" + std::string(v));
                }, std::string_view("D")));
            };
        return o;
    }
    std::vector<Option> opts()
    {
        std::vector<Option> os { plain(0, { "-x", "--foo" }, "none", 's'), plain(1, { "-o", "--out" }, "req", 'i'),
                                 plain(2, { "-q" }, "opt", 's'), plain(3, { "-s" }, "none", 's'), stop_option(4) };
        os[3].sc = true;
        return os;
    }
    template<class F> Pattern pat(int id, Nodes nodes)
    {
        Pattern p;
        Symbols none { rng, { "a" }, {}, {}, 0, {}, 0 };
        F::make(p, none);
        p.id = id;
        p.nodes = std::move(nodes);
        text(p);
        return p;
    }
    void text(Pattern& p)
    {
        Printer pr { rng, {} };
        pr.seq(p.nodes, 0, p.nodes.size());
        set_tokens(p, pr.out, rng);
    }
    static Node kw(const char* x) { return sym("kw", x); }
    static Node val() { return value_slot('s'); }

    void make(Session& s, long which)
    {
        s.specs.clear();
        s.specs.push_back(std::make_unique<SpecDesc>());
        SpecDesc& d = *s.specs[0];
        if (which == 1) {
            d.opts = opts();
            d.pats.push_back(pat<Sig<R<S>>>(10, { kw("a"), comp('r', { val() }) }));
            d.pats.push_back(pat<Sig<O<S>>>(11, { comp('o', { val() }) }));
        }
        else if (which == 2) {
            d.opts = opts();
            d.pats.push_back(pat<Sig<S>>(10, { sym("so", "-x"), val() }));
            Node choice = comp('a', { comp('q', { kw("a") }), comp('q', { kw("b") }) });
            d.pats.push_back(pat<Sig<R<std::size_t>, bool>>(11, { comp('r', { choice }), comp('o', { sym("lo", "--foo") }) }));
        }
        else {
            d.opts = { plain(0, { "-x" }, "none", 's'), plain(1, { "-o" }, "opt", 'i') };
            d.opts[1].assign = true;
            d.opts[1].var = 3;
            d.opts[1].add = [](cli::Spec& s_2, int attr, const Option& x, World& w) {
                s_2.add_option(x.forms_text, x.arg_text, attr, "", cli::assign(w.i1, 9));
            };
            Pattern p;
            p.id = 10;
            p.deleg = true;
            p.sub = 2;
            p.nodes = { kw("a") };
            text(p);
            d.pats.push_back(std::move(p));
            d.pats.push_back(pat<Sig<>>(11, { kw("b") }));
            auto e = std::make_unique<SpecDesc>();
            e->pamb = true;
            e->opts = { plain(5, { "-x", "--foo" }, "none", 's'), plain(6, { "--out" }, "req", 'i') };
            e->pats.push_back(pat<Sig<R<S>, O<S>>>(12, { comp('r', { val() }), comp('o', { val() }) }));
            s.specs.push_back(std::move(e));
        }
    }
};

} // namespace

int main(int argc, char** argv)
{
    vp::Args a(argc, argv);
    vp::Rng rng(a.seed);
    vp::Trace trace(a.trace);
    Plan plan;
    plan.sigs = {
        Sig<>::make, Sig<S>::make, Sig<int, O<S>>::make, Sig<bool, S>::make, Sig<R<S>>::make, Sig<O<R<int>>>::make,
        Sig<std::size_t>::make, Sig<std::variant<S, std::monostate>>::make,
    };
    plan.max_opts = 6;
    plan.min_pats = 0;
    plan.max_pats = 4;
    plan.deleg = 22;
    Fixed fixed { rng };
    for (long which = 1; which <= 3; ++which) {
        Session s;
        fixed.make(s, which);
        long n = 0;
        for (const vp::J& j : a.scripts) {
            if (j["which"].n != which)
                continue;
            if (n++ % 200 == 0)
                s.build(trace);
            std::vector<std::string> args;
            for (const vp::J& x : j["args"].a) {
                args.emplace_back();
                for (const vp::J& c : x.a)
                    args.back() += c.s;
            }
            s.process(args, trace);
        }
    }
    Maker maker(rng, plan);
    for (long k = 0; k < a.episodes; ++k) {
        Session s;
        plan.decorate = rng.chance(70) ? 60 : 10;
        maker.make(s);
        s.build(trace);
        for (long j = 0; j < a.steps && s.usable; ++j)
            s.process(Liner { rng, *s.specs[0], s.specs }.line(), trace);
        trace.flush();
    }
}
