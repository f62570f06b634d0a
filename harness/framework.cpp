// Executable contracts F01 (network container) and F02 (connection patterns) against naive references.
#include <spdlog/spdlog.h>
#include <cmath>
#include <knp/framework/network.h>
#include <knp/framework/projection/connectors.h>
#include <knp/framework/projection/creators.h>
#include <knp/framework/population/creators.h>

#include <algorithm>
#include <map>
#include <set>

#include "hk.h"

namespace st = knp::synapse_traits;
namespace nt = knp::neuron_traits;
namespace core = knp::core;
namespace fw = knp::framework;
namespace pc = knp::framework::projection::creators;
namespace nc = knp::framework::population::creators;

template <class F>
static bool throws(F f)
{
    try
    {
        f();
        return false;
    }
    catch (const std::exception &)
    {
        return true;
    }
}

// ------------------------------------------------------------------ F01
struct Item
{
    core::UID uid;
    size_t type, size;
    double mark;
    core::UID from, to;
};

template <class N>
static core::Population<N> population(const core::UID &uid, size_t n, double mark)
{
    return core::Population<N>(
        uid,
        [&](size_t)
        {
            nt::neuron_parameters<N> p;
            p.potential_ = mark;
            return std::optional(p);
        },
        n);
}
template <class S>
static core::Projection<S> projection(const core::UID &uid, const core::UID &a, const core::UID &b, size_t n, double mark)
{
    return core::Projection<S>(
        uid, a, b,
        [&](size_t i)
        {
            typename core::Projection<S>::SynapseParameters p;
            p.weight_ = mark;
            return std::optional(typename core::Projection<S>::Synapse{p, i, i + 1});
        },
        n);
}

struct World
{
    fw::Network net;
    std::vector<Item> pops, prjs;
    std::vector<core::UID> gone;

    template <class N>
    void add_pop(hk::Rng &r, const core::UID &uid)
    {
        Item it{uid, core::AllPopulationsVariant(population<N>(uid, 0, 0)).index(), size_t(r.in(0, 3)), double(r.in(0, 9)), core::UID{false}, core::UID{false}};
        auto p = population<N>(uid, it.size, it.mark);
        bool known = std::any_of(pops.begin(), pops.end(), [&](auto &x) { return x.uid == uid; });
        hk::note("add population ", known ? "again" : "");
        bool bad;
        if (r.coin()) bad = throws([&] { net.add_population<core::Population<N>>(p); });
        else bad = throws([&] { net.add_population<core::Population<N>>(std::move(p)); });
        SAME(bad, known, "adding a population whose identity is known is refused, another one accepted");
        if (!known) pops.push_back(it);
    }
    template <class S>
    void add_prj(hk::Rng &r, const core::UID &uid)
    {
        Item it{uid, core::AllProjectionsVariant(projection<S>(uid, uid, uid, 0, 0)).index(), size_t(r.in(0, 3)), double(r.in(0, 9)), core::UID{}, core::UID{}};
        if (!pops.empty() && r.coin()) it.from = r.pick(pops).uid, it.to = r.pick(pops).uid;
        bool known = std::any_of(prjs.begin(), prjs.end(), [&](auto &x) { return x.uid == uid; });
        hk::note("add projection ", known ? "again" : "");
        auto p = projection<S>(uid, it.from, it.to, it.size, it.mark);
        bool bad;
        switch (r.in(0, 2))
        {
            case 0: bad = throws([&] { net.add_projection<core::Projection<S>>(p); }); break;
            case 1: bad = throws([&] { net.add_projection<core::Projection<S>>(std::move(p)); }); break;
            default:
                bad = throws(
                    [&]
                    {
                        net.add_projection<S>(
                            uid, it.from, it.to,
                            [&](size_t i)
                            {
                                typename core::Projection<S>::SynapseParameters q;
                                q.weight_ = it.mark;
                                return std::optional(typename core::Projection<S>::Synapse{q, i, i + 1});
                            },
                            it.size);
                    });
        }
        SAME(bad, known, "adding a projection whose identity is known is refused, another one accepted");
        if (!known) prjs.push_back(it);
    }

    template <class C, class V>
    static void same(const C &c, const std::vector<Item> &ref, V look, const char *what)
    {
        SAME(c.size(), ref.size(), what);
        for (size_t i = 0; i < ref.size(); ++i) look(c[i], ref[i]);
    }

    void check(hk::Rng &r)
    {
        SAME(net.populations_count(), pops.size());
        SAME(net.projections_count(), prjs.size());
        auto pop = [&](auto &v, const Item &it)
        {
            SAME(v.index(), it.type, "type of a population");
            std::visit(
                [&](auto &p)
                {
                    REQUIRE(p.get_uid() == it.uid, "identity of a population");
                    SAME(p.size(), it.size);
                    for (auto &n : p) SAME(double(n.potential_), it.mark);
                },
                v);
        };
        auto prj = [&](auto &v, const Item &it)
        {
            SAME(v.index(), it.type, "type of a projection");
            std::visit(
                [&](auto &p)
                {
                    REQUIRE(p.get_uid() == it.uid, "identity of a projection");
                    REQUIRE(p.get_presynaptic() == it.from && p.get_postsynaptic() == it.to, "ends of a projection");
                    SAME(p.size(), it.size);
                    for (size_t i = 0; i < p.size(); ++i)
                    {
                        SAME(double(std::get<0>(p[i]).weight_), it.mark);
                        SAME(std::get<1>(p[i]), i);
                        SAME(std::get<2>(p[i]), i + 1);
                    }
                },
                v);
        };
        same(net.get_populations(), pops, pop, "populations");
        same(net.get_projections(), prjs, prj, "projections");
        SAME(size_t(std::distance(net.begin_populations(), net.end_populations())), pops.size());
        SAME(size_t(std::distance(net.begin_projections(), net.end_projections())), prjs.size());
        for (auto &it : pops)
        {
            REQUIRE(net.is_population_exists(it.uid), "a population added exists");
            pop(net.get_population(it.uid), it);
            SAME(throws([&] { (void)net.get_population<nt::BLIFATNeuron>(it.uid); }),
                 it.type != core::AllPopulationsVariant(population<nt::BLIFATNeuron>(it.uid, 0, 0)).index(),
                 "access by a neuron type is refused exactly when the type differs");
        }
        for (auto &it : prjs)
        {
            REQUIRE(net.is_projection_exists(it.uid), "a projection added exists");
            prj(net.get_projection(it.uid), it);
            SAME(throws([&] { (void)net.get_projection<st::DeltaSynapse>(it.uid); }),
                 it.type != core::AllProjectionsVariant(projection<st::DeltaSynapse>(it.uid, it.uid, it.uid, 0, 0)).index(),
                 "access by a synapse type is refused exactly when the type differs");
        }
        gone.push_back(core::UID{});
        for (auto &u : gone)
        {
            bool p = std::any_of(pops.begin(), pops.end(), [&](auto &x) { return x.uid == u; });
            bool q = std::any_of(prjs.begin(), prjs.end(), [&](auto &x) { return x.uid == u; });
            SAME(net.is_population_exists(u), p);
            SAME(net.is_projection_exists(u), q);
            if (!p) REQUIRE(throws([&] { (void)net.get_population(u); }), "access to an unknown population is refused");
            if (!q) REQUIRE(throws([&] { (void)net.get_projection(u); }), "access to an unknown projection is refused");
        }
    }
};

HK_CASE("F01", "network", 1500)
{
    World w;
    int ops = int(r.in(1, 12));
    for (int o = 0; o < ops; ++o)
    {
        auto uid = [&](std::vector<Item> &v)
        {
            if (!v.empty() && r.coin(20)) return r.pick(v).uid;
            if (!w.gone.empty() && r.coin(30)) return r.pick(w.gone);
            return core::UID{};
        };
        switch (r.in(0, 8))
        {
            case 0: w.add_pop<nt::BLIFATNeuron>(r, uid(w.pops)); break;
            case 1: w.add_pop<nt::SynapticResourceSTDPBLIFATNeuron>(r, uid(w.pops)); break;
            case 2: w.add_pop<nt::AltAILIF>(r, uid(w.pops)); break;
            case 3: w.add_prj<st::DeltaSynapse>(r, uid(w.prjs)); break;
            case 4: w.add_prj<st::SynapticResourceSTDPDeltaSynapse>(r, uid(w.prjs)); break;
            case 5:
            {
                core::UID u = w.pops.empty() || r.coin(20) ? core::UID{} : r.pick(w.pops).uid;
                auto at = std::find_if(w.pops.begin(), w.pops.end(), [&](auto &x) { return x.uid == u; });
                hk::note("remove population ", at - w.pops.begin());
                SAME(throws([&] { w.net.remove_population(u); }), at == w.pops.end());
                if (at != w.pops.end()) w.gone.push_back(u), w.pops.erase(at);
                break;
            }
            case 6:
            {
                core::UID u = w.prjs.empty() || r.coin(20) ? core::UID{} : r.pick(w.prjs).uid;
                auto at = std::find_if(w.prjs.begin(), w.prjs.end(), [&](auto &x) { return x.uid == u; });
                hk::note("remove projection ", at - w.prjs.begin());
                SAME(throws([&] { w.net.remove_projection(u); }), at == w.prjs.end());
                if (at != w.prjs.end()) w.gone.push_back(u), w.prjs.erase(at);
                break;
            }
            default:
            {
                core::UID a, b;
                auto src = population<nt::BLIFATNeuron>(a, size_t(r.in(0, 3)), 0), dst = population<nt::BLIFATNeuron>(b, size_t(r.in(0, 3)), 0);
                auto has = [&](const core::UID &u)
                { return std::any_of(w.pops.begin(), w.pops.end(), [&](auto &x) { return x.uid == u; }); };
                for (int i = 0; i < 2; ++i)
                    if (r.coin(70))
                    {
                        auto &p = i ? dst : src;
                        w.net.add_population<core::Population<nt::BLIFATNeuron>>(p);
                        w.pops.push_back({p.get_uid(), core::AllPopulationsVariant(p).index(), p.size(), 0, core::UID{false}, core::UID{false}});
                    }
                hk::note("connect ", src.size(), " x ", dst.size());
                core::UID made{false};
                if (r.coin())
                {
                    bool bad = throws([&] { made = w.net.connect_populations<st::DeltaSynapse>(src, dst); });
                    SAME(bad, !(has(a) && has(b)), "connecting is refused exactly when a population is unknown");
                    if (bad) break;
                    auto &p = w.net.get_projection<st::DeltaSynapse>(made);
                    SAME(p.size(), src.size() * dst.size());
                    std::set<std::pair<size_t, size_t>> pairs;
                    for (auto &s : p) pairs.insert({std::get<1>(s), std::get<2>(s)});
                    SAME(pairs.size(), p.size(), "every pair is connected once");
                    REQUIRE(p.get_presynaptic() == a && p.get_postsynaptic() == b, "ends of the new projection");
                    w.net.remove_projection(made);
                    w.gone.push_back(made);
                }
                else
                {
                    Item it{core::UID{false}, core::AllProjectionsVariant(projection<st::DeltaSynapse>(a, a, b, 0, 0)).index(), size_t(r.in(0, 3)), 3, a, b};
                    bool bad = throws(
                        [&]
                        {
                            it.uid = w.net.connect_populations<st::DeltaSynapse>(
                                src, dst,
                                [](size_t i)
                                {
                                    core::Projection<st::DeltaSynapse>::SynapseParameters q;
                                    q.weight_ = 3;
                                    return std::optional(core::Projection<st::DeltaSynapse>::Synapse{q, i, i + 1});
                                },
                                it.size);
                        });
                    SAME(bad, !(has(a) && has(b)), "connecting is refused exactly when a population is unknown");
                    if (!bad) w.prjs.push_back(it);
                }
            }
        }
        w.check(r);
    }
    core::UID u;
    SAME(fw::Network(u).get_uid() == u, true);
}

// ------------------------------------------------------------------ F02
template <class S>
using Par = typename core::Projection<S>::SynapseParameters;

template <class S>
struct Log
{
    std::vector<std::pair<size_t, size_t>> calls;
    Par<S> operator()(size_t a, size_t b)
    {
        calls.push_back({a, b});
        Par<S> p;
        p.delay_ = uint32_t(1 + a * 1000 + b);
        return p;
    }
};
static size_t mark(size_t a, size_t b) { return 1 + a * 1000 + b; }

template <class S>
static void ends(const core::Projection<S> &p, const core::UID &a, const core::UID &b)
{
    REQUIRE(p.get_presynaptic() == a && p.get_postsynaptic() == b, "populations of the projection");
}

template <class S>
static void patterns(hk::Rng &r)
{
    core::UID a, b;
    size_t n = size_t(r.in(1, 20)), m = size_t(r.in(1, 20));
    hk::note("sizes ", n, " ", m);
    auto pair_of = [](const auto &s) { return std::pair<size_t, size_t>(std::get<1>(s), std::get<2>(s)); };
    auto made = [&](const auto &s)
    { SAME(size_t(std::get<0>(s).delay_), mark(std::get<1>(s), std::get<2>(s)), "parameters of a synapse"); };
    auto gen = [](size_t x, size_t y) { return Log<S>()(x, y); };
    {
        auto p = pc::all_to_all<S>(a, b, n, m, gen);
        ends(p, a, b);
        SAME(p.size(), n * m, "all to all");
        std::set<std::pair<size_t, size_t>> seen;
        for (auto &s : p)
        {
            made(s);
            REQUIRE(std::get<1>(s) < n && std::get<2>(s) < m, "all to all: neurons exist");
            seen.insert(pair_of(s));
        }
        SAME(seen.size(), n * m, "all to all: every pair once");
    }
    {
        auto p = pc::one_to_one<S>(a, b, n, [&](size_t i) { return gen(i, i); });
        ends(p, a, b);
        SAME(p.size(), n, "one to one");
        for (size_t i = 0; i < n; ++i)
        {
            made(p[i]);
            REQUIRE(pair_of(p[i]) == std::make_pair(i, i), "one to one: pairs");
        }
    }
    {
        auto p = pc::aligned<S>(a, b, n, m, gen);
        ends(p, a, b);
        SAME(p.size(), std::max(n, m), "aligned");
        for (size_t i = 0; i < p.size(); ++i)
        {
            made(p[i]);
            auto [f, t] = pair_of(p[i]);
            REQUIRE(f < n && t < m, "aligned: neurons exist, got ", f, "->", t);
            SAME(n >= m ? f : t, i, "aligned: neuron of the larger population");
            SAME(n >= m ? t : f, i * std::min(n, m) / std::max(n, m), "aligned: neuron of the smaller population");
        }
    }
    {
        auto p = pc::exclusive<S>(a, b, n, gen);
        ends(p, a, b);
        SAME(p.size(), n * (n - 1), "exclusive");
        std::set<std::pair<size_t, size_t>> seen;
        for (auto &s : p)
        {
            made(s);
            auto q = pair_of(s);
            REQUIRE(q.first < n && q.second < n && q.first != q.second, "exclusive: pair");
            seen.insert(q);
        }
        SAME(seen.size(), p.size(), "exclusive: every pair once");
    }
    {
        std::vector<typename core::Projection<S>::Synapse> c;
        std::map<std::tuple<size_t, size_t>, Par<S>> mp;
        int k = int(r.in(0, 6));
        for (int i = 0; i < k; ++i)
        {
            size_t x = size_t(r.in(0, 9)), y = size_t(r.in(0, 9));
            c.push_back({gen(x, y), x, y});
            mp[{x, y}] = gen(x, y);
        }
        auto p = pc::from_container<S>(a, b, c);
        ends(p, a, b);
        SAME(p.size(), c.size(), "from container");
        for (size_t i = 0; i < c.size(); ++i)
        {
            made(p[i]);
            REQUIRE(pair_of(p[i]) == pair_of(c[i]), "from container: pair");
        }
        auto q = pc::from_map<S>(a, b, mp);
        ends(q, a, b);
        SAME(q.size(), mp.size(), "from map");
        size_t i = 0;
        for (auto &[key, v] : mp)
        {
            made(q[i]);
            REQUIRE(pair_of(q[i]) == std::make_pair(std::get<0>(key), std::get<1>(key)), "from map: pair ", i);
            ++i;
        }
        auto keep = r.coin(), keep2 = r.coin();
        core::UID e, f;
        auto cl = pc::clone_projection<st::DeltaSynapse, S>(
            p, [](size_t i) { return Log<st::DeltaSynapse>()(i, 7); }, keep ? std::nullopt : std::optional(e), keep2 ? std::nullopt : std::optional(f));
        ends(cl, keep ? a : e, keep2 ? b : f);
        SAME(cl.size(), p.size(), "clone");
        for (size_t j = 0; j < cl.size(); ++j)
        {
            REQUIRE(pair_of(cl[j]) == pair_of(p[j]), "clone: pair ", j);
            SAME(size_t(std::get<0>(cl[j]).delay_), mark(j, 7), "clone: parameters");
        }
    }
    {
        std::set<std::pair<size_t, size_t>> want, seen;
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < m; ++j)
                if (r.coin()) want.insert({i, j});
        auto p = pc::index_based<S>(
            a, b, n, m, [&](size_t x, size_t y) { return want.count({x, y}) ? std::optional(gen(x, y)) : std::nullopt; });
        ends(p, a, b);
        for (auto &s : p) made(s), seen.insert(pair_of(s));
        REQUIRE(seen == want && p.size() == want.size(), "index based: the pairs chosen");
    }
    {
        double pr = double(r.in(0, 4)) / 4;
        auto p = pc::fixed_probability<S>(a, b, n, m, pr, gen);
        ends(p, a, b);
        std::set<std::pair<size_t, size_t>> seen;
        for (auto &s : p)
        {
            made(s);
            REQUIRE(std::get<1>(s) < n && std::get<2>(s) < m, "fixed probability: neurons exist");
            seen.insert(pair_of(s));
        }
        SAME(seen.size(), p.size(), "fixed probability: no pair twice");
        if (pr == 0) SAME(p.size(), size_t(0), "probability 0");
        if (pr == 1) SAME(p.size(), n * m, "probability 1");
        double bad = r.one({-0.25, 1.25, -1e-9, 2.0});
        REQUIRE(throws([&] { (void)pc::fixed_probability<S>(a, b, n, m, bad, gen); }), "probability ", bad, " is refused");
    }
    {
        size_t k = size_t(r.in(0, 5));
        auto p = pc::fixed_number_post<S>(a, b, n, m, k, gen);
        ends(p, a, b);
        std::map<size_t, size_t> c;
        for (auto &s : p)
        {
            made(s);
            REQUIRE(std::get<2>(s) < m, "fixed number: target exists");
            ++c[std::get<1>(s)];
        }
        for (size_t i = 0; i < n; ++i) SAME(c[i], k, "fixed number of targets of neuron ", i);
        SAME(p.size(), n * k);
        auto q = pc::fixed_number_pre<S>(a, b, n, m, k, gen);
        ends(q, a, b);
        c.clear();
        for (auto &s : q)
        {
            made(s);
            REQUIRE(std::get<1>(s) < n, "fixed number: source exists");
            ++c[std::get<2>(s)];
        }
        for (size_t i = 0; i < m; ++i) SAME(c[i], k, "fixed number of sources of neuron ", i);
        SAME(q.size(), m * k);
    }
}

HK_CASE("F02", "patterns-delta", 700) { patterns<st::DeltaSynapse>(r); }
HK_CASE("F02", "patterns-resource", 200) { patterns<st::SynapticResourceSTDPDeltaSynapse>(r); }

HK_CASE("F02", "random-over-runs", 3)
{
    // over many connections every neuron of the other population is drawn, and a fair coin is neither 0 nor 1
    core::UID a, b;
    size_t n = 5, m = size_t(r.in(2, 6));
    std::set<size_t> to, from;
    for (auto &s : pc::fixed_number_post<st::DeltaSynapse>(a, b, n, m, 60)) to.insert(std::get<2>(s));
    for (auto &s : pc::fixed_number_pre<st::DeltaSynapse>(a, b, m, n, 60)) from.insert(std::get<1>(s));
    SAME(to.size(), m);
    SAME(from.size(), m);
    size_t k = pc::fixed_probability<st::DeltaSynapse>(a, b, 50, 50, 0.5).size();
    REQUIRE(k > 900 && k < 1600, "half of the pairs, got ", k);
}

template <class N>
static void pops(hk::Rng &r)
{
    std::vector<nt::neuron_parameters<N>> c(size_t(r.in(0, 6)));
    for (auto &x : c) x.potential_ = float(r.in(-50, 50));
    auto p = nc::from_container<N>(c);
    SAME(p.size(), c.size());
    for (size_t i = 0; i < c.size(); ++i) SAME(double(p[i].potential_), double(c[i].potential_));
    size_t n = size_t(r.in(0, 6));
    nt::neuron_parameters<N> one, fresh;
    one.potential_ = float(r.in(-50, 50));
    auto q = nc::make_clone<N>(n, one);
    SAME(q.size(), n);
    for (auto &x : q) SAME(double(x.potential_), double(one.potential_));
    auto d = nc::make_default<N>(n);
    SAME(d.size(), n);
    for (auto &x : d) SAME(double(x.potential_), double(fresh.potential_));
}
HK_CASE("F02", "populations", 300)
{
    pops<nt::BLIFATNeuron>(r);
    pops<nt::AltAILIF>(r);
    pops<nt::SynapticResourceSTDPBLIFATNeuron>(r);
}
HK_MAIN
