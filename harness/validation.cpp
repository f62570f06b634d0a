// Executable contract F10 (validation of networks): what must be reported, found by looking at every pair.
#include <knp/framework/network.h>
#include <knp/framework/network_validation/executor.h>
#include <knp/framework/network_validation/validators/connectivity.h>
#include <knp/framework/tags/name.h>

#include <algorithm>
#include <functional>
#include <memory>
#include <set>
#include <tuple>

#include "hk.h"

namespace core = knp::core;
namespace fw = knp::framework;
namespace nv = knp::framework::network_validation;
namespace st = knp::synapse_traits;
namespace nt = knp::neuron_traits;

template <class N>
static void add_population(hk::Rng &r, fw::Network &net, const core::UID &uid)
{
    net.add_population<core::Population<N>>(core::Population<N>(
        uid, [](size_t) { return std::optional(nt::neuron_parameters<N>{}); }, size_t(r.in(0, 2))));
}
template <class S>
static void add_projection(hk::Rng &r, fw::Network &net, const core::UID &a, const core::UID &b)
{
    using P = core::Projection<S>;
    net.add_projection<P>(P(core::UID(), a, b, [](size_t i) { return std::optional(typename P::Synapse{{}, i, i}); }, size_t(r.in(0, 2))));
}
static std::vector<core::UID> build(hk::Rng &r, fw::Network &net, std::vector<std::pair<core::UID, core::UID>> &ends)
{
    std::vector<core::UID> uids(size_t(r.in(0, 7)));
    for (auto &u : uids) switch (r.in(0, 4))
    {
        case 0: add_population<nt::BLIFATNeuron>(r, net, u); break;
        case 1: add_population<nt::AltAILIF>(r, net, u); break;
        case 2: add_population<nt::SynapticResourceSTDPAltAILIFNeuron>(r, net, u); break;
        default: add_population<nt::SynapticResourceSTDPBLIFATNeuron>(r, net, u);
    }
    auto end = [&]
    {
        if (uids.empty() || r.in(0, 9) == 0) return core::UID();
        return r.in(0, 2) == 0 ? core::UID(false) : uids[size_t(r.in(0, int64_t(uids.size()) - 1))];
    };
    for (int64_t k = r.in(0, 7); k > 0; --k)
    {
        core::UID a = end(), b = r.in(0, 3) ? end() : core::UID(false);
        switch (r.in(0, 2))
        {
            case 0: add_projection<st::DeltaSynapse>(r, net, a, b); break;
            case 1: add_projection<st::AdditiveSTDPDeltaSynapse>(r, net, a, b); break;
            default: add_projection<st::SynapticResourceSTDPDeltaSynapse>(r, net, a, b);
        }
        ends.push_back({a, b});
    }
    return uids;
}
using Found = std::tuple<int, std::string>;

HK_CASE("F10", "connectivity-of-any-network", 3000)
{
    fw::Network net;
    std::vector<std::pair<core::UID, core::UID>> ends;
    std::vector<core::UID> uids = build(r, net, ends);
    std::multiset<Found> want, got;
    for (auto &u : uids)
    {
        bool on = false;
        for (auto &[a, b] : ends) on = on || (bool(a) && a == u) || (bool(b) && b == u);
        if (!on) want.insert({int(nv::Connectivity::population_not_connected), std::string(u)});
    }
    size_t at = 0;
    for (auto &p : net.get_projections())
    {
        auto &[a, b] = ends[at++];
        if (!bool(a) && !bool(b))
            want.insert({int(nv::Connectivity::projection_not_connected), std::visit([](auto &x) { return std::string(x.get_uid()); }, p)});
    }
    nv::Connectivity check;
    const fw::Network &seen = net;
    for (int again = 0; again < 2; ++again)
    {
        auto report = check(seen);
        got.clear();
        for (auto &i : report)
        {
            REQUIRE(i.severity_ == nv::IssueSeverity::error, "what is not connected is an error");
            auto kind = i.code_.value() == int(nv::Connectivity::population_not_connected) ? nv::Connectivity::population_not_connected
                                                                                         : nv::Connectivity::projection_not_connected;
            REQUIRE(i.code_ == nv::Connectivity::make_error_code(kind), "codes of the validator");
            std::string name;
            for (auto &[k, u] : want) if (i.message_.find(u) != std::string::npos) name = u;
            got.insert({i.code_.value(), name.empty() ? i.message_ : name});
        }
        SAME(got.size(), want.size(), uids.size(), " populations, ", ends.size(), " projections, issues");
        REQUIRE(got == want, "the errors name what is not connected, populations ", uids.size(), " projections ", ends.size());
    }
    SAME(net.populations_count(), uids.size(), "populations kept");
    SAME(net.projections_count(), ends.size(), "projections kept");
}

static core::UID uid_of(const fw::Network::AllPopulationVariants &v) { return std::visit([](auto &x) { return x.get_uid(); }, v); }
static core::UID uid_of(const fw::Network::AllProjectionVariants &v) { return std::visit([](auto &x) { return x.get_uid(); }, v); }

HK_CASE("F10", "executor-runs-every-validator", 3000)
{
    fw::Network net;
    std::vector<std::pair<core::UID, core::UID>> ends;
    build(r, net, ends);
    nv::Executor all;
    // validator, its kind, what it was asked about with what it answered
    struct Check { core::UID uid; int kind; std::string name; bool named; std::vector<std::pair<std::string, nv::Report>> log; };
    std::vector<std::unique_ptr<Check>> checks;
    static const std::error_category &cat = nv::Connectivity::error_category();
    auto answer = [&r](Check &c, std::string about)
    {
        nv::Report rep;
        for (int64_t k = r.in(0, 3); k > 0; --k)
            rep.push_back({nv::IssueSeverity(r.in(0, 2)), "issue " + std::to_string(r.in(0, 99)), std::error_code(int(r.in(0, 9)), cat)});
        c.log.push_back({about, rep});
        return rep;
    };
    const fw::Network &seen = net;
    auto add = [&]
    {
        auto c = std::make_unique<Check>();
        Check *p = c.get();
        c->kind = int(r.in(0, 2)), c->named = r.in(0, 2) != 0, c->name = "check " + std::to_string(r.in(0, 4));
        nv::PopulationValidator f0 = [=](const fw::Network::AllPopulationVariants &x) { return answer(*p, std::string(uid_of(x))); };
        nv::ProjectionValidator f1 = [=](const fw::Network::AllProjectionVariants &x) { return answer(*p, std::string(uid_of(x))); };
        nv::NetworkValidator f2 = [=, &seen](const fw::Network &x) { return answer(*p, &x == &seen ? "the network" : "another"); };
        if (c->named) c->uid = c->kind == 0 ? all.add_validator(c->name, f0) : c->kind == 1 ? all.add_validator(c->name, f1) : all.add_validator(c->name, f2);
        else c->uid = c->kind == 0 ? all.add_validator(f0) : c->kind == 1 ? all.add_validator(f1) : all.add_validator(f2);
        for (auto &o : checks) REQUIRE(!(o->uid == c->uid), "validators have identifiers of their own");
        checks.push_back(std::move(c));
    };
    for (int round = 0; round < 2; ++round)
    {
        for (int64_t k = r.in(0, 5); k > 0; --k) add();
        for (auto &c : checks) c->log.clear();
        auto results = all.run_validators(seen);
        size_t total = 0;
        for (auto &c : checks)
        {
            std::vector<std::string> want;
            if (c->kind == 0) for (auto &x : net.get_populations()) want.push_back(std::string(uid_of(x)));
            if (c->kind == 1) for (auto &x : net.get_projections()) want.push_back(std::string(uid_of(x)));
            if (c->kind == 2) want.push_back("the network");
            SAME(c->log.size(), want.size(), "kind ", c->kind, ", times asked");
            size_t at = 0;
            for (auto &res : results)
            {
                if (!(res.uid_ == c->uid)) continue;
                REQUIRE(at < want.size(), "one result for each question");
                REQUIRE(c->log[at].first == want[at], "kind ", c->kind, ", asked about everything once, in order");
                if (c->named) REQUIRE(res.validator_name_ == c->name, "results carry the name given, got ", res.validator_name_);
                auto &a = res.report_, &b = c->log[at].second;
                SAME(a.size(), b.size(), "issues handed on");
                for (size_t i = 0; i < a.size(); ++i)
                    REQUIRE(a[i].severity_ == b[i].severity_ && a[i].message_ == b[i].message_ && a[i].code_ == b[i].code_, "issues are handed on unchanged");
                ++at;
            }
            SAME(at, want.size(), "kind ", c->kind, ", results");
            total += at;
        }
        SAME(results.size(), total, "no other results");
    }
}
HK_MAIN
