// Executable contracts S01, S03, P01: synapse projections against a step-by-step reference.
#include <knp/backends/cpu-library/projections.h>
#include <knp/core/message_bus.h>
#include <knp/core/message_endpoint.h>

#include <algorithm>
#include <map>
#include <mutex>

#include "hk.h"

namespace st = knp::synapse_traits;
namespace core = knp::core;
namespace cm = knp::core::messaging;
namespace pj = knp::backends::cpu::projections;
using OT = st::OutputType;

template <typename S>
using Model = std::vector<typename core::Projection<S>::Synapse>;

struct Imp
{
    size_t index;
    float value;
    OT type;
    uint32_t pre, post;
    bool operator<(const Imp &o) const
    {
        return std::tie(index, value, type, pre, post) < std::tie(o.index, o.value, o.type, o.pre, o.post);
    }
    bool operator==(const Imp &o) const
    {
        return std::tie(index, value, type, pre, post) == std::tie(o.index, o.value, o.type, o.pre, o.post);
    }
};
static std::ostream &operator<<(std::ostream &o, const std::vector<Imp> &v)
{
    o << "[";
    for (auto &i : v) o << "(" << i.index << " w=" << i.value << " t=" << (int)i.type << " " << i.pre << "->" << i.post << ")";
    return o << "]";
}
static std::vector<Imp> imps(const cm::SynapticImpactMessage &m)
{
    std::vector<Imp> r;
    for (auto &i : m.impacts_)
        r.push_back({i.connection_index_, i.impact_value_, i.synapse_type_, i.presynaptic_neuron_index_, i.postsynaptic_neuron_index_});
    std::sort(r.begin(), r.end());
    return r;
}

template <typename S>
static typename core::Projection<S>::Synapse rnd_syn(hk::Rng &r, int n)
{
    typename core::Projection<S>::SynapseParameters p{};
    p.weight_ = static_cast<float>(r.dy(-4, 4));
    p.delay_ = static_cast<uint32_t>(r.in(1, r.coin() ? 2 : 5));
    if (r.coin(4)) p.delay_ = 0xffffffffu - static_cast<uint32_t>(r.in(0, 2));
    p.output_type_ = r.one({OT::EXCITATORY, OT::INHIBITORY_CURRENT, OT::INHIBITORY_CONDUCTANCE, OT::DOPAMINE, OT::BLOCKING});
    return {p, static_cast<size_t>(r.in(0, n - 1)), static_cast<size_t>(r.in(0, n - 1))};
}

template <typename S>
static core::Projection<S> rnd_proj(hk::Rng &r, Model<S> &model, int n)
{
    int m = static_cast<int>(r.in(0, 8));
    for (int i = 0; i < m; ++i) model.push_back(rnd_syn<S>(r, n));
    core::Projection<S> p(core::UID{}, core::UID{}, [&](size_t i) { return std::optional(model[i]); }, model.size());
    for (auto &s : model)
        hk::note("syn ", std::get<1>(s), "->", std::get<2>(s), " w=", std::get<0>(s).weight_, " d=", std::get<0>(s).delay_);
    return p;
}

// a step to start from: early, where 32 bits end, and far beyond
static uint64_t start(hk::Rng &r)
{
    const uint64_t at = static_cast<uint64_t>(r.in(1, 5));
    return r.coin(80) ? at : r.coin(50) ? at + 0xfffffff8ull : at + (1ull << 40);
}

struct Due
{
    uint64_t first;
    std::vector<Imp> v;
};

template <typename S>
static void check_msg(const cm::SynapticImpactMessage &m, const core::Projection<S> &p, Due &d, bool forced)
{
    std::sort(d.v.begin(), d.v.end());
    SAME(imps(m), d.v);
    REQUIRE(m.header_.sender_uid_ == p.get_uid(), "sender of the impact message");
    SAME(m.header_.send_time_, d.first);
    REQUIRE(m.presynaptic_population_uid_ == p.get_presynaptic(), "presynaptic population of the message");
    REQUIRE(m.postsynaptic_population_uid_ == p.get_postsynaptic(), "postsynaptic population of the message");
    SAME(m.is_forcing_, forced);
}

template <typename S>
static void serial(hk::Rng &r, bool forced)
{
    int n = static_cast<int>(r.in(1, 4));
    Model<S> model;
    auto p = rnd_proj<S>(r, model, n);
    auto bus = core::MessageBus::construct_cpu_bus();
    auto ep = bus->create_endpoint();
    auto out = bus->create_endpoint();
    core::UID src, sink;
    ep.template subscribe<cm::SpikeMessage>(p.get_uid(), {src});
    out.template subscribe<cm::SynapticImpactMessage>(sink, {p.get_uid()});
    pj::MessageQueue q;
    std::map<uint64_t, Due> due;
    uint64_t t0 = start(r);
    for (uint64_t t = t0; t < t0 + 8; ++t)
    {
        int k = static_cast<int>(r.in(0, 2));
        for (int i = 0; i < k; ++i)
        {
            cm::SpikeMessage m{{src, t}, {}};
            int c = static_cast<int>(r.in(0, 3));
            for (int j = 0; j < c; ++j) m.neuron_indexes_.push_back(static_cast<uint32_t>(r.in(0, n)));
            for (auto x : m.neuron_indexes_)
            {
                hk::note("t", t, " spike ", x);
                for (size_t s = 0; s < model.size(); ++s)
                    if (std::get<1>(model[s]) == x)
                    {
                        auto &d = due.try_emplace(t + std::get<0>(model[s]).delay_ - 1, Due{t, {}}).first->second;
                        d.v.push_back({s, std::get<0>(model[s]).weight_, std::get<0>(model[s]).output_type_,
                                       (uint32_t)std::get<1>(model[s]), (uint32_t)std::get<2>(model[s])});
                        if constexpr (!std::is_same_v<S, st::DeltaSynapse>)
                            std::get<0>(model[s]).rule_.last_spike_step_ = t;
                    }
            }
            out.send_message(m);
        }
        bus->route_messages();
        ep.receive_all_messages();
        pj::calculate_projection(p, ep, q, t);
        bus->route_messages();
        out.receive_all_messages();
        auto got = out.template unload_messages<cm::SynapticImpactMessage>(sink);
        auto d = due.find(t);
        SAME(got.size(), size_t(d == due.end() ? 0 : 1), " impact messages at step ", t);
        if (d != due.end())
        {
            check_msg(got[0], p, d->second, forced);
            due.erase(d);
        }
        SAME(q.size(), due.size(), " queued messages after step ", t);
        SAME(p.size(), model.size());
        for (size_t s = 0; s < model.size(); ++s)
        {
            SAME(std::get<0>(p[s]).weight_, std::get<0>(model[s]).weight_);
            SAME(std::get<0>(p[s]).delay_, std::get<0>(model[s]).delay_);
            if constexpr (!std::is_same_v<S, st::DeltaSynapse>)
                SAME(std::get<0>(p[s]).rule_.last_spike_step_, std::get<0>(model[s]).rule_.last_spike_step_);
        }
    }
}

HK_CASE("S01", "delta_serial", 1500) { serial<st::DeltaSynapse>(r, true); }
HK_CASE("S01", "resource_stdp_serial", 1000) { serial<st::SynapticResourceSTDPDeltaSynapse>(r, false); }

template <typename S>
static void parallel(hk::Rng &r, bool forced, bool stamps)
{
    int n = static_cast<int>(r.in(1, 4));
    Model<S> model;
    auto p = rnd_proj<S>(r, model, n);
    pj::MessageQueue q;
    std::map<uint64_t, Due> due;
    std::mutex mx;
    uint64_t t0 = start(r);
    for (uint64_t t = t0; t < t0 + 5; ++t)
    {
        std::unordered_map<core::Step, size_t> spikes;
        int c = static_cast<int>(r.in(0, 3));
        for (int j = 0; j < c; ++j) spikes[static_cast<uint64_t>(r.in(0, n))] = static_cast<size_t>(r.in(1, 3));
        for (size_t s = 0; s < model.size(); ++s)
            if (auto it = spikes.find(std::get<1>(model[s])); it != spikes.end())
            {
                hk::note("t", t, " neuron ", it->first, " x", it->second);
                auto &d = due.try_emplace(t + std::get<0>(model[s]).delay_ - 1, Due{t, {}}).first->second;
                d.v.push_back({s, std::get<0>(model[s]).weight_ * it->second, std::get<0>(model[s]).output_type_,
                               (uint32_t)std::get<1>(model[s]), (uint32_t)std::get<2>(model[s])});
            }
        size_t part = static_cast<size_t>(r.in(1, 9));
        for (size_t b = 0; b < p.size(); b += part) pj::calculate_projection_multithreaded(p, spikes, q, t, b, part, mx);
        SAME(q.size(), due.size(), " queued messages after step ", t);
        for (auto &[k, d] : due)
        {
            REQUIRE(q.count(k), "impacts due at step ", k, " are queued");
            check_msg(q.at(k), p, d, forced);
        }
        if (stamps)
            if constexpr (!std::is_same_v<S, st::DeltaSynapse>)
                for (size_t s = 0; s < model.size(); ++s)
                {
                    if (spikes.count(std::get<1>(model[s]))) std::get<0>(model[s]).rule_.last_spike_step_ = t;
                    SAME(std::get<0>(p[s]).rule_.last_spike_step_, std::get<0>(model[s]).rule_.last_spike_step_);
                }
        q.erase(t);
        due.erase(t);
    }
}
HK_CASE("S01", "delta_parallel", 1500) { parallel<st::DeltaSynapse>(r, true, false); }
HK_CASE("S01", "resource_stdp_parallel", 1000) { parallel<st::SynapticResourceSTDPDeltaSynapse>(r, false, true); }

// ------------------------------------------------------------------------------------------ S03
static double w_pair(double x, double tp, double tm) { return x > 0 ? std::exp(-x / tp) : std::exp(x / tm); }

static void additive(hk::Rng &r)
{
    using S = st::AdditiveSTDPDeltaSynapse;
    using PT = core::Projection<S>::SharedSynapseParameters::ProcessingType;
    int n = static_cast<int>(r.in(1, 3));
    Model<S> model;
    int m = static_cast<int>(r.in(0, 6));
    for (int i = 0; i < m; ++i)
    {
        model.push_back(rnd_syn<S>(r, n));
        auto &rule = std::get<0>(model.back()).rule_;
        rule.tau_plus_ = static_cast<float>(r.in(1, r.coin() ? 3 : 6)) / 2;
        rule.tau_minus_ = static_cast<float>(r.in(1, r.coin() ? 3 : 6)) / 2;
        auto &y = model.back();
        hk::note("syn ", std::get<1>(y), "->", std::get<2>(y), " w=", std::get<0>(y).weight_, " d=", std::get<0>(y).delay_,
                 " tau+=", rule.tau_plus_, " tau-=", rule.tau_minus_);
    }
    core::Projection<S> p(core::UID{}, core::UID{}, [&](size_t i) { return std::optional(model[i]); }, model.size());
    auto bus = core::MessageBus::construct_cpu_bus();
    auto ep = bus->create_endpoint();
    auto out = bus->create_endpoint();
    const core::UID src[3];
    core::UID sink;
    auto &pops = p.get_shared_parameters().stdp_populations_;
    pops[src[0]] = PT::STDPAndSpike;
    pops[src[1]] = PT::STDPOnly;
    ep.subscribe<cm::SpikeMessage>(p.get_uid(), {src[0], src[1], src[2]});
    out.subscribe<cm::SynapticImpactMessage>(sink, {p.get_uid()});
    pj::MessageQueue q;
    std::map<uint64_t, Due> due;
    uint64_t t0 = static_cast<uint64_t>(r.in(1, 5));
    for (uint64_t t = t0; t < t0 + 10; ++t)
    {
        int k = static_cast<int>(r.in(0, 3));
        for (int i = 0; i < k; ++i)
        {
            int who = static_cast<int>(r.in(0, 2));
            uint64_t sent = r.coin(80) ? t : t - 1;
            cm::SpikeMessage msg{{src[who], sent}, {}};
            int c = static_cast<int>(r.in(0, 3));
            for (int j = 0; j < c; ++j) msg.neuron_indexes_.push_back(static_cast<uint32_t>(r.in(0, n)));
            for (auto x : msg.neuron_indexes_)
            {
                hk::note("t", t, who == 0 ? " train+spike " : who == 1 ? " train " : " spike ", x, " sent ", sent);
                for (size_t s = 0; s < model.size(); ++s)
                {
                    auto &d = std::get<0>(model[s]);
                    const size_t cap = static_cast<size_t>(std::ceil(d.rule_.tau_plus_ + d.rule_.tau_minus_));
                    if (who < 2 && std::get<2>(model[s]) == x && d.rule_.postsynaptic_spike_times_.size() < cap)
                        d.rule_.postsynaptic_spike_times_.push_back(sent);
                    if (who == 0 && std::get<1>(model[s]) == x && d.rule_.presynaptic_spike_times_.size() < cap)
                        d.rule_.presynaptic_spike_times_.push_back(sent);
                    if (who != 1 && std::get<1>(model[s]) == x)
                        due.try_emplace(t + d.delay_ - 1, Due{t, {}})
                            .first->second.v.push_back(
                                {s, static_cast<float>(d.weight_), d.output_type_, (uint32_t)std::get<1>(model[s]),
                                 (uint32_t)std::get<2>(model[s])});
                }
            }
            out.send_message(msg);
        }
        for (auto &y : model)
        {
            auto &d = std::get<0>(y);
            auto &a = d.rule_.presynaptic_spike_times_, &b = d.rule_.postsynaptic_spike_times_;
            const float period = d.rule_.tau_plus_ + d.rule_.tau_minus_;
            if (a.size() < period || b.size() < period) continue;
            double sum = 0;
            for (auto f : a)
                for (auto g : b)
                    sum += w_pair(static_cast<double>(g) - static_cast<double>(f), d.rule_.tau_plus_, d.rule_.tau_minus_);
            d.weight_ += static_cast<float>(sum);
            a.clear();
            b.clear();
        }
        bus->route_messages();
        ep.receive_all_messages();
        pj::calculate_projection(p, ep, q, t);
        bus->route_messages();
        out.receive_all_messages();
        auto got = out.unload_messages<cm::SynapticImpactMessage>(sink);
        auto d = due.find(t);
        SAME(got.size(), size_t(d == due.end() ? 0 : 1), " impact messages at step ", t);
        if (d != due.end())
        {
            SAME(got[0].impacts_.size(), d->second.v.size(), " impacts at step ", t);
            auto have = imps(got[0]);
            std::sort(d->second.v.begin(), d->second.v.end());
            for (size_t i = 0; i < have.size(); ++i)
            {
                SAME(have[i].index, d->second.v[i].index, " synapse of impact ", i);
                REQUIRE(std::fabs(have[i].value - d->second.v[i].value) < 1e-3, "value of impact ", i, ": ", have[i].value, " wanted ", d->second.v[i].value);
            }
            due.erase(d);
        }
        SAME(q.size(), due.size(), " queued messages after step ", t);
        for (size_t s = 0; s < model.size(); ++s)
        {
            auto &x = std::get<0>(p[s]);
            auto &y = std::get<0>(model[s]);
            REQUIRE(std::fabs(x.weight_ - y.weight_) < 1e-3, "weight of synapse ", s, " after step ", t, ": ", x.weight_, " wanted ", y.weight_);
            REQUIRE(x.rule_.presynaptic_spike_times_ == y.rule_.presynaptic_spike_times_, "presynaptic history of synapse ", s, " after step ", t);
            REQUIRE(x.rule_.postsynaptic_spike_times_ == y.rule_.postsynaptic_spike_times_, "postsynaptic history of synapse ", s, " after step ", t);
            y.weight_ = x.weight_;  // rounding of the sum is not compared
        }
    }
}
HK_CASE("S03", "additive_stdp", 3000) { additive(r); }

// ------------------------------------------------------------------------------------------ P01
template <typename S>
static void check_container(const core::Projection<S> &p, const Model<S> &m, int n)
{
    SAME(p.size(), m.size());
    for (size_t i = 0; i < m.size(); ++i)
    {
        SAME(std::get<1>(p[i]), std::get<1>(m[i]), " source of synapse ", i);
        SAME(std::get<2>(p[i]), std::get<2>(m[i]), " target of synapse ", i);
        SAME(std::get<0>(p[i]).weight_, std::get<0>(m[i]).weight_, " weight of synapse ", i);
    }
    (void)n;
}
template <typename S>
static void check_search(const core::Projection<S> &p, const Model<S> &m, int n)
{
    for (int x = 0; x <= n; ++x)
        for (int post = 0; post < 2; ++post)
        {
            std::vector<size_t> want;
            for (size_t i = 0; i < m.size(); ++i)
                if ((post ? std::get<2>(m[i]) : std::get<1>(m[i])) == static_cast<size_t>(x)) want.push_back(i);
            auto got = p.find_synapses(
                x, post ? core::Projection<S>::Search::by_postsynaptic : core::Projection<S>::Search::by_presynaptic);
            std::sort(got.begin(), got.end());
            REQUIRE(got == want, "search ", post ? "post" : "pre", " neuron ", x, " found ", got.size(), " wanted ", want.size());
        }
}
template <typename S>
static void container(hk::Rng &r)
{
    int n = static_cast<int>(r.in(1, 4));
    Model<S> m;
    auto p = rnd_proj<S>(r, m, n);
    const auto pre = p.get_presynaptic(), post = p.get_postsynaptic(), uid = p.get_uid();
    int ops = static_cast<int>(r.in(1, 12));
    for (int o = 0; o < ops; ++o)
    {
        switch (r.in(0, 7))
        {
            case 0:
            {
                size_t before = m.size();
                int k = static_cast<int>(r.in(0, 4));
                std::vector<std::optional<typename core::Projection<S>::Synapse>> v;
                for (int i = 0; i < k; ++i)
                    if (r.coin(75))
                    {
                        v.push_back(rnd_syn<S>(r, n));
                        m.push_back(*v.back());
                    }
                    else
                        v.push_back(std::nullopt);
                hk::note("add ", k, " giving ", m.size() - before);
                SAME(p.add_synapses([&](size_t i) { return v.at(i); }, k), m.size() - before);
                break;
            }
            case 1:
                if (m.empty()) break;
                {
                    size_t i = static_cast<size_t>(r.in(0, m.size() - 1));
                    hk::note("remove ", i);
                    p.remove_synapse(i);
                    m.erase(m.begin() + i);
                }
                break;
            case 2:
            {
                float w = static_cast<float>(r.dy(-4, 4));
                hk::note("remove_if weight<", w);
                auto pr = [w](const auto &s) { return std::get<0>(s).weight_ < w; };
                size_t before = m.size();
                m.erase(std::remove_if(m.begin(), m.end(), pr), m.end());
                SAME(p.remove_synapse_if(pr), before - m.size());
                break;
            }
            case 3:
            case 4:
            {
                size_t x = static_cast<size_t>(r.in(0, n));
                bool po = r.coin();
                hk::note("remove ", po ? "post" : "pre", " ", x);
                size_t before = m.size();
                m.erase(
                    std::remove_if(m.begin(), m.end(), [&](auto &s) { return (po ? std::get<2>(s) : std::get<1>(s)) == x; }),
                    m.end());
                SAME(po ? p.remove_postsynaptic_neuron_synapses(x) : p.remove_presynaptic_neuron_synapses(x), before - m.size());
                break;
            }
            case 5:
                if (!r.coin(15)) break;
                hk::note("clear");
                p.clear();
                m.clear();
                break;
            default:
                hk::note("search");
                check_search(p, m, n);
        }
        check_container(p, m, n);
        if (r.coin(40)) check_search(p, m, n);
    }
    check_search(p, m, n);
    REQUIRE(p.get_uid() == uid && p.get_presynaptic() == pre && p.get_postsynaptic() == post, "identity of the projection");
}
HK_CASE("P01", "projection_delta", 2500) { container<st::DeltaSynapse>(r); }
HK_CASE("P01", "projection_additive", 800) { container<st::AdditiveSTDPDeltaSynapse>(r); }
HK_CASE("P01", "projection_resource", 800) { container<st::SynapticResourceSTDPDeltaSynapse>(r); }
HK_MAIN
