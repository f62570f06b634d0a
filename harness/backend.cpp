// Executable contracts B01-B04: the CPU backends against a step-by-step reference of the network.
#include <spdlog/spdlog.h>
#include <cmath>
#include <knp/backends/cpu-library/populations.h>
#include <knp/backends/cpu-library/projections.h>
#include <knp/backends/cpu-multi-threaded/backend.h>
#include <knp/backends/cpu-single-threaded/backend.h>
#include <knp/core/message_bus.h>
#include <knp/core/message_endpoint.h>

#include <algorithm>
#include <map>
#include <mutex>

#include "hk.h"

static bool close(double a, double b)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    return std::fabs(a - b) <= 1e-4 * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}
#define NEAR(a, b, ...)                                                                                           \
    do                                                                                                            \
    {                                                                                                             \
        double hk_x = static_cast<double>(a), hk_y = static_cast<double>(b);                                      \
        if (!close(hk_x, hk_y)) hk::fail(#a, ": got ", hk_x, ", the property requires ", hk_y, " ", __VA_ARGS__); \
    } while (0)
#define CMP(f) NEAR(a.f, b.f, where, " neuron ", i);
#include "fields.h"

namespace st = knp::synapse_traits;
namespace core = knp::core;
namespace cm = knp::core::messaging;
namespace pp = knp::backends::cpu::populations;
namespace pj = knp::backends::cpu::projections;
using ST = knp::backends::single_threaded_cpu::SingleThreadedCPUBackend;
using MT = knp::backends::multi_threaded_cpu::MultiThreadedCPUBackend;
using Delta = core::Projection<st::DeltaSynapse>;
using Res = core::Projection<st::SynapticResourceSTDPDeltaSynapse>;
using Add = core::Projection<st::AdditiveSTDPDeltaSynapse>;
using OT = st::OutputType;

// a neuron that is likely to spike now and then
static void lively(hk::Rng &r, BP &n)
{
    gen(r, n);
    n.activation_threshold_ = r.dy(0, 2);
    n.dynamic_threshold_ = n.additional_threshold_ = 0;
    n.threshold_decay_ = r.one({0.0, 0.5});
    n.potential_decay_ = r.one({0.0, 0.5, 1.0});
    n.inhibitory_conductance_ = n.inhibitory_conductance_decay_ = 0;
    n.absolute_refractory_period_ = r.in(0, 1);
    n.total_blocking_period_ = INT64_MAX;
}
static void lively(hk::Rng &r, AP &n)
{
    gen(r, n);
    n.activation_threshold_ = r.in(0, 3);
    n.additional_threshold_ = 0;
    n.activity_time_ = INT64_MAX;
}
static void lively(hk::Rng &r, LP &n) { gen(r, n); }
template <class B>
static void lively(hk::Rng &r, nt::neuron_parameters<nt::SynapticResourceSTDPNeuron<B>> &p)
{
    lively(r, static_cast<nt::neuron_parameters<B> &>(p));
    p.synapse_sum_threshold_coefficient_ = r.dy(0, 1);
    p.dopamine_plasticity_time_ = r.in(0, 4);
    p.free_synaptic_resource_ = r.dy(-2, 2);
    p.synaptic_resource_threshold_ = r.dy(0, 4) + 0.1F;
    p.resource_drain_coefficient_ = r.in(1, 4);
    p.stability_ = r.dy(0, 4);
    p.stability_change_parameter_ = r.dy(0, 2);
    p.stability_change_at_isi_ = r.dy(0, 2);
    p.isi_max_ = r.in(1, 6);
    p.d_h_ = r.dy(0, 2);
}

template <class Backend>
struct Net
{
    using PopV = typename Backend::PopulationVariants;
    using PrjV = typename Backend::ProjectionVariants;
    static constexpr bool single = std::is_same_v<Backend, ST>;
    struct P  // a projection with its private bus: it receives what the network would deliver
    {
        PrjV v;
        std::shared_ptr<core::MessageBus> bus = core::MessageBus::construct_cpu_bus();
        core::MessageEndpoint in = bus->create_endpoint(), out = bus->create_endpoint();
        pj::MessageQueue queue;
        std::vector<core::UID> from;
    };
    std::vector<PopV> pops;
    std::vector<P> prjs;
    std::map<core::UID, std::vector<cm::SynapticImpactMessage>> inbox;

    static core::UID uid(const PopV &p)
    {
        return std::visit([](auto &x) { return x.get_uid(); }, p);
    }
    static core::UID uid(const P &p)
    {
        return std::visit([](auto &x) { return x.get_uid(); }, p.v);
    }
    template <class N>
    void pop(hk::Rng &r, int n)
    {
        std::vector<nt::neuron_parameters<N>> v(n);
        for (auto &x : v)
        {
            lively(r, x);
            hk::note("pop", pops.size(), " neuron ", show(x));
        }
        pops.push_back(core::Population<N>(core::UID{}, [&](size_t i) { return std::optional(v[i]); }, n));
    }
    template <class S>
    void prj(hk::Rng &r, core::UID pre, core::UID post, int npre, int npost, const std::vector<core::UID> &trainers,
             bool dopamine)
    {
        using Prj = core::Projection<S>;
        std::vector<typename Prj::Synapse> v;
        int m = static_cast<int>(r.in(0, 7));
        for (int i = 0; i < m; ++i)
        {
            typename Prj::SynapseParameters p{};
            p.weight_ = r.dy(-1, 3);
            p.delay_ = r.in(1, r.coin() ? 1 : 4);
            p.output_type_ = r.one({OT::EXCITATORY, OT::EXCITATORY, OT::EXCITATORY, OT::INHIBITORY_CURRENT, dopamine ? OT::DOPAMINE : OT::EXCITATORY});
            if constexpr (std::is_same_v<Prj, Res>)
            {
                auto &u = p.rule_;
                u.synaptic_resource_ = r.dy(-1, 3);
                u.w_min_ = r.dy(-1, 0);
                u.w_max_ = u.w_min_ + 0.25F + r.dy(0, 3);
                u.d_u_ = r.coin() ? 0 : r.dy(0, 1);
                u.dopamine_plasticity_period_ = r.in(0, 2);
            }
            v.push_back({p, static_cast<size_t>(r.in(0, npre - 1)), static_cast<size_t>(r.in(0, npost - 1))});
            hk::note("prj", prjs.size(), " syn ", std::get<1>(v.back()), "->", std::get<2>(v.back()), " w=", p.weight_, " d=",
                     p.delay_, " type=", static_cast<int>(p.output_type_));
        }
        Prj x(pre, post, [&](size_t i) { return std::optional(v[i]); }, m);
        if (r.coin(60)) x.unlock_weights(), hk::note("prj", prjs.size(), " is unlocked");
        std::vector<core::UID> from;
        if (pre) from.push_back(pre);
        if constexpr (!std::is_same_v<Prj, Delta>)
            for (auto &t : trainers)
            {
                x.get_shared_parameters().stdp_populations_[t] = Prj::SharedSynapseParameters::ProcessingType::STDPAndSpike;
                if (t != pre) from.push_back(t);
            }
        prjs.push_back(P{PrjV(x)});
        auto &p = prjs.back();
        p.from = from;
        for (auto &f : from) p.in.template subscribe<cm::SpikeMessage>(x.get_uid(), {f});
        p.out.template subscribe<cm::SynapticImpactMessage>(x.get_uid(), {x.get_uid()});
    }
    void deliver(const cm::SpikeMessage &m)
    {
        for (auto &p : prjs)
            if (std::find(p.from.begin(), p.from.end(), m.header_.sender_uid_) != p.from.end()) p.out.send_message(m);
    }
    // one step of every population; returns the non-empty spike messages
    std::vector<cm::SpikeMessage> populations(uint64_t step)
    {
        std::vector<cm::SpikeMessage> all;
        for (auto &v : pops)
            std::visit(
                [&](auto &p)
                {
                    cm::SpikeMessage m{{p.get_uid(), step}, {}};
                    auto in = inbox[p.get_uid()];
                    inbox.erase(p.get_uid());
                    pp::calculate_pre_impact_population_state(p, 0, p.size());
                    pp::impact_population(p, in);
                    pp::calculate_post_impact_population_state(p, m, 0, p.size());
                    std::vector<std::reference_wrapper<Res>> refs;
                    for (auto &q : prjs)
                        if (auto *x = std::get_if<Res>(&q.v))
                            if (!x->is_locked() && x->get_postsynaptic() == p.get_uid()) refs.push_back(*x);
                    pp::train_population(p, refs, m, step);
                    if (!m.neuron_indexes_.empty()) all.push_back(m);
                },
                v);
        return all;
    }
    std::vector<cm::SynapticImpactMessage> projections(uint64_t step)
    {
        std::vector<cm::SynapticImpactMessage> all;
        for (auto &q : prjs)
        {
            q.bus->route_messages();
            q.in.receive_all_messages();
            if constexpr (single)
                std::visit([&](auto &p) { pj::calculate_projection(p, q.in, q.queue, step); }, q.v);
            else  // repeated spikes of one neuron are counted, then the synapses are handled in parts
            {
                std::unordered_map<uint64_t, size_t> count;
                for (auto &m : q.in.template unload_messages<cm::SpikeMessage>(uid(q)))
                    for (auto i : m.neuron_indexes_) ++count[i];
                std::mutex mutex;
                if (!count.empty())
                    std::visit(
                        [&](auto &p) {
                            pj::calculate_projection_multithreaded<typename std::decay_t<decltype(p)>::ProjectionSynapseType>(
                                p, count, q.queue, step, 0, p.size(), mutex);
                        },
                        q.v);
                auto due = q.queue.find(step);
                if (due != q.queue.end()) q.out.send_message(due->second), q.queue.erase(due);
            }
            q.bus->route_messages();
            q.out.receive_all_messages();
            for (auto &m : q.out.template unload_messages<cm::SynapticImpactMessage>(uid(q)))
            {
                inbox[m.postsynaptic_population_uid_].push_back(m);
                all.push_back(m);
            }
        }
        return all;
    }
};

using Rng = hk::Rng;

template <class Backend>
static void neurons_like(Backend &b, Net<Backend> &net, uint64_t t)
{
    size_t k = 0;
    auto last = b.end_populations();
    for (auto it = b.begin_populations(); it != last; ++it, ++k)
    {
        REQUIRE(k < net.pops.size(), "number of populations");
        REQUIRE(it->index() == net.pops[k].index(), "type of population ", k);
        std::visit(
            [&](auto &x)
            {
                auto &y = std::get<std::decay_t<decltype(x)>>(net.pops[k]);
                REQUIRE(x.get_uid() == y.get_uid(), "identifier of population ", k);
                SAME(x.size(), y.size(), " size of population ", k);
                std::string where = "population " + std::to_string(k) + " after step " + std::to_string(t);
                for (size_t i = 0; i < x.size(); ++i)
                {
                    cmp(x[i], y[i], where.c_str(), i);
                    y[i] = x[i];  // rounding is not compared
                }
            },
            *it);
    }
    SAME(k, net.pops.size(), " populations");
}
template <class Backend>
static void synapses_like(Backend &b, Net<Backend> &net, uint64_t t)
{
    size_t k = 0;
    auto last = b.end_projections();
    for (auto it = b.begin_projections(); it != last; ++it, ++k)
    {
        REQUIRE(k < net.prjs.size(), "number of projections");
        REQUIRE(it->arg_.index() == net.prjs[k].v.index(), "type of projection ", k);
        SAME(it->messages_.size(), net.prjs[k].queue.size(), " queued messages of projection ", k, " after step ", t);
        for (auto &[s, m] : net.prjs[k].queue)
        {
            REQUIRE(it->messages_.count(s), "impacts of projection ", k, " due at ", s, " are queued after step ", t);
            SAME(it->messages_.at(s).impacts_.size(), m.impacts_.size(), " impacts of projection ", k, " due at ", s);
        }
        std::visit(
            [&](auto &x)
            {
                using X = std::decay_t<decltype(x)>;
                auto &y = std::get<X>(net.prjs[k].v);
                REQUIRE(x.get_uid() == y.get_uid() && x.get_presynaptic() == y.get_presynaptic() &&
                            x.get_postsynaptic() == y.get_postsynaptic(), "identity of projection ", k);
                SAME(x.is_locked(), y.is_locked(), " lock of projection ", k);
                SAME(x.size(), y.size(), " size of projection ", k);
                for (size_t i = 0; i < x.size(); ++i)
                {
                    auto &a = std::get<0>(x[i]);
                    auto &c = std::get<0>(y[i]);
                    NEAR(a.weight_, c.weight_, "weight of synapse ", i, " of projection ", k, " after step ", t);
                    SAME(a.delay_, c.delay_);
                    SAME(std::get<1>(x[i]), std::get<1>(y[i]));
                    SAME(std::get<2>(x[i]), std::get<2>(y[i]));
                    if constexpr (std::is_same_v<X, Res>)
                    {
                        NEAR(a.rule_.synaptic_resource_, c.rule_.synaptic_resource_, "resource of synapse ", i, " of projection ", k, " after step ", t);
                        SAME(a.rule_.last_spike_step_, c.rule_.last_spike_step_, " synapse ", i, " of projection ", k, " after step ", t);
                        SAME(a.rule_.has_contributed_, c.rule_.has_contributed_, " synapse ", i, " of projection ", k, " after step ", t);
                        SAME(a.rule_.had_hebbian_update_, c.rule_.had_hebbian_update_, " synapse ", i, " of projection ", k, " after step ", t);
                    }
                    if constexpr (std::is_same_v<X, Add>)
                    {
                        REQUIRE(a.rule_.presynaptic_spike_times_ == c.rule_.presynaptic_spike_times_, "presynaptic history of synapse ", i);
                        REQUIRE(a.rule_.postsynaptic_spike_times_ == c.rule_.postsynaptic_spike_times_, "postsynaptic history of synapse ", i);
                    }
                    c = a;  // rounding is not compared
                }
            },
            it->arg_);
    }
    SAME(k, net.prjs.size(), " projections");
}

template <class Backend>
static void random_net(Rng &r, Net<Backend> &net, const core::UID &ext)
{
    const bool plastic = r.coin(40);  // mostly plastic projections into the same populations
    int np = static_cast<int>(r.in(1, plastic ? 2 : 4));
    std::vector<int> sz;
    for (int i = 0; i < np; ++i)
    {
        int n = static_cast<int>(r.in(1, 5));
        sz.push_back(n);
        switch (plastic ? 2 + 2 * r.in(0, 1) : r.in(0, 5))
        {
            case 0: net.template pop<nt::LIFNeuron>(r, n); break;
            case 1:
                if constexpr (Net<Backend>::single)
                {
                    net.template pop<nt::AltAILIF>(r, n);
                    break;
                }
            case 2:
                if constexpr (Net<Backend>::single)
                {
                    net.template pop<nt::SynapticResourceSTDPAltAILIFNeuron>(r, n);
                    break;
                }
            case 3: net.template pop<nt::BLIFATNeuron>(r, n); break;
            default: net.template pop<nt::SynapticResourceSTDPBLIFATNeuron>(r, n);
        }
    }
    int nq = static_cast<int>(r.in(plastic ? 2 : 1, 6));
    for (int i = 0; i < nq; ++i)
    {
        int a = r.coin(40) ? -1 : static_cast<int>(r.in(0, np - 1)), b = static_cast<int>(r.in(0, np - 1));
        core::UID pre = a < 0 ? ext : net.uid(net.pops[a]), post = net.uid(net.pops[b]);
        int npre = a < 0 ? 4 : sz[a];
        std::vector<core::UID> tr;
        if (r.coin(30)) tr.push_back(net.uid(net.pops[r.in(0, np - 1)]));
        hk::note("projection ", a, "->", b);
        if (a >= 0 && r.coin(10)) pre = core::UID{false}, hk::note("without a source");
        bool res = std::visit(
            [](auto &p)
            {
                using N = typename std::decay_t<decltype(p)>::PopulationNeuronType;
                return std::is_same_v<N, nt::SynapticResourceSTDPBLIFATNeuron> || std::is_same_v<N, nt::SynapticResourceSTDPAltAILIFNeuron>;
            },
            net.pops[b]);
        if (res && r.coin(plastic ? 90 : 60))
            net.template prj<st::SynapticResourceSTDPDeltaSynapse>(r, pre, post, npre, sz[b], tr, !std::holds_alternative<core::Population<nt::LIFNeuron>>(net.pops[b]));
        else
            net.template prj<st::DeltaSynapse>(r, pre, post, npre, sz[b], tr, !std::holds_alternative<core::Population<nt::LIFNeuron>>(net.pops[b]));
    }
}

static std::vector<uint32_t> sorted(std::vector<uint32_t> v)
{
    std::sort(v.begin(), v.end());
    return v;
}

template <class Backend>
static void run(Rng &r, Backend &backend)
{
    const core::UID ext;
    Net<Backend> net;
    random_net(r, net, ext);
    std::vector<core::UID> all_pops, all_prjs;
    {
        std::vector<typename Backend::PopulationVariants> ps;
        std::vector<typename Backend::ProjectionVariants> qs;
        for (auto &p : net.pops) ps.push_back(p), all_pops.push_back(net.uid(p));
        for (auto &q : net.prjs) qs.push_back(q.v), all_prjs.push_back(net.uid(q));
        if (r.coin())
        {
            backend.load_populations(ps);
            backend.load_projections(qs);
        }
        else
        {
            backend.load_projections(qs);
            backend.load_populations(ps);
        }
    }
    neurons_like(backend, net, 0);
    synapses_like(backend, net, 0);
    auto ep = backend.get_message_bus().create_endpoint();
    const core::UID spy;
    ep.template subscribe<cm::SpikeMessage>(spy, all_pops);
    ep.template subscribe<cm::SynapticImpactMessage>(spy, all_prjs);
    uint64_t T = static_cast<uint64_t>(r.in(1, 12));
    uint64_t t = 0;
    SAME(backend.get_step(), uint64_t(0));
    std::vector<cm::SpikeMessage> want_spikes;
    std::vector<cm::SynapticImpactMessage> want_impacts;
    auto before = [&](uint64_t now)
    {
        SAME(now, t, " step passed to the predicate");
        if (now == T) return false;
        if (r.coin(15))
        {
            bool on = r.coin();
            hk::note(on ? "unlock" : "lock", " at ", t);
            on ? backend.start_learning() : backend.stop_learning();
            for (auto &q : net.prjs)
                std::visit([on](auto &p) { on ? p.unlock_weights() : p.lock_weights(); }, q.v);
        }
        std::vector<cm::SpikeMessage> ours;
        if (r.coin(60))
        {
            cm::SpikeMessage m{{ext, t}, {}};
            for (uint32_t i = 0; i < 4; ++i)
                for (int again = r.coin() ? 1 + r.coin(20) : 0; again > 0; --again)
                    m.neuron_indexes_.push_back(i), hk::note("external ", i, " at ", t);
            r.shuffle(m.neuron_indexes_);
            ep.send_message(m);
            ours.push_back(m);
        }
        auto spikes = net.populations(t);
        for (auto &m : ours) net.deliver(m);
        for (auto &m : spikes) net.deliver(m), ours.push_back(m);
        auto impacts = net.projections(t);
        // the messages other participants will observe
        want_spikes = spikes;
        want_impacts = impacts;
        return true;
    };
    backend.start(
        [&](core::Step s) { return before(s); },
        [&](core::Step s)
        {
            SAME(s, t + 1, " step counter after the step");
            neurons_like(backend, net, t);
            synapses_like(backend, net, t);
            ep.receive_all_messages();
            auto got = ep.template unload_messages<cm::SpikeMessage>(spy);
            SAME(got.size(), want_spikes.size(), " spike messages of step ", t);
            for (size_t i = 0; i < got.size(); ++i)
            {
                REQUIRE(got[i].header_.sender_uid_ == want_spikes[i].header_.sender_uid_, "sender of spike message ", i, " of step ", t);
                SAME(got[i].header_.send_time_, t, " time of spike message ", i);
                REQUIRE(sorted(got[i].neuron_indexes_) == sorted(want_spikes[i].neuron_indexes_), "spikes in message ", i, " of step ", t);
            }
            auto imp = ep.template unload_messages<cm::SynapticImpactMessage>(spy);
            SAME(imp.size(), want_impacts.size(), " impact messages of step ", t);
            for (size_t i = 0; i < imp.size(); ++i)
            {
                REQUIRE(imp[i].header_.sender_uid_ == want_impacts[i].header_.sender_uid_, "sender of impact message ", i, " of step ", t);
                SAME(imp[i].header_.send_time_, want_impacts[i].header_.send_time_, " time of impact message ", i);
                REQUIRE(imp[i].postsynaptic_population_uid_ == want_impacts[i].postsynaptic_population_uid_, "addressee of impact message ", i);
                SAME(imp[i].is_forcing_, want_impacts[i].is_forcing_, " forcing of impact message ", i);
                SAME(imp[i].impacts_.size(), want_impacts[i].impacts_.size(), " impacts in message ", i, " of step ", t);
            }
            ++t;
            return true;
        });
    SAME(t, T, " steps run");
    SAME(backend.get_step(), T);
}

HK_CASE("B01", "single_threaded_network", 1500)
{
    auto b = ST::create();
    run<ST>(r, *b);
}
HK_CASE("B04", "multi_threaded_network", 700)
{
    // parts of a few elements: several tasks for each population and projection
    auto n = r.in(1, 4), p = r.in(1, 4), q = r.in(1, 4);
    hk::note("threads ", n, ", neurons in a part ", p, ", synapses in a part ", q);
    MT b(n, p, q);
    run<MT>(r, b);
}
// ------------------------------------------------------------------------------------------- B03: the network held by a backend
template <class A, class B>
static void same_projection(const A &x, const B &y, const std::string &where)
{
    if constexpr (!std::is_same_v<A, B>)
        hk::fail("type of ", where);
    else
    {
        REQUIRE(x.get_uid() == y.get_uid() && x.get_presynaptic() == y.get_presynaptic() && x.get_postsynaptic() == y.get_postsynaptic(),
                "identity of ", where);
        SAME(x.is_locked(), y.is_locked(), " lock of ", where);
        SAME(x.size(), y.size(), " size of ", where);
        for (size_t i = 0; i < x.size(); ++i)
        {
            SAME(std::get<0>(x[i]).weight_, std::get<0>(y[i]).weight_, " weight of synapse ", i, " of ", where);
            SAME(std::get<0>(x[i]).delay_, std::get<0>(y[i]).delay_, " delay of synapse ", i, " of ", where);
            SAME(std::get<1>(x[i]), std::get<1>(y[i]), " source of synapse ", i, " of ", where);
            SAME(std::get<2>(x[i]), std::get<2>(y[i]), " target of synapse ", i, " of ", where);
        }
    }
}
template <class A, class B>
static void same_population(const A &x, const B &y, const std::string &where)
{
    if constexpr (!std::is_same_v<A, B>)
        hk::fail("type of ", where);
    else
    {
        REQUIRE(x.get_uid() == y.get_uid(), "identity of ", where);
        SAME(x.size(), y.size(), " size of ", where);
        for (size_t i = 0; i < x.size(); ++i) cmp(x[i], y[i], where.c_str(), i);
    }
}
template <class N, class V>
static V one_population(Rng &r)
{
    int n = static_cast<int>(r.in(0, 4));
    std::vector<nt::neuron_parameters<N>> v(n);
    for (auto &x : v) lively(r, x);
    hk::note("population of ", n, " ", typeid(nt::neuron_parameters<N>).name());
    return core::Population<N>(core::UID{}, [&](size_t i) { return std::optional(v[i]); }, n);
}
template <class S, class V>
static V one_projection(Rng &r)
{
    int n = static_cast<int>(r.in(0, 4));
    hk::note("projection of ", n, " ", typeid(typename core::Projection<S>::SynapseParameters).name());
    core::Projection<S> p(core::UID{}, core::UID{}, [&](size_t) {
        typename core::Projection<S>::SynapseParameters q{};
        q.weight_ = r.dy(-4, 4);
        q.delay_ = r.in(1, 9);
        return std::optional(typename core::Projection<S>::Synapse{q, r.in(0, 5), r.in(0, 5)});
    }, n);
    if (r.coin()) p.unlock_weights();
    return p;
}
template <class Backend>
static void held(Backend &b, const std::vector<core::AllPopulationsVariant> &ps, const std::vector<core::AllProjectionsVariant> &qs,
                 const char *when)
{
    auto data = b.get_network_data();
    size_t i = 0;
    for (auto &it = *data.population_range.first; it != *data.population_range.second; ++it, ++i)
    {
        REQUIRE(i < ps.size(), "too many populations ", when);
        auto v = *it;
        std::visit([&](auto &x, auto &y) { same_population(x, y, "population " + std::to_string(i) + " " + when); }, v, ps[i]);
    }
    SAME(i, ps.size(), " populations in the network data ", when);
    i = 0;
    for (auto &it = *data.projection_range.first; it != *data.projection_range.second; ++it, ++i)
    {
        REQUIRE(i < qs.size(), "too many projections ", when);
        auto v = *it;
        std::visit([&](auto &x, auto &y) { same_projection(x, y, "projection " + std::to_string(i) + " " + when); }, v, qs[i]);
    }
    SAME(i, qs.size(), " projections in the network data ", when);
    i = 0;
    auto pe = b.end_populations();
    for (auto it = b.begin_populations(); it != pe; ++it, ++i)
        std::visit([&](auto &x, auto &y) { same_population(x, y, "population " + std::to_string(i) + " " + when); }, *it, ps.at(i));
    SAME(i, ps.size(), " populations ", when);
    i = 0;
    auto qe = b.end_projections();
    for (auto it = b.begin_projections(); it != qe; ++it, ++i)
    {
        std::visit([&](auto &x, auto &y) { same_projection(x, y, "projection " + std::to_string(i) + " " + when); }, it->arg_, qs.at(i));
        SAME(it->messages_.size(), size_t(0), " pending impacts of projection ", i, " ", when);
    }
    SAME(i, qs.size(), " projections ", when);
}
template <class Backend>
static void loading(Rng &r)
{
    auto b = Backend::create();
    using PopV = typename Backend::PopulationVariants;
    using PrjV = typename Backend::ProjectionVariants;
    std::vector<core::AllPopulationsVariant> ps;
    std::vector<core::AllProjectionsVariant> qs;
    auto gen_pop = [&](auto *kind, int k)
    {
        using V = std::decay_t<decltype(*kind)>;
        using P = core::AllPopulationsVariant;
        P p = k == 0   ? one_population<nt::BLIFATNeuron, P>(r)
              : k == 1 ? one_population<nt::SynapticResourceSTDPBLIFATNeuron, P>(r)
              : k == 2 ? one_population<nt::AltAILIF, P>(r)
              : k == 3 ? one_population<nt::SynapticResourceSTDPAltAILIFNeuron, P>(r)
                       : one_population<nt::LIFNeuron, P>(r);
        (void)sizeof(V);
        return p;
    };
    auto gen_prj = [&](int k)
    {
        using P = core::AllProjectionsVariant;
        return k == 0   ? one_projection<st::DeltaSynapse, P>(r)
               : k == 1 ? one_projection<st::AdditiveSTDPDeltaSynapse, P>(r)
                        : one_projection<st::SynapticResourceSTDPDeltaSynapse, P>(r);
    };
    auto takes_pop = [](const core::AllPopulationsVariant &v)
    { return std::visit([](auto &x) { return std::is_constructible_v<PopV, std::decay_t<decltype(x)>>; }, v); };
    auto takes_prj = [](const core::AllProjectionsVariant &v)
    { return std::visit([](auto &x) { return std::is_constructible_v<PrjV, std::decay_t<decltype(x)>>; }, v); };
    int rounds = static_cast<int>(r.in(1, 4));
    for (int i = 0; i < rounds; ++i)
    {
        bool odd = r.coin(15);
        auto ps2 = ps;
        auto qs2 = qs;
        bool load_p = r.coin(70), load_q = !load_p || r.coin(70);
        if (load_p)
        {
            ps2.clear();
            for (int j = 0, n = static_cast<int>(r.in(0, 4)); j < n; ++j) ps2.push_back(gen_pop(b.get(), static_cast<int>(r.in(0, 4))));
        }
        if (load_q)
        {
            qs2.clear();
            for (int j = 0, n = static_cast<int>(r.in(0, 4)); j < n; ++j) qs2.push_back(gen_prj(static_cast<int>(r.in(0, 2))));
        }
        if (!odd)
        {
            ps2.erase(std::remove_if(ps2.begin(), ps2.end(), [&](auto &v) { return !takes_pop(v); }), ps2.end());
            qs2.erase(std::remove_if(qs2.begin(), qs2.end(), [&](auto &v) { return !takes_prj(v); }), qs2.end());
        }
        const bool ok_p = std::all_of(ps2.begin(), ps2.end(), takes_pop), ok_q = std::all_of(qs2.begin(), qs2.end(), takes_prj);
        const bool direct = r.coin();
        auto attempt = [&](auto f)
        {
            try
            {
                f();
                return true;
            }
            catch (const std::exception &)
            {
                return false;
            }
        };
        hk::note("load ", load_p, load_q, " directly ", direct);
        if (load_p)
        {
            if (direct && ok_p)
            {
                std::vector<PopV> vs;
                for (auto &p : ps2)
                    std::visit(
                        [&](auto &x)
                        {
                            if constexpr (std::is_constructible_v<PopV, std::decay_t<decltype(x)>>) vs.push_back(x);
                        },
                        p);
                b->load_populations(vs);
            }
            else
                SAME(attempt([&] { b->load_all_populations(ps2); }), ok_p, " loading populations succeeds");
            if (!ok_p) return;  // what remains loaded after a failure is open
            ps = ps2;
        }
        if (load_q)
        {
            // impacts of the network loaded before may still be on their way
            for (auto it = b->begin_projections(); it != b->end_projections(); ++it)
                if (r.coin())
                {
                    it->messages_[r.in(0, 5)] = {};
                    hk::note("a loaded projection has pending impacts");
                }
            if (direct && ok_q)
            {
                std::vector<PrjV> vs;
                for (auto &p : qs2)
                    std::visit(
                        [&](auto &x)
                        {
                            if constexpr (std::is_constructible_v<PrjV, std::decay_t<decltype(x)>>) vs.push_back(x);
                        },
                        p);
                b->load_projections(vs);
            }
            else
                SAME(attempt([&] { b->load_all_projections(qs2); }), ok_q, " loading projections succeeds");
            if (!ok_q) return;
            qs = qs2;
        }
        held(*b, ps, qs, "after loading");
        if (r.coin())
        {
            bool on = r.coin();
            hk::note(on ? "start" : "stop", " learning");
            on ? b->start_learning() : b->stop_learning();
            for (auto &q : qs)
                std::visit([&](auto &x) { on ? x.unlock_weights() : x.lock_weights(); }, q);
            held(*b, ps, qs, on ? "after start of learning" : "after stop of learning");
        }
    }
    // what is advertised is what loads
    const char *pops[] = {"BLIFATNeuron", "SynapticResourceSTDPBLIFATNeuron", "AltAILIF", "SynapticResourceSTDPAltAILIFNeuron", "LIFNeuron"};
    const char *prjs[] = {"DeltaSynapse", "AdditiveSTDPDeltaSynapse", "SynapticResourceSTDPDeltaSynapse"};
    auto has = [](const auto &v, const auto &x) { return std::find(v.begin(), v.end(), x) != v.end(); };
    for (size_t k = 0; k < 5; ++k)
    {
        bool t = takes_pop(gen_pop(b.get(), static_cast<int>(k)));
        SAME(has(b->get_supported_neurons(), std::string(pops[k])), t, " advertises ", pops[k]);
        SAME(has(b->get_supported_population_indexes(), k), t, " index of ", pops[k]);
    }
    for (size_t k = 0; k < 3; ++k)
    {
        bool t = takes_prj(gen_prj(static_cast<int>(k)));
        SAME(has(b->get_supported_synapses(), std::string(prjs[k])), t, " advertises ", prjs[k]);
        SAME(has(b->get_supported_projection_indexes(), k), t, " index of ", prjs[k]);
    }
}
HK_CASE("B03", "single_threaded_loading", 1500) { loading<ST>(r); }
HK_CASE("B03", "multi_threaded_loading", 300) { loading<MT>(r); }

// ------------------------------------------------------------------------------------------- B02: life cycle of a backend
namespace
{
struct Mine
{
};
// throws an exception of one of several types
void fail(int kind)
{
    switch (kind)
    {
        case 0: throw std::runtime_error("x");
        case 1: throw std::out_of_range("x");
        case 2: throw 7;
        case 3: throw Mine{};
        default: throw std::bad_alloc{};
    }
}
struct Mock : core::Backend
{
    int kind = 0;
    std::vector<std::string> log;
    std::function<void(core::Step)> on_step = [](core::Step) {};
    bool init_throws = false;
    bool plasticity_supported() const override { return false; }
    std::vector<std::string> get_supported_neurons() const override { return {}; }
    std::vector<std::string> get_supported_synapses() const override { return {}; }
    std::vector<size_t> get_supported_population_indexes() const override { return {}; }
    std::vector<size_t> get_supported_projection_indexes() const override { return {}; }
    void load_all_projections(const std::vector<core::AllProjectionsVariant> &) override {}
    void load_all_populations(const std::vector<core::AllPopulationsVariant> &) override {}
    void remove_projections(const std::vector<core::UID> &) override {}
    void remove_populations(const std::vector<core::UID> &) override {}
    std::vector<std::unique_ptr<core::Device>> get_devices() const override { return {}; }
    void stop_learning() override {}
    void start_learning() override {}
    DataRanges get_network_data() const override { return {}; }
    void _init() override
    {
        log.push_back("init");
        if (init_throws) fail(kind);
    }
    void _step() override
    {
        const auto s = get_step();
        log.push_back("step " + std::to_string(s));
        on_step(s);
        gad_step();
    }
};
}  // namespace

HK_CASE("B02", "life_cycle", 4000)
{
    Mock b;
    std::vector<std::string> want;
    core::Step step = 0;
    bool inited = false, on = false;
    for (int session = 0, n = static_cast<int>(r.in(1, 4)); session < n; ++session)
    {
        const auto first = step;
        // what happens, and at which of the coming steps
        const int what = static_cast<int>(r.in(0, 6));
        const auto when = step + static_cast<uint64_t>(r.in(0, 4));
        const auto hard = when + static_cast<uint64_t>(r.in(0, 3));  // the step is stopped here at the latest
        const int preds = static_cast<int>(r.in(0, 2));
        const bool has_pre = preds == 1 || (preds == 2 && r.coin(70)), has_post = preds == 2 && r.coin(70);
        b.kind = static_cast<int>(r.in(0, 4));
        b.init_throws = !inited && what == 6 && r.coin();
        hk::note("start with ", preds, " predicates (", has_pre, has_post, "), event ", what, " at step ", when, ", stop in step ", hard,
                 ", init throws ", b.init_throws, ", exception of kind ", b.kind);
        b.on_step = [&](core::Step s)
        {
            if (what == 0 && s == when) fail(b.kind);
            if ((what == 1 && s == when) || s == hard) b.stop();
        };
        auto pre = [&](core::Step s)
        {
            b.log.push_back("pre " + std::to_string(s));
            if (what == 2 && s == when) fail(b.kind);
            return !(what == 4 && s == when);
        };
        auto post = [&](core::Step s)
        {
            b.log.push_back("post " + std::to_string(s));
            if (what == 2 && s == when) fail(b.kind);
            if (what == 3 && s == when) b.stop();
            return !(what == 5 && s == when);
        };
        // the required history
        bool thrown = false;
        if (!on && !inited) want.push_back("init");
        if (!on && !inited && b.init_throws)
            thrown = true;
        else
        {
            inited = inited || !on;
            on = true;
            while (on)
            {
                if (has_pre)
                {
                    want.push_back("pre " + std::to_string(step));
                    if (what == 2 && step == when) thrown = true;
                    if (thrown || (what == 4 && step == when)) break;
                }
                want.push_back("step " + std::to_string(step));
                if (what == 0 && step == when)
                {
                    thrown = true;
                    break;
                }
                if ((what == 1 && step == when) || step == hard) on = false;
                ++step;
                if (has_post)
                {
                    want.push_back("post " + std::to_string(step));
                    if (what == 2 && step == when) thrown = true;
                    if (thrown || (what == 5 && step == when)) break;
                    if (what == 3 && step == when) on = false;
                }
            }
            if (thrown) on = false;
        }
        bool got = false;
        try
        {
            const core::Backend::RunPredicate no;
            if (preds == 0)
                b.start();
            else if (preds == 1)
                b.start(pre);
            else
                b.start(has_pre ? core::Backend::RunPredicate(pre) : no, has_post ? core::Backend::RunPredicate(post) : no);
        }
        catch (const std::exception &)
        {
            got = b.kind == 0 || b.kind == 1 || b.kind == 4;
        }
        catch (int)
        {
            got = b.kind == 2;
        }
        catch (const Mine &)
        {
            got = b.kind == 3;
        }
        SAME(got, thrown, " exception reaches the caller");
        for (size_t i = 0; i < std::min(want.size(), b.log.size()); ++i)
            REQUIRE(want[i] == b.log[i], "event ", i, ": ", b.log[i], " instead of ", want[i]);
        SAME(b.log.size(), want.size(), " events");
        SAME(b.get_step(), step);
        if (thrown || !on) SAME(b.running(), false);
        if (b.running() || r.coin(30))
        {
            b.stop();
            SAME(b.running(), false);
        }
        on = false;
        if (r.coin(30))
        {
            b._uninit();
            inited = false;
            SAME(b.running(), false);
        }
        (void)first;
    }
}
HK_MAIN
