// Executable contract F09 (normalization of synapses and neurons) against copies taken before.
#include <spdlog/spdlog.h>
#include <knp/framework/network.h>
#include <knp/framework/normalization/neuron_accessors.h>
#include <knp/framework/normalization/neuron_normalizer.h>
#include <knp/framework/normalization/normalizers.h>
#include <knp/framework/normalization/synapse_accessors.h>
#include <knp/framework/normalization/synapse_normalizer.h>

#include "fields.h"
#include "hk.h"

namespace core = knp::core;
namespace fw = knp::framework;
namespace nr = knp::framework::normalization;
namespace st = knp::synapse_traits;

template <class N>
static void add_population(hk::Rng &r, fw::Network &net)
{
    size_t n = size_t(r.in(0, 4));
    net.add_population<core::Population<N>>(core::Population<N>(
        core::UID(), [&](size_t) { nt::neuron_parameters<N> p; gen(r, p); return std::optional(p); }, n));
}
static void more(hk::Rng &, st::synapse_parameters<st::DeltaSynapse> &) {}
static void more(hk::Rng &r, st::synapse_parameters<st::AdditiveSTDPDeltaSynapse> &p)
{
    p.rule_.tau_plus_ = r.dy(1, 9);
    p.rule_.presynaptic_spike_times_ = {uint64_t(r.in(0, 9)), 4};
}
static void more(hk::Rng &r, st::synapse_parameters<st::SynapticResourceSTDPDeltaSynapse> &p)
{
    p.rule_.synaptic_resource_ = r.dy(-3, 9);
    p.rule_.w_min_ = r.dy(-3, 0), p.rule_.w_max_ = r.dy(1, 4);
}
static bool same_rule(const st::synapse_parameters<st::DeltaSynapse> &, const st::synapse_parameters<st::DeltaSynapse> &) { return true; }
static bool same_rule(const st::synapse_parameters<st::AdditiveSTDPDeltaSynapse> &a, const st::synapse_parameters<st::AdditiveSTDPDeltaSynapse> &b)
{
    return a.rule_.tau_plus_ == b.rule_.tau_plus_ && a.rule_.presynaptic_spike_times_ == b.rule_.presynaptic_spike_times_;
}
static bool same_rule(const st::synapse_parameters<st::SynapticResourceSTDPDeltaSynapse> &a, const st::synapse_parameters<st::SynapticResourceSTDPDeltaSynapse> &b)
{
    return a.rule_.synaptic_resource_ == b.rule_.synaptic_resource_ && a.rule_.w_min_ == b.rule_.w_min_ && a.rule_.w_max_ == b.rule_.w_max_;
}
template <class S>
static void add_projection(hk::Rng &r, fw::Network &net)
{
    using P = core::Projection<S>;
    size_t n = size_t(r.in(0, 5));
    P made(core::UID(), core::UID(), core::UID(), [&](size_t)
    {
        typename P::SynapseParameters p;
        p.weight_ = r.dy(-9, 9);
        p.delay_ = uint32_t(r.in(1, 9));
        p.output_type_ = r.coin() ? st::OutputType::EXCITATORY : st::OutputType::DOPAMINE;
        more(r, p);
        return std::optional(typename P::Synapse{p, size_t(r.in(0, 3)), size_t(r.in(0, 3))});
    }, n);
    if (r.coin()) made.unlock_weights();
    net.add_projection<P>(std::move(made));
}
template <class T>
static T f(const T &x)
{
    return x * T(1.5) + T(7);
}
static void compare(const fw::Network &a, const fw::Network &b, bool w, bool v)
{
    REQUIRE(a.get_uid() == b.get_uid(), "identity");
    SAME(a.get_populations().size(), b.get_populations().size());
    SAME(a.get_projections().size(), b.get_projections().size());
    for (size_t i = 0; i < b.get_populations().size(); ++i)
        std::visit([&](auto &q)
        {
            auto &p = std::get<std::decay_t<decltype(q)>>(a.get_populations()[i]);
            REQUIRE(p.get_uid() == q.get_uid() && p.size() == q.size(), "population ", i);
            for (size_t k = 0; k < q.size(); ++k)
            {
                auto want = q[k];
                if (v) want.potential_ = decltype(want.potential_)(f<double>(want.potential_));
                cmp(p[k], want, "population", k);
            }
        }, b.get_populations()[i]);
    for (size_t i = 0; i < b.get_projections().size(); ++i)
        std::visit([&](auto &q)
        {
            auto &p = std::get<std::decay_t<decltype(q)>>(a.get_projections()[i]);
            REQUIRE(p.get_uid() == q.get_uid() && p.size() == q.size() && p.get_presynaptic() == q.get_presynaptic() &&
                    p.get_postsynaptic() == q.get_postsynaptic() && p.is_locked() == q.is_locked(), "projection ", i);
            for (size_t k = 0; k < q.size(); ++k)
            {
                auto &[x, from, to] = p[k];
                auto &[y, from2, to2] = q[k];
                SAME(x.weight_, w ? f<float>(y.weight_) : y.weight_, "synapse ", k, " of projection ", i);
                REQUIRE(from == from2 && to == to2 && x.delay_ == y.delay_ && x.output_type_ == y.output_type_ && same_rule(x, y), "synapse ", k, " of projection ", i);
            }
        }, b.get_projections()[i]);
}

HK_CASE("F09", "networks", 3000)
{
    fw::Network net;
    for (int k = int(r.in(0, 5)); k > 0; --k)
        switch (r.in(0, 4))
        {
            case 0: add_population<nt::BLIFATNeuron>(r, net); break;
            case 1: add_population<nt::SynapticResourceSTDPBLIFATNeuron>(r, net); break;
            case 2: add_population<nt::AltAILIF>(r, net); break;
            case 3: add_population<nt::SynapticResourceSTDPAltAILIFNeuron>(r, net); break;
            default: add_population<nt::LIFNeuron>(r, net);
        }
    for (int k = int(r.in(0, 4)); k > 0; --k)
        switch (r.in(0, 2))
        {
            case 0: add_projection<st::DeltaSynapse>(r, net); break;
            case 1: add_projection<st::AdditiveSTDPDeltaSynapse>(r, net); break;
            default: add_projection<st::SynapticResourceSTDPDeltaSynapse>(r, net);
        }
    hk::note(net.get_populations().size(), " populations, ", net.get_projections().size(), " projections");
    const fw::Network before = net;
    nr::ValueCorrector<float> cf = f<float>;
    nr::ValueCorrector<double> cd = f<double>;
    compare(nr::normalize_synapses<nr::WeightAccessor, nr::WeightAccessor>(before, cf), net, true, false);
    compare(nr::normalize_neurons<nr::PotentialAccessor, nr::PotentialAccessor>(before, cd), net, false, true);
    compare(before, net, false, false);
    if (r.coin())
    {
        nr::normalize_synapses<nr::WeightAccessor, nr::WeightAccessor>(net, cf);
        compare(net, before, true, false);
    }
    else
    {
        nr::normalize_neurons<nr::PotentialAccessor, nr::PotentialAccessor>(net, cd);
        compare(net, before, false, true);
    }
}

HK_CASE("F09", "rescaling", 5000)
{
    double a = r.dy(-9, 0), b = a + r.in(1, 9), c = r.dy(-9, 9), d = r.dy(-9, 9), x = r.dy(-20, 20);
    hk::note("from ", a, "..", b, " to ", c, "..", d, " value ", x);
    nr::Rescaler<double> q(a, b, c, d);
    REQUIRE(std::abs(q(x) - (c + (x - a) / (b - a) * (d - c))) < 1e-9, "rescaled ", q(x));
    REQUIRE(q(a) == c, "the start moves to the start");
    nr::Rescaler<float> g{float(a), float(b), float(c), float(d)};
    REQUIRE(std::abs(double(g(float(x))) - (c + (x - a) / (b - a) * (d - c))) < 1e-3, "rescaled ", g(float(x)));
}

HK_MAIN
