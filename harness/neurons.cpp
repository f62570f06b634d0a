// Executable contracts N01-N03: one simulation step of every neuron model against the published dynamics.
#include <knp/backends/cpu-library/populations.h>

#include <knp/core/population.h>

#include "fields.h"

namespace cm = knp::core::messaging;
namespace pop = knp::backends::cpu::populations;
using OT = knp::synapse_traits::OutputType;
// ------------------------------------------------------------------ published dynamics
static void ref_pre(BP &n)
{
    n.n_time_steps_since_last_firing_ += 1;
    n.dynamic_threshold_ = n.dynamic_threshold_ * n.threshold_decay_;
    n.postsynaptic_trace_ = n.postsynaptic_trace_ * n.postsynaptic_trace_decay_;
    n.inhibitory_conductance_ = n.inhibitory_conductance_ * n.inhibitory_conductance_decay_;
    double p = n.potential_ * n.potential_decay_;
    if (n.bursting_phase_ == 1) p += n.reflexive_weight_;
    if (n.bursting_phase_ > 0) n.bursting_phase_ = n.bursting_phase_ - 1;
    n.potential_ = n.pre_impact_potential_ = p;
}
static void ref_pre(SBP &n)
{
    ref_pre(static_cast<BP &>(n));
    n.dopamine_value_ = 0;
    n.is_being_forced_ = false;
}
static void ref_pre(AP &n)
{
    n.potential_ = n.do_not_save_ ? static_cast<float>(n.potential_reset_value_) : std::round(n.potential_);
    n.pre_impact_potential_ = n.potential_;
}
static void ref_pre(SAP &n)
{
    ref_pre(static_cast<AP &>(n));
    n.dopamine_value_ = 0;
    n.is_being_forced_ = false;
}
static void ref_pre(LP &n)
{
    if (n.refract_counter_ == 0) n.potential_ = n.potential_ * n.leak_coefficient_;
}
static void ref_impact(BP &n, OT t, float v, bool)
{
    if (t == OT::EXCITATORY) n.potential_ += v;
    if (t == OT::INHIBITORY_CURRENT) n.potential_ -= v;
    if (t == OT::INHIBITORY_CONDUCTANCE) n.inhibitory_conductance_ += v;
    if (t == OT::DOPAMINE) n.dopamine_value_ += v;
    if (t == OT::BLOCKING) n.total_blocking_period_ = static_cast<int64_t>(v);
}
static void ref_impact(SBP &n, OT t, float v, bool f)
{
    ref_impact(static_cast<BP &>(n), t, v, f);
    if (t == OT::EXCITATORY && f) n.is_being_forced_ = true;
}
static void ref_impact(AP &n, OT t, float v, bool)
{
    if (t == OT::EXCITATORY) n.potential_ += v;
    if (t == OT::INHIBITORY_CURRENT) n.potential_ -= v;
    if (t == OT::DOPAMINE) n.dopamine_value_ += v;
    if (t == OT::BLOCKING)
    {
        bool sn = n.activity_time_ < 0, sv = std::signbit(v);
        long double m = n.activity_time_ < 0 ? -(long double)n.activity_time_ : (long double)n.activity_time_;
        if (sn != sv || m <= std::fabs(v)) n.activity_time_ = static_cast<int64_t>(v);
    }
}
static void ref_impact(SAP &n, OT t, float v, bool f)
{
    ref_impact(static_cast<AP &>(n), t, v, f);
    if (t == OT::EXCITATORY && f) n.is_being_forced_ = true;
}
static void ref_impact(LP &n, OT t, float v, bool)
{
    if (n.refract_counter_ != 0) return;
    n.potential_ += t == OT::EXCITATORY ? v : -v;
}
static bool ref_post(BP &n)
{
    if (n.total_blocking_period_ <= 0) n.potential_ = n.pre_impact_potential_;
    if (n.total_blocking_period_ == -1)
        n.total_blocking_period_ = INT64_MAX;
    else if (n.total_blocking_period_ < 0)
        n.total_blocking_period_ += 1;
    else if (n.total_blocking_period_ > 0)
        n.total_blocking_period_ -= 1;
    n.potential_ = n.inhibitory_conductance_ < 1
                       ? n.potential_ - (n.potential_ - n.reversal_inhibitory_potential_) * n.inhibitory_conductance_
                       : n.reversal_inhibitory_potential_;
    bool s = n.n_time_steps_since_last_firing_ > n.absolute_refractory_period_ &&
             n.potential_ >= n.activation_threshold_ + n.dynamic_threshold_ + n.additional_threshold_;
    if (s)
    {
        n.dynamic_threshold_ += n.threshold_increment_;
        n.postsynaptic_trace_ += n.postsynaptic_trace_increment_;
        n.potential_ = n.potential_reset_value_;
        n.bursting_phase_ = n.bursting_period_;
        n.n_time_steps_since_last_firing_ = 0;
    }
    if (n.potential_ < n.min_potential_) n.potential_ = n.min_potential_;
    return s;
}
static bool ref_post(AP &n)
{
    n.potential_ += (n.leak_rev_ && n.potential_ < 0) ? -n.potential_leak_ : n.potential_leak_;
    if (n.activity_time_ > 0)
        n.activity_time_ -= 1;
    else if (n.activity_time_ < 0)
        n.activity_time_ += 1;
    if (n.activity_time_ == 0) n.activity_time_ = INT64_MAX;
    const double thr = n.activation_threshold_ + n.additional_threshold_;
    const bool over = n.potential_ >= thr;
    const bool s = over && n.activity_time_ > 0;
    if (over && n.is_diff_) n.potential_ = static_cast<float>(n.potential_ - thr);
    if (over && n.is_reset_) n.potential_ = n.potential_reset_value_;
    const float floor_ = -static_cast<float>(n.negative_activation_threshold_);
    if (n.potential_ <= floor_ && !(over && n.is_reset_))
    {
        if (n.saturate_)
            n.potential_ = floor_;
        else if (n.is_reset_)
            n.potential_ = -static_cast<float>(n.potential_reset_value_);
        else if (n.is_diff_)
            n.potential_ += n.negative_activation_threshold_;
    }
    return s;
}
static bool ref_post(LP &n)
{
    bool s = n.refract_counter_ == 0 && n.potential_ > n.activation_threshold_;
    if (s)
    {
        n.potential_ = n.potential_reset_value_;
        n.refract_counter_ = n.refract_period_;
    }
    else if (n.refract_counter_ > 0)
        n.refract_counter_ -= 1;
    return s;
}

// ------------------------------------------------------------------ the check
template <class N>
static void check(hk::Rng &r, std::initializer_list<OT> types)
{
    using P = nt::neuron_parameters<N>;
    const size_t n = r.in(0, 7);
    std::vector<P> model(n);
    for (auto &x : model) gen(r, x);
    const auto initial = model;
    knp::core::Population<N> p([&](size_t i) { return model[i]; }, n);
    const auto uid = p.get_uid();
    size_t a = 0, b = n;
    if (r.coin(40)) a = r.in(0, n), b = r.in(a, n);
    hk::note("neurons=", n, " range=[", a, ",", b, ")");
    for (auto &x : model) hk::note(show(x));
    const int steps = r.one({1, 1, 1, 2, 3});
    for (int s = 0; s < steps; ++s)
    {
        pop::calculate_pre_impact_population_state(p, a, b);
        for (size_t i = a; i < b; ++i) ref_pre(model[i]);
        SAME(p.size(), n, "population size");
        for (size_t i = 0; i < n; ++i) cmp(p[i], model[i], "after the pre-impact phase", i);

        std::vector<cm::SynapticImpactMessage> ms(n ? r.in(0, 3) : 0);
        for (auto &m : ms)
        {
            m.is_forcing_ = r.coin(30);
            m.impacts_.resize(r.in(0, 5));
            for (auto &im : m.impacts_)
            {
                im.synapse_type_ = r.one(types);
                im.impact_value_ = static_cast<float>(r.dy(-4, 4));
                im.presynaptic_neuron_index_ = r.in(0, 100);
                im.postsynaptic_neuron_index_ = r.in(0, n - 1);
                hk::note("impact ", static_cast<int>(im.synapse_type_), " ", im.impact_value_, "->",
                         im.postsynaptic_neuron_index_, m.is_forcing_ ? " forcing" : "");
            }
        }
        const auto copy = ms;
        pop::impact_population(p, ms);
        for (auto &m : copy)
            for (auto &im : m.impacts_)
                ref_impact(model[im.postsynaptic_neuron_index_], im.synapse_type_, im.impact_value_, m.is_forcing_);
        for (size_t i = 0; i < n; ++i) cmp(p[i], model[i], "after the impacts", i);

        cm::SpikeMessage msg{{uid, 77}, {}};
        std::vector<uint32_t> want;
        if (r.coin(30)) want = {9, 3};
        for (auto x : want) msg.neuron_indexes_.push_back(x);
        pop::calculate_post_impact_population_state(p, msg, a, b);
        for (size_t i = a; i < b; ++i)
            if (ref_post(model[i])) want.push_back(i);
        for (size_t i = 0; i < n; ++i) cmp(p[i], model[i], "after the post-impact phase", i);
        REQUIRE(std::vector<uint32_t>(msg.neuron_indexes_.begin(), msg.neuron_indexes_.end()) == want,
                "spike list differs at step ", s);
        REQUIRE(msg.header_.sender_uid_ == uid && msg.header_.send_time_ == 77, "message header changed");
    }
    REQUIRE(p.get_uid() == uid, "population UID changed");
}

HK_CASE("N01", "blifat_step", 60000)
{
    check<nt::BLIFATNeuron>(
        r, {OT::EXCITATORY, OT::INHIBITORY_CURRENT, OT::INHIBITORY_CONDUCTANCE, OT::DOPAMINE, OT::BLOCKING});
}
HK_CASE("N01", "stdp_blifat_step", 60000)
{
    check<nt::SynapticResourceSTDPBLIFATNeuron>(
        r, {OT::EXCITATORY, OT::INHIBITORY_CURRENT, OT::INHIBITORY_CONDUCTANCE, OT::DOPAMINE, OT::BLOCKING});
}
HK_CASE("N02", "altai_step", 60000)
{
    check<nt::AltAILIF>(r, {OT::EXCITATORY, OT::INHIBITORY_CURRENT, OT::DOPAMINE, OT::BLOCKING});
}
HK_CASE("N02", "stdp_altai_step", 60000)
{
    check<nt::SynapticResourceSTDPAltAILIFNeuron>(
        r, {OT::EXCITATORY, OT::INHIBITORY_CURRENT, OT::DOPAMINE, OT::BLOCKING});
}
HK_CASE("N03", "lif_step", 100000) { check<nt::LIFNeuron>(r, {OT::EXCITATORY, OT::INHIBITORY_CURRENT}); }

// ------------------------------------------------------------------------------------------ P02
template <typename N>
static void population_ops(hk::Rng &r)
{
    using P = nt::neuron_parameters<N>;
    std::vector<double> m;
    double tick = 0;
    auto make = [&](int k, std::vector<std::optional<P>> &v)
    {
        std::vector<double> add;
        for (int i = 0; i < k; ++i)
        {
            if (r.coin(25))
            {
                v.push_back(std::nullopt);
                continue;
            }
            P x;
            x.potential_ = static_cast<decltype(x.potential_)>(++tick);
            v.push_back(x);
            add.push_back(tick);
        }
        return add;
    };
    auto marker = [](const P &x) { return static_cast<double>(x.potential_); };
    std::vector<std::optional<P>> init;
    int k0 = static_cast<int>(r.in(0, r.coin(2) ? 700 : 8));
    m = make(k0, init);
    knp::core::UID uid;
    size_t calls = 0;
    knp::core::Population<N> p(
        uid,
        [&](size_t i)
        {
            REQUIRE(i == calls++, "generator called out of order with ", i);
            return init.at(i);
        },
        k0);
    SAME(calls, static_cast<size_t>(k0));
    auto same = [&]()
    {
        SAME(p.size(), m.size());
        const auto &cp = p;
        size_t i = 0;
        for (const auto &x : cp) SAME(marker(x), m.at(i++));
        for (i = 0; i < m.size(); ++i)
        {
            SAME(marker(cp[i]), m[i]);
            SAME(marker(p[i]), m[i]);
            SAME(marker(p.get_neuron_parameters(i)), m[i]);
            SAME(marker(p.get_neurons_parameters()[i]), m[i]);
        }
        REQUIRE(p.get_uid() == uid, "identifier changed");
    };
    same();
    int ops = static_cast<int>(r.in(1, 10));
    for (int o = 0; o < ops; ++o)
    {
        switch (r.in(0, 4))
        {
            case 0:
            {
                std::vector<std::optional<P>> v;
                int k = static_cast<int>(r.in(0, 6));
                auto a = make(k, v);
                hk::note("add ", k, " giving ", a.size());
                m.insert(m.end(), a.begin(), a.end());
                p.add_neurons([&](size_t i) { return v.at(i); }, k);
                break;
            }
            case 1:
                if (!m.empty())
                {
                    size_t i = static_cast<size_t>(r.in(0, m.size() - 1));
                    hk::note("remove ", i);
                    p.remove_neuron(i);
                    m.erase(m.begin() + i);
                }
                break;
            case 2:
            {
                std::vector<size_t> idx;
                std::vector<double> left;
                for (size_t i = 0; i < m.size(); ++i)
                    if (r.coin(40))
                        idx.push_back(i);
                    else
                        left.push_back(m[i]);
                for (auto i : idx) hk::note("remove list ", i);
                p.remove_neurons(idx);
                m = left;
                break;
            }
            case 3:
                if (!m.empty())
                {
                    size_t i = static_cast<size_t>(r.in(0, m.size() - 1));
                    P x;
                    x.potential_ = static_cast<decltype(x.potential_)>(++tick);
                    m[i] = tick;
                    hk::note("set ", i);
                    p.set_neuron_parameters(i, x);
                }
                break;
            default:
            {
                std::vector<P> v(static_cast<size_t>(r.in(0, 5)));
                m.clear();
                for (auto &x : v)
                {
                    x.potential_ = static_cast<decltype(x.potential_)>(++tick);
                    m.push_back(tick);
                }
                hk::note("set all ", v.size());
                if (r.coin())
                    p.set_neurons_parameters(v);
                else
                    p.set_neurons_parameters(std::move(v));
            }
        }
        same();
    }
}
HK_CASE("P02", "population_blifat", 2000) { population_ops<nt::BLIFATNeuron>(r); }
HK_CASE("P02", "population_resource_blifat", 1000) { population_ops<nt::SynapticResourceSTDPBLIFATNeuron>(r); }
HK_CASE("P02", "population_altai", 1000) { population_ops<nt::AltAILIF>(r); }
HK_CASE("P02", "population_resource_altai", 1000) { population_ops<nt::SynapticResourceSTDPAltAILIFNeuron>(r); }
HK_CASE("P02", "population_lif", 1000) { population_ops<nt::LIFNeuron>(r); }

HK_MAIN
