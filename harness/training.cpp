// Executable contracts S02: synaptic-resource STDP against a step-by-step reference.
#include <spdlog/spdlog.h>
#include <cmath>
#include <knp/backends/cpu-library/populations.h>

#include <algorithm>

#include "hk.h"

namespace st = knp::synapse_traits;
namespace nt = knp::neuron_traits;
namespace core = knp::core;
namespace cm = knp::core::messaging;
using Syn = st::SynapticResourceSTDPDeltaSynapse;
using Prj = core::Projection<Syn>;
using SP = Prj::SynapseParameters;
using Isi = nt::ISIPeriodType;

static bool close(double a, double b)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    return std::fabs(a - b) <= 1e-4 * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}
#define NEAR(a, b, ...)                                                                                            \
    do                                                                                                             \
    {                                                                                                              \
        double hk_x = (a), hk_y = (b);                                                                             \
        if (!close(hk_x, hk_y)) hk::fail(#a, ": got ", hk_x, ", the property requires ", hk_y, " ", __VA_ARGS__);  \
    } while (0)

template <class N>
using NP = nt::neuron_parameters<N>;

struct S
{
    SP p;
    size_t pre, post;
};

static void weigh(S &s)
{
    auto &r = s.p.rule_;
    double res = std::max<double>(r.synaptic_resource_, 0), d = static_cast<double>(r.w_max_) - r.w_min_;
    s.p.weight_ = static_cast<float>(r.w_min_ + d * res / (d + res));
}
template <class P>
static double damp(const P &n)
{
    return std::min(std::pow(2.0, -static_cast<double>(n.stability_)), 1.0);
}

template <class P>
static void ref_train(std::vector<P> &pop, std::vector<std::vector<S>> &prj, const std::vector<uint32_t> &spikes, uint64_t step)
{
    auto each = [&](size_t n, auto f)
    {
        for (auto &v : prj)
            for (auto &s : v)
                if (s.post == n) f(s);
    };
    for (auto i : spikes)
    {
        P &n = pop[i];
        n.last_spike_step_ = step;
        if (n.is_being_forced_)
            n.isi_status_ = Isi::is_forced;
        else
        {
            bool near = step - n.last_step_ < n.isi_max_;
            if (n.isi_status_ == Isi::not_in_period || n.isi_status_ == Isi::is_forced)
            {
                n.isi_status_ = Isi::period_started;
                n.first_isi_spike_ = step;
            }
            else if (n.isi_status_ == Isi::period_started)
            {
                if (near) n.isi_status_ = Isi::period_continued;
            }
            else if (!near || n.dopamine_value_ != 0)
            {
                n.isi_status_ = Isi::period_started;
                n.first_isi_spike_ = step;
            }
            n.last_step_ = step;
        }
        if (n.isi_status_ == Isi::period_started) n.stability_ -= n.stability_change_at_isi_;
        double sum = 0;
        each(i, [&](S &s) { if (s.p.weight_ > 0) sum += s.p.weight_; });
        n.additional_threshold_ = sum * n.synapse_sum_threshold_coefficient_;
        bool cont = n.isi_status_ == Isi::period_continued;
        each(i,
             [&](S &s)
             {
                 auto &r = s.p.rule_;
                 uint64_t at = r.last_spike_step_ + s.p.delay_ - 1;
                 bool had = at + r.dopamine_plasticity_period_ >= step && at <= step;
                 if (!cont || had) r.has_contributed_ = had;
                 if (!cont) r.had_hebbian_update_ = false;
                 if (n.isi_status_ != Isi::is_forced)
                 {
                     r.synaptic_resource_ -= r.d_u_;
                     n.free_synaptic_resource_ += r.d_u_;
                     if (r.has_contributed_ && !r.had_hebbian_update_)
                     {
                         double d = n.d_h_ * damp(n);
                         r.synaptic_resource_ += d;
                         n.free_synaptic_resource_ -= d;
                         r.had_hebbian_update_ = true;
                     }
                 }
                 weigh(s);
             });
    }
    for (size_t i = 0; i < pop.size(); ++i)
    {
        P &n = pop[i];
        double D = n.dopamine_value_;
        if (!(D > 0 || (D < 0 && n.isi_status_ != Isi::is_forced))) continue;
        each(i,
             [&](S &s)
             {
                 auto &r = s.p.rule_;
                 if (step - n.last_spike_step_ <= n.dopamine_plasticity_time_ && r.has_contributed_)
                 {
                     double c = D * damp(n);
                     r.synaptic_resource_ += c;
                     n.free_synaptic_resource_ -= c;
                 }
                 weigh(s);
             });
        if (n.is_being_forced_ || D < 0)
            n.stability_ = std::max(n.stability_ - D * n.stability_change_parameter_, 0.0);
        else
        {
            double d = std::fabs(static_cast<double>(step - n.first_isi_spike_) - n.isi_max_);
            n.stability_ += n.stability_change_parameter_ * D * std::max(2.0 - d / n.isi_max_, -1.0);
        }
    }
    for (size_t i = 0; i < pop.size(); ++i)
    {
        P &n = pop[i];
        if (step - n.last_step_ <= n.isi_max_ && n.isi_status_ != Isi::is_forced) continue;
        if (std::fabs(n.free_synaptic_resource_) < n.synaptic_resource_threshold_) continue;
        size_t m = 0;
        each(i, [&](S &) { ++m; });
        double add = static_cast<double>(n.free_synaptic_resource_) / (m + n.resource_drain_coefficient_);
        each(i, [&](S &s) { s.p.rule_.synaptic_resource_ += add; weigh(s); });
        n.free_synaptic_resource_ = 0;
    }
}

template <class N>
static void train(hk::Rng &r)
{
    using P = NP<N>;
    int n = static_cast<int>(r.in(1, 4));
    uint64_t step = static_cast<uint64_t>(r.in(20, 30));
    std::vector<P> model;
    for (int i = 0; i < n; ++i)
    {
        P p{};
        p.synapse_sum_threshold_coefficient_ = r.dy(0, 2);
        p.dopamine_plasticity_time_ = r.in(0, 4);
        p.free_synaptic_resource_ = r.dy(-4, 4);
        p.synaptic_resource_threshold_ = r.coin(30) ? 1000.F : r.dy(0, 4) + 0.1F;
        p.resource_drain_coefficient_ = r.in(1, 4);
        p.stability_ = r.dy(-2, 4);
        p.stability_change_parameter_ = r.dy(0, 2);
        p.stability_change_at_isi_ = r.dy(0, 2);
        p.isi_max_ = r.in(1, 6);
        p.d_h_ = r.dy(0, 2);
        p.isi_status_ = r.one({Isi::is_forced, Isi::period_started, Isi::period_continued, Isi::not_in_period});
        p.last_step_ = r.in(10, step);
        p.last_spike_step_ = r.in(p.last_step_, step);
        p.first_isi_spike_ = r.in(8, p.last_step_);
        p.is_being_forced_ = r.coin(25);
        p.dopamine_value_ = r.coin(40) ? 0 : r.dy(-3, 3);
        model.push_back(p);
    }
    core::Population<N> pop(core::UID{}, [&](size_t i) { return std::optional(model[i]); }, n);
    core::UID pre;
    std::vector<Prj> prj;
    std::vector<std::vector<S>> ref;
    int np = static_cast<int>(r.in(0, 3));
    for (int q = 0; q < np; ++q)
    {
        std::vector<S> v;
        int m = static_cast<int>(r.in(0, 6));
        for (int i = 0; i < m; ++i)
        {
            SP p{};
            p.weight_ = r.dy(-3, 3);
            p.delay_ = r.in(1, 3);
            auto &u = p.rule_;
            u.synaptic_resource_ = r.dy(-3, 3);
            u.w_min_ = r.dy(-2, 0);
            u.w_max_ = u.w_min_ + 0.25F + r.dy(0, 3);
            u.d_u_ = r.coin() ? 0 : r.dy(0, 1);
            u.dopamine_plasticity_period_ = r.in(0, 8);
            u.last_spike_step_ = r.in(8, step);
            u.had_hebbian_update_ = r.coin();
            u.has_contributed_ = r.coin();
            v.push_back({p, static_cast<size_t>(r.in(0, 4)), static_cast<size_t>(r.in(0, n - 1))});
            hk::note("prj", q, " syn ", v.back().pre, "->", v.back().post, " w=", p.weight_, " res=", u.synaptic_resource_,
                     " last=", u.last_spike_step_, " delay=", p.delay_, " period=", u.dopamine_plasticity_period_, " contrib=",
                     u.has_contributed_, " hebb=", u.had_hebbian_update_);
        }
        ref.push_back(v);
        prj.emplace_back(pre, pop.get_uid(),
                         [&](size_t i) { return std::optional(Prj::Synapse{v[i].p, v[i].pre, v[i].post}); }, v.size());
    }
    std::vector<std::reference_wrapper<Prj>> refs(prj.begin(), prj.end());
    int T = static_cast<int>(r.in(1, 5));
    for (int t = 0; t < T; ++t, step += r.in(1, 3))
    {
        cm::SpikeMessage msg{{pop.get_uid(), step}, {}};
        for (int i = 0; i < n; ++i)
            if (r.coin()) msg.neuron_indexes_.push_back(i);
        for (int i = 0; i < n; ++i)
        {
            if (r.coin(40))
            {
                model[i].dopamine_value_ = pop[i].dopamine_value_ = r.coin() ? 0 : r.dy(-3, 3);
                model[i].is_being_forced_ = pop[i].is_being_forced_ = r.coin(25);
            }
            auto &p = model[i];
            hk::note("step ", step, " neuron ", i, " spikes=",
                     std::count(msg.neuron_indexes_.begin(), msg.neuron_indexes_.end(), uint32_t(i)), " D=", p.dopamine_value_,
                     " forced=", p.is_being_forced_, " isi=", static_cast<int>(p.isi_status_), "/", p.isi_max_, " last=", p.last_step_,
                     " stab=", p.stability_, " free=", p.free_synaptic_resource_);
        }
        knp::backends::cpu::populations::train_population(pop, refs, msg, step);
        ref_train(model, ref, msg.neuron_indexes_, step);
        for (int i = 0; i < n; ++i)
        {
            auto &a = pop[i];
            auto &b = model[i];
            SAME(static_cast<int>(a.isi_status_), static_cast<int>(b.isi_status_), "status of neuron ", i, " at ", step);
            SAME(a.last_step_, b.last_step_, "neuron ", i);
            SAME(a.last_spike_step_, b.last_spike_step_, "neuron ", i);
            SAME(a.first_isi_spike_, b.first_isi_spike_, "neuron ", i);
            NEAR(a.stability_, b.stability_, "stability of neuron ", i, " at ", step);
            NEAR(a.free_synaptic_resource_, b.free_synaptic_resource_, "free resource of neuron ", i, " at ", step);
            NEAR(a.additional_threshold_, b.additional_threshold_, "neuron ", i, " at ", step);
            SAME(a.dopamine_value_, b.dopamine_value_);
            SAME(a.potential_, b.potential_);
        }
        for (size_t q = 0; q < prj.size(); ++q)
            for (size_t s = 0; s < ref[q].size(); ++s)
            {
                auto &a = std::get<core::synapse_data>(prj[q][s]);
                auto &b = ref[q][s].p;
                NEAR(a.rule_.synaptic_resource_, b.rule_.synaptic_resource_, "resource of synapse ", q, ".", s, " at ", step);
                NEAR(a.weight_, b.weight_, "weight of synapse ", q, ".", s, " at ", step);
                SAME(a.rule_.has_contributed_, b.rule_.has_contributed_, "synapse ", q, ".", s, " at ", step);
                SAME(a.rule_.had_hebbian_update_, b.rule_.had_hebbian_update_, "synapse ", q, ".", s, " at ", step);
                SAME(a.rule_.last_spike_step_, b.rule_.last_spike_step_, "synapse ", q, ".", s);
                SAME(a.delay_, b.delay_);
                SAME(std::get<1>(prj[q][s]), ref[q][s].pre);
                SAME(std::get<2>(prj[q][s]), ref[q][s].post);
            }
    }
}

HK_CASE("S02", "resource-stdp-blifat", 1500) { train<nt::SynapticResourceSTDPBLIFATNeuron>(r); }
HK_CASE("S02", "resource-stdp-altai", 1500) { train<nt::SynapticResourceSTDPAltAILIFNeuron>(r); }
HK_MAIN
