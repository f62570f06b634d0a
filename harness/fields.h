// Neuron parameter types: state comparison, printing and generators.
#pragma once
#include <knp/backends/cpu-library/populations.h>

#include "hk.h"

namespace nt = knp::neuron_traits;
using BP = nt::neuron_parameters<nt::BLIFATNeuron>;
using SBP = nt::neuron_parameters<nt::SynapticResourceSTDPBLIFATNeuron>;
using AP = nt::neuron_parameters<nt::AltAILIF>;
using SAP = nt::neuron_parameters<nt::SynapticResourceSTDPAltAILIFNeuron>;
using LP = nt::neuron_parameters<nt::LIFNeuron>;

static std::string show(const BP &n)
{
    std::ostringstream o;
    o << "{since=" << n.n_time_steps_since_last_firing_ << " act=" << n.activation_threshold_ << " add="
      << n.additional_threshold_ << " dyn=" << n.dynamic_threshold_ << "*" << n.threshold_decay_ << "+"
      << n.threshold_increment_ << " trace=" << n.postsynaptic_trace_ << " cond=" << n.inhibitory_conductance_ << "*"
      << n.inhibitory_conductance_decay_ << " pot=" << n.potential_ << "*" << n.potential_decay_ << " pre="
      << n.pre_impact_potential_ << " phase=" << n.bursting_phase_ << "/" << n.bursting_period_ << " reflex="
      << n.reflexive_weight_ << " rev=" << n.reversal_inhibitory_potential_ << " refr=" << n.absolute_refractory_period_
      << " reset=" << n.potential_reset_value_ << " min=" << n.min_potential_ << " block=" << n.total_blocking_period_
      << " dopa=" << n.dopamine_value_ << "}";
    return o.str();
}
static std::string show(const AP &n)
{
    std::ostringstream o;
    o << "{diff=" << n.is_diff_ << " reset=" << n.is_reset_ << " leakrev=" << n.leak_rev_ << " sat=" << n.saturate_
      << " nosave=" << n.do_not_save_ << " pot=" << n.potential_ << " thr=" << n.activation_threshold_ << " neg="
      << n.negative_activation_threshold_ << " leak=" << n.potential_leak_ << " rv=" << n.potential_reset_value_
      << " add=" << n.additional_threshold_ << " act=" << n.activity_time_ << "}";
    return o.str();
}
static std::string show(const LP &n)
{
    std::ostringstream o;
    o << "{pot=" << n.potential_ << " reset=" << n.potential_reset_value_ << " thr=" << n.activation_threshold_
      << " leak=" << n.leak_coefficient_ << " refr=" << n.refract_counter_ << "/" << n.refract_period_ << "}";
    return o.str();
}

#define FIELDS_BLIFAT(X)                                                                                         \
    X(n_time_steps_since_last_firing_) X(activation_threshold_) X(additional_threshold_) X(dynamic_threshold_)   \
    X(threshold_decay_) X(threshold_increment_) X(postsynaptic_trace_) X(postsynaptic_trace_decay_)              \
    X(postsynaptic_trace_increment_) X(inhibitory_conductance_) X(inhibitory_conductance_decay_) X(potential_)   \
    X(pre_impact_potential_) X(potential_decay_) X(bursting_phase_) X(bursting_period_) X(reflexive_weight_)     \
    X(reversal_inhibitory_potential_) X(absolute_refractory_period_) X(potential_reset_value_) X(min_potential_) \
    X(total_blocking_period_) X(dopamine_value_)
#define FIELDS_ALTAI(X)                                                                                   \
    X(is_diff_) X(is_reset_) X(leak_rev_) X(saturate_) X(do_not_save_) X(potential_) X(pre_impact_potential_) \
    X(activation_threshold_) X(negative_activation_threshold_) X(potential_leak_) X(potential_reset_value_)   \
    X(dopamine_value_) X(additional_threshold_) X(activity_time_)
#define FIELDS_LIF(X)                                                                     \
    X(potential_) X(potential_reset_value_) X(activation_threshold_) X(leak_coefficient_) \
    X(refract_counter_) X(refract_period_)
#define FIELDS_STDP(X)                                                                                        \
    X(synapse_sum_threshold_coefficient_) X(dopamine_plasticity_time_) X(free_synaptic_resource_)             \
    X(synaptic_resource_threshold_) X(resource_drain_coefficient_) X(stability_) X(stability_change_parameter_) \
    X(stability_change_at_isi_) X(isi_max_) X(d_h_) X(last_step_) X(last_spike_step_) X(first_isi_spike_)     \
    X(is_being_forced_)
#ifndef CMP
#define CMP(f) SAME(a.f, b.f, where, " neuron ", i);
#endif

static void cmp(const BP &a, const BP &b, const char *where, size_t i) { FIELDS_BLIFAT(CMP) }
static void cmp(const AP &a, const AP &b, const char *where, size_t i) { FIELDS_ALTAI(CMP) }
static void cmp(const LP &a, const LP &b, const char *where, size_t i) { FIELDS_LIF(CMP) }
static void cmp(const SBP &a, const SBP &b, const char *where, size_t i)
{
    cmp(static_cast<const BP &>(a), static_cast<const BP &>(b), where, i);
    FIELDS_STDP(CMP)
}
static void cmp(const SAP &a, const SAP &b, const char *where, size_t i)
{
    cmp(static_cast<const AP &>(a), static_cast<const AP &>(b), where, i);
    FIELDS_STDP(CMP)
}

// ------------------------------------------------------------------ generators
static void gen(hk::Rng &r, BP &n)
{
    n.n_time_steps_since_last_firing_ = r.in(0, 5);
    if (r.coin(5)) n.n_time_steps_since_last_firing_ = r.in(100, 1000000);
    n.activation_threshold_ = r.dy(-1, 3);
    n.additional_threshold_ = r.dy(-1, 1);
    n.dynamic_threshold_ = r.dy(-1, 2);
    n.threshold_decay_ = r.dy(0, 1);
    n.threshold_increment_ = r.dy(-1, 2);
    n.postsynaptic_trace_ = r.dy(-1, 2);
    n.postsynaptic_trace_decay_ = r.dy(0, 1);
    n.postsynaptic_trace_increment_ = r.dy(-1, 2);
    n.inhibitory_conductance_ = r.coin() ? 0 : r.dy(-1, 2);
    n.inhibitory_conductance_decay_ = r.dy(0, 2);
    n.potential_ = r.dy(-3, 5);
    n.pre_impact_potential_ = r.dy(-3, 5);
    n.potential_decay_ = r.dy(0, 1);
    n.bursting_phase_ = r.in(0, 4);
    n.bursting_period_ = r.in(0, 4);
    n.reflexive_weight_ = r.dy(-2, 3);
    n.reversal_inhibitory_potential_ = r.dy(-2, 2);
    n.absolute_refractory_period_ = r.coin(70) ? 0 : r.in(0, 5);
    n.potential_reset_value_ = r.dy(-2, 2);
    n.min_potential_ = r.coin() ? -1e9 : r.dy(-3, 2);
    n.total_blocking_period_ = r.one<int64_t>({INT64_MAX, INT64_MAX, 0, 1, 2, -1, -2, -3, 7});
    n.dopamine_value_ = r.dy(-1, 2);
}
static void gen(hk::Rng &r, AP &n)
{
    n.is_diff_ = r.coin();
    n.is_reset_ = r.coin();
    n.leak_rev_ = r.coin();
    n.saturate_ = r.coin();
    n.do_not_save_ = r.coin(30);
    n.potential_ = r.dy(-6, 6);
    n.pre_impact_potential_ = r.dy(-6, 6);
    n.activation_threshold_ = r.coin(90) ? r.in(0, 5) : 65535;
    n.negative_activation_threshold_ = r.coin(80) ? r.in(0, 5) : 30000;
    n.potential_leak_ = r.in(-3, 3);
    n.potential_reset_value_ = r.in(0, 5);
    n.dopamine_value_ = r.dy(-2, 2);
    n.additional_threshold_ = r.coin() ? 0 : r.dy(-2, 3);
    n.activity_time_ = r.one<int64_t>({INT64_MAX, INT64_MAX, 0, 1, 2, -1, -2, -3, 7});
}
static void gen(hk::Rng &r, LP &n)
{
    n.potential_ = r.dy(-4, 5);
    n.potential_reset_value_ = r.dy(-2, 2);
    n.activation_threshold_ = r.dy(-1, 3);
    n.leak_coefficient_ = r.dy(-1, 2);
    n.refract_counter_ = r.coin() ? 0 : r.in(0, 4);
    n.refract_period_ = r.in(0, 4);
}
template <class B>
static void gen_stdp(hk::Rng &r, nt::neuron_parameters<nt::SynapticResourceSTDPNeuron<B>> &n)
{
    gen(r, static_cast<nt::neuron_parameters<B> &>(n));
    n.free_synaptic_resource_ = static_cast<float>(r.dy(0, 4));
    n.stability_ = static_cast<float>(r.dy(0, 4));
    n.last_step_ = r.in(0, 9);
    n.last_spike_step_ = r.in(0, 9);
    n.first_isi_spike_ = r.in(0, 9);
    n.is_being_forced_ = r.coin();
}
static void gen(hk::Rng &r, SBP &n) { gen_stdp<nt::BLIFATNeuron>(r, n); }
static void gen(hk::Rng &r, SAP &n) { gen_stdp<nt::AltAILIF>(r, n); }

