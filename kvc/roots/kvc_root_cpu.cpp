// Extraction root: instantiates the CPU library's templates that the backends use.
#include <cmath>
#include <knp/backends/cpu-library/populations.h>
#include <knp/backends/cpu-library/populations_old.h>
#include <knp/backends/cpu-library/projections.h>
#include "knp/core-library/impl/projection.cpp"
#include "knp/core-library/impl/population.cpp"
#include "knp/core-library/impl/messaging/synaptic_impact_message.cpp"
#include "knp/core-library/impl/messaging/spike_message.cpp"
#include "knp/core-library/impl/message_endpoint.cpp"
#include "knp/core-library/impl/subscription.cpp"
#include "knp/core-library/impl/message_bus.cpp"
#include "knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp"

namespace knp::backends::cpu::populations
{
namespace nt = knp::neuron_traits;
namespace syn = knp::synapse_traits;
#define KVC_POP(N)                                                                                       \
    template void calculate_pre_impact_population_state<nt::N>(core::Population<nt::N> &, size_t, size_t); \
    template void impact_population<nt::N>(                                                              \
        core::Population<nt::N> &, const std::vector<core::messaging::SynapticImpactMessage> &);         \
    template void calculate_post_impact_population_state<nt::N>(                                         \
        core::Population<nt::N> &, core::messaging::SpikeMessage &, size_t, size_t);
KVC_POP(BLIFATNeuron)
KVC_POP(SynapticResourceSTDPBLIFATNeuron)
KVC_POP(AltAILIF)
KVC_POP(SynapticResourceSTDPAltAILIFNeuron)
KVC_POP(LIFNeuron)
#define KVC_TRAIN(N)                                                                                              \
    template void train_population<nt::N, syn::SynapticResourceSTDPDeltaSynapse>(                                 \
        core::Population<nt::N> &,                                                                                \
        std::vector<std::reference_wrapper<core::Projection<syn::SynapticResourceSTDPDeltaSynapse>>> &,           \
        const core::messaging::SpikeMessage &, core::Step);
KVC_TRAIN(SynapticResourceSTDPBLIFATNeuron)
KVC_TRAIN(SynapticResourceSTDPAltAILIFNeuron)
}
namespace knp::backends::cpu::projections
{
namespace syn = knp::synapse_traits;
#define KVC_PROJ(S)                                                                                   \
    template void calculate_projection<syn::S>(                                                       \
        core::Projection<syn::S> &, core::MessageEndpoint &, MessageQueue &, size_t);
KVC_PROJ(DeltaSynapse)
KVC_PROJ(SynapticResourceSTDPDeltaSynapse)
KVC_PROJ(AdditiveSTDPDeltaSynapse)
#define KVC_PROJ_MT(S)                                                                                \
    template void calculate_projection_multithreaded<syn::S>(                                         \
        core::Projection<syn::S> &, const std::unordered_map<core::Step, size_t> &, MessageQueue &,   \
        uint64_t, size_t, size_t, std::mutex &);
KVC_PROJ_MT(DeltaSynapse)
KVC_PROJ_MT(SynapticResourceSTDPDeltaSynapse)
}
