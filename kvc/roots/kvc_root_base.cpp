// Extraction root: the framework (network, model, loader, executor, channels, handlers).
#include <cmath>
#include <spdlog/spdlog.h>
#include <knp/framework/projection/connectors.h>
#include "knp/core-library/impl/projection.cpp"
#include "knp/core-library/impl/population.cpp"
#include "knp/base-framework/impl/network.cpp"
#include "knp/base-framework/impl/model.cpp"
#include "knp/base-framework/impl/model_loader.cpp"
#include "knp/base-framework/impl/model_executor.cpp"
#include "knp/base-framework/impl/input_converter.cpp"
#include "knp/base-framework/impl/output_channel.cpp"
#include "knp/base-framework/impl/message_handlers.cpp"
#include "knp/base-framework/impl/projection/wta.cpp"

namespace knp::framework
{
#define KVC_OBSERVE(M) \
    template void ModelExecutor::add_observer<core::messaging::M>(monitoring::MessageProcessor<core::messaging::M> &&, const std::vector<core::UID> &);
KVC_OBSERVE(SpikeMessage)
KVC_OBSERVE(SynapticImpactMessage)
namespace nt = knp::neuron_traits;
namespace syn = knp::synapse_traits;
#define KVC_CONNECT(S, A, B)                                                                                 \
    template core::UID Network::connect_populations<syn::S, nt::A, nt::B>(                                   \
        const core::Population<nt::A> &, const core::Population<nt::B> &,                                    \
        typename projection::parameters_generators::SynGen2ParamsType<syn::S>);                              \
    template core::UID Network::connect_populations<syn::S, nt::A, nt::B>(                                   \
        const core::Population<nt::A> &, const core::Population<nt::B> &,                                    \
        typename core::Projection<syn::S>::SynapseGenerator, size_t);
#define KVC_CONNECT_ALL(A, B)                    \
    KVC_CONNECT(DeltaSynapse, A, B)              \
    KVC_CONNECT(AdditiveSTDPDeltaSynapse, A, B)  \
    KVC_CONNECT(SynapticResourceSTDPDeltaSynapse, A, B)
KVC_CONNECT_ALL(BLIFATNeuron, BLIFATNeuron)
KVC_CONNECT_ALL(AltAILIF, SynapticResourceSTDPBLIFATNeuron)
KVC_CONNECT_ALL(LIFNeuron, SynapticResourceSTDPAltAILIFNeuron)
}
