// Extraction root: templates that make projections and populations.
#include <cmath>
#include <map>
#include <vector>
#include <knp/framework/projection/connectors.h>
#include <knp/framework/projection/creators.h>
#include <knp/framework/population/creators.h>
#include "knp/core-library/impl/projection.cpp"
#include "knp/core-library/impl/population.cpp"
namespace knp::framework::projection::creators
{
namespace syn = knp::synapse_traits;
namespace pg = knp::framework::projection::parameters_generators;
template <typename S>
using Params = typename core::Projection<S>::SynapseParameters;
#define KVC_CREATE(S)                                                                                                  \
    template core::Projection<syn::S> all_to_all<syn::S>(                                                              \
        const core::UID &, const core::UID &, size_t, size_t, pg::SynGen2ParamsType<syn::S>);                          \
    template core::Projection<syn::S> aligned<syn::S>(                                                                 \
        const core::UID &, const core::UID &, size_t, size_t, pg::SynGen2ParamsType<syn::S>);                          \
    template core::Projection<syn::S> exclusive<syn::S>(                                                               \
        const core::UID &, const core::UID &, size_t, pg::SynGen2ParamsType<syn::S>);                                  \
    template core::Projection<syn::S> one_to_one<syn::S>(                                                              \
        const core::UID &, const core::UID &, size_t, pg::SynGen1ParamType<syn::S>);                                   \
    template core::Projection<syn::S> from_container<syn::S, std::vector>(                                             \
        const core::UID &, const core::UID &, const std::vector<typename core::Projection<syn::S>::Synapse> &);        \
    template core::Projection<syn::S> from_map<syn::S, std::map>(                                                      \
        const core::UID &, const core::UID &, const std::map<std::tuple<size_t, size_t>, Params<syn::S>> &);           \
    template core::Projection<syn::S> fixed_probability<syn::S>(                                                       \
        const core::UID &, const core::UID &, size_t, size_t, double, pg::SynGen2ParamsType<syn::S>);                  \
    template core::Projection<syn::S> index_based<syn::S>(                                                             \
        const core::UID &, const core::UID &, size_t, size_t, pg::SynGenOptional2ParamsType<syn::S>);                  \
    template core::Projection<syn::S> fixed_number_post<syn::S>(                                                       \
        const core::UID &, const core::UID &, size_t, size_t, size_t, pg::SynGen2ParamsType<syn::S>);                  \
    template core::Projection<syn::S> fixed_number_pre<syn::S>(                                                        \
        const core::UID &, const core::UID &, size_t, size_t, size_t, pg::SynGen2ParamsType<syn::S>);                  \
    KVC_CLONE(S, DeltaSynapse)                                                                                         \
    KVC_CLONE(S, AdditiveSTDPDeltaSynapse)                                                                             \
    KVC_CLONE(S, SynapticResourceSTDPDeltaSynapse)
#define KVC_CLONE(S, T)                                                                                      \
    template core::Projection<syn::S> clone_projection<syn::S, syn::T>(                                      \
        const core::Projection<syn::T> &, pg::SynGen1ParamType<syn::S>, const std::optional<core::UID> &,    \
        const std::optional<core::UID> &);
KVC_CREATE(DeltaSynapse)
KVC_CREATE(AdditiveSTDPDeltaSynapse)
KVC_CREATE(SynapticResourceSTDPDeltaSynapse)
}
namespace knp::framework::population::creators
{
namespace nt = knp::neuron_traits;
#define KVC_POPULATION(N)                                                                                     \
    template core::Population<nt::N> from_container<nt::N, std::vector>(                                      \
        const std::vector<typename core::Population<nt::N>::NeuronParameters> &);                             \
    template core::Population<nt::N> make_default<nt::N>(size_t);                                             \
    template core::Population<nt::N> make_clone<nt::N>(                                                       \
        size_t, const typename core::Population<nt::N>::NeuronParameters &);
KVC_POPULATION(BLIFATNeuron)
KVC_POPULATION(SynapticResourceSTDPBLIFATNeuron)
KVC_POPULATION(AltAILIF)
KVC_POPULATION(SynapticResourceSTDPAltAILIFNeuron)
KVC_POPULATION(LIFNeuron)
}
namespace knp::framework::projection::parameters_generators
{
namespace syn = knp::synapse_traits;
#define KVC_DEFAULTS(S)                                                                                           \
    template class CopySynapseGen<syn::S>;                                                                          \
    template typename core::Projection<syn::S>::SynapseParameters default_synapse_gen_1param<syn::S>(size_t);       \
    template typename core::Projection<syn::S>::SynapseParameters default_synapse_gen_2param<syn::S>(size_t, size_t);
KVC_DEFAULTS(DeltaSynapse)
KVC_DEFAULTS(AdditiveSTDPDeltaSynapse)
KVC_DEFAULTS(SynapticResourceSTDPDeltaSynapse)
}
