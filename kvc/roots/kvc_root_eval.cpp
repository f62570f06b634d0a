// Extraction root: datasets, evaluation of inference and normalization.
#include <cmath>
#include <spdlog/spdlog.h>
#include <knp/framework/network.h>
#include <knp/framework/normalization/neuron_accessors.h>
#include <knp/framework/normalization/neuron_normalizer.h>
#include <knp/framework/normalization/normalizers.h>
#include <knp/framework/normalization/synapse_accessors.h>
#include <knp/framework/normalization/synapse_normalizer.h>
#include "knp/base-framework/impl/data_processing/classification/dataset.cpp"
#include "knp/base-framework/impl/data_processing/classification/image.cpp"
#include "knp/base-framework/impl/inference_evaluation/classification/processor.cpp"
#include "knp/base-framework/impl/inference_evaluation/perfomance_metrics.cpp"

namespace knp::framework
{
inline auto kvc_training(const data_processing::classification::Dataset &d) { return d.get_data_for_training(); }
inline auto kvc_inference(const data_processing::classification::Dataset &d) { return d.get_data_for_inference(); }

using KvcCorrector = normalization::ValueCorrector<float>;
inline void kvc_normalize_synapses(Network &network, KvcCorrector corrector)
{
    normalization::normalize_synapses<normalization::WeightAccessor, normalization::WeightAccessor>(network, corrector);
}
inline Network kvc_normalized_synapses(const Network &network, const KvcCorrector &corrector)
{
    return normalization::normalize_synapses<normalization::WeightAccessor, normalization::WeightAccessor>(network, corrector);
}
inline void kvc_normalize_neurons(Network &network, normalization::ValueCorrector<double> corrector)
{
    normalization::normalize_neurons<normalization::PotentialAccessor, normalization::PotentialAccessor>(network, corrector);
}
inline Network kvc_normalized_neurons(const Network &network, const normalization::ValueCorrector<double> &corrector)
{
    return normalization::normalize_neurons<normalization::PotentialAccessor, normalization::PotentialAccessor>(network, corrector);
}
inline float kvc_rescale(normalization::Rescaler<float> &rescaler, float value) { return rescaler(value); }
inline double kvc_rescale(normalization::Rescaler<double> &rescaler, double value) { return rescaler(value); }
inline normalization::Rescaler<float> kvc_rescaler(float a, float b, float c, float d) { return {a, b, c, d}; }
inline normalization::Rescaler<double> kvc_rescaler(double a, double b, double c, double d) { return {a, b, c, d}; }
}
