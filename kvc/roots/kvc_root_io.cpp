// Extraction root: data converters and channels.
#include <cmath>
#include <spdlog/spdlog.h>
#include <knp/framework/io/in_converters/sequence_converter.h>
#include <knp/framework/io/input_channel.h>
#include <knp/framework/io/input_interpreters.h>
#include <knp/framework/io/out_converters/convert_bitwise.h>
#include <knp/framework/io/out_converters/convert_count.h>
#include <knp/framework/io/out_converters/convert_set.h>
#include "knp/base-framework/impl/input_converter.cpp"
#include "knp/base-framework/impl/output_channel.cpp"

namespace knp::framework::io
{
#define KVC_VALUE(T)                           \
    template class input::SequenceConverter<T>; \
    template bool input::interpret_as_bool<T>(T); \
    inline bool kvc_threshold(T threshold, T value) { return input::interpret_with_threshold<T>(threshold)(value); }
KVC_VALUE(float)
KVC_VALUE(int)
#define KVC_GET(T) \
    template T output::output_channel_get<T>(output::OutputChannel &, output::OutputConverter<T>, core::Step, core::Step);
KVC_GET(std::vector<bool>)
KVC_GET(std::vector<size_t>)
KVC_GET(std::set<core::messaging::SpikeIndex>)
}
