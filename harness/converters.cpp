// Executable contract F06 (data converters and channels) against naive references.
#include <spdlog/spdlog.h>
#include <knp/core/message_bus.h>
#include <knp/framework/io/in_converters/index_converter.h>
#include <knp/framework/io/in_converters/sequence_converter.h>
#include <knp/framework/io/input_channel.h>
#include <knp/framework/io/input_interpreters.h>
#include <knp/framework/io/out_converters/convert_bitwise.h>
#include <knp/framework/io/out_converters/convert_count.h>
#include <knp/framework/io/out_converters/convert_set.h>
#include <knp/framework/io/output_channel.h>

#include <algorithm>
#include <map>
#include <set>

#include "hk.h"

namespace core = knp::core;
namespace cm = knp::core::messaging;
namespace in = knp::framework::io::input;
namespace out = knp::framework::io::output;

template <class T>
static std::string text(const T &d)
{
    std::string s = "[";
    for (auto x : d) s += std::to_string(x) + " ";
    return s + "]";
}
static std::vector<cm::SpikeMessage> messages(hk::Rng &r)
{
    std::vector<cm::SpikeMessage> ms;
    for (size_t n = size_t(r.one({0, 1, 1, 2, 3})); n > 0; --n)
    {
        ms.push_back({{core::UID(), core::Step(r.in(0, 9))}, {}});
        for (size_t k = size_t(r.one({0, 1, 3, 10})); k > 0; --k)
            ms.back().neuron_indexes_.push_back(cm::SpikeIndex(r.coin(5) ? 0xffffffffu - cm::SpikeIndex(r.in(0, 2)) : r.in(0, 12)));
        hk::note("message ", text(ms.back().neuron_indexes_));
    }
    return ms;
}
static std::string gap(hk::Rng &r) { return r.one({" ", " ", "\n", "\t ", "  "}); }

template <class T>
static void sequence(hk::Rng &r, const std::function<bool(T)> &accept, const std::function<T()> &some)
{
    std::string data;
    std::vector<T> values;
    for (size_t n = size_t(r.in(0, 25)); n > 0; --n)
    {
        values.push_back(some());
        data += std::to_string(values.back()) + (n > 1 || r.coin() ? gap(r) : std::string());
    }
    size_t size = size_t(r.in(0, 12)), at = 0;
    hk::note("values ", data, "size ", size);
    in::SequenceConverter<T> c(std::make_unique<std::stringstream>(data), accept, size);
    for (int calls = 0; calls < 4; ++calls)
    {
        cm::SpikeData want;
        for (size_t i = 0; i < size; ++i, ++at)
            if (at < values.size() && accept(values[at])) want.push_back(cm::SpikeIndex(i));
        auto got = c(core::Step(r.in(0, 9)));
        REQUIRE(got == want, "call ", calls, ": got ", text(got), " required ", text(want));
        if (r.coin(30)) c.set_size(size = size_t(r.in(0, 12)));
    }
}

HK_CASE("F06", "the-positions-of-accepted-values-become-spikes-integers", 3000)
{
    const int lo = r.coin() ? 0 : -3;
    std::function<int()> some = [&] { return int(r.in(lo, r.coin() ? 1 : 3)); };
    if (r.coin())
        sequence<int>(r, in::interpret_as_bool<int>, some);
    else
        sequence<int>(r, in::interpret_with_threshold<int>(int(r.in(-1, 2))), some);
}

HK_CASE("F06", "the-positions-of-accepted-values-become-spikes-real-numbers", 3000)
{
    std::function<float()> some = [&] { return float(r.dy(-2, 2)); };
    if (r.coin())
        sequence<float>(r, in::interpret_as_bool<float>, some);
    else
        sequence<float>(r, in::interpret_with_threshold<float>(float(r.dy(-2, 2))), some);
}

HK_CASE("F06", "interpreters", 2000)
{
    const float t = float(r.dy(-2, 2)), x = r.one({float(r.dy(-2, 2)), t, std::nextafter(t, -9.f), std::nextafter(t, 9.f), 0.f, -0.f});
    hk::note("value ", x, "threshold ", t);
    SAME(in::interpret_with_threshold<float>(t)(x), x >= t);
    SAME(in::interpret_as_bool<float>(x), x != 0);
    const int ti = int(r.in(-3, 3)), xi = int(r.in(-3, 3));
    SAME(in::interpret_with_threshold<int>(ti)(xi), xi >= ti);
    SAME(in::interpret_as_bool<int>(xi), xi != 0);
}

HK_CASE("F06", "lines-of-indexes", 3000)
{
    const char delim = r.one({',', ';', '|'});
    std::vector<cm::SpikeData> lines;
    std::string data;
    for (size_t n = size_t(r.in(1, 5)); n > 0; --n)
    {
        lines.emplace_back();
        for (size_t k = size_t(r.one({0, 1, 2, 3, 8})); k > 0; --k)
        {
            lines.back().push_back(cm::SpikeIndex(r.one({r.in(0, 9), r.in(0, 99999), int64_t(0xffffffff), int64_t(0)})));
            data += std::string(size_t(r.one({0, 0, 1, 3})), ' ') + std::to_string(lines.back().back()) + std::string(size_t(r.one({0, 0, 1})), ' ');
            if (k > 1) data += delim;
        }
        if (n > 1 || r.coin()) data += '\n';
    }
    hk::note("text ", data);
    in::IndexConverter c(std::make_unique<std::stringstream>(data), delim);
    for (auto &l : lines)
    {
        auto got = c(0);
        REQUIRE(got == l, "got ", text(got), " required ", text(l));
    }
    REQUIRE(c(0).empty(), "spikes after the last line");
}

HK_CASE("F06", "messages-become-bits-counts-and-sets", 4000)
{
    auto ms = messages(r);
    const size_t size = size_t(r.in(0, 14));
    hk::note("size ", size);
    if (!ms.empty() && r.in(0, 99) == 0)
    {
        // more spikes of one neuron than fit into 16 bits
        const size_t many = size_t(r.in(65530, 140000)), which = size_t(r.in(0, 13));
        auto &to = ms[size_t(r.in(0, int(ms.size()) - 1))].neuron_indexes_;
        to.insert(to.end(), many, cm::SpikeIndex(which));
        hk::note("and ", many, " spikes of ", which);
    }
    std::map<cm::SpikeIndex, size_t> count;
    for (auto &m : ms)
        for (auto x : m.neuron_indexes_) ++count[x];
    const auto bits = out::converter_bitwise(ms, size);
    const auto sums = out::converter_count(ms, size);
    SAME(bits.size(), size);
    SAME(sums.size(), size);
    for (size_t i = 0; i < size; ++i)
    {
        SAME(bool(bits[i]), count[cm::SpikeIndex(i)] > 0, "bit ", i);
        SAME(sums[i], count[cm::SpikeIndex(i)], "count ", i);
    }
    const size_t limit = r.one({size, size_t(0xfffffffe), size_t(0xffffffff), size_t(1) << 32, (size_t(1) << 32) + size});
    hk::note("limit ", limit);
    const auto got = out::ConvertToSet(limit)(ms);
    std::set<cm::SpikeIndex> want;
    for (auto &[x, n] : count)
        if (n && x < limit) want.insert(x);
    REQUIRE(got == want, "got ", text(got), " required ", text(want));
}

HK_CASE("F06", "from-an-input-channel-to-an-output-channel", 1500)
{
    auto bus = core::MessageBus::construct_bus();
    const core::UID ic, oc, other;
    auto target = bus->create_endpoint();
    std::map<core::Step, cm::SpikeData> data;
    core::Step last = core::Step(r.in(1, 8));
    for (core::Step s = 0; s < last; ++s)
        for (size_t n = size_t(r.in(0, 3)); n > 0; --n) data[s].push_back(cm::SpikeIndex(r.in(0, 9)));
    in::InputChannel channel(ic, bus->create_endpoint(), [&](core::Step s) { return data[s]; });
    in::InputChannel second(other, bus->create_endpoint(), [&](core::Step s) { return cm::SpikeData{cm::SpikeIndex(s)}; });
    in::connect_input(channel, target, oc);
    out::OutputChannel o(oc, std::move(target));
    std::vector<core::Step> sent;
    std::map<core::Step, cm::SpikeData> held;
    for (core::Step s = 0; s < last; ++s)
    {
        if (r.coin(80))
        {
            SAME(channel.send(s), !data[s].empty(), "step ", s);
            if (!data[s].empty()) held[s] = data[s];
        }
        if (r.coin(30)) second.send(s);
        bus->route_messages();
        if (r.coin(30)) o.update();
        if (r.coin(40))
        {
            core::Step a = core::Step(r.in(0, int64_t(s) + 1)), b = core::Step(r.in(int64_t(a), int64_t(s) + 2));
            hk::note("at ", s, "get ", a, "..", b);
            cm::SpikeData all;
            std::vector<size_t> want(10);
            for (core::Step k = a; k <= b; ++k)
            {
                for (auto x : held[k]) ++want[x];
                held.erase(k);
            }
            auto got = out::output_channel_get<std::vector<size_t>>(
                o, [](const std::vector<cm::SpikeMessage> &ms) { return out::converter_count(ms, 10); }, a, b);
            REQUIRE(got == want, "got ", text(got), " required ", text(want));
        }
    }
}
HK_MAIN
