// Executable contract F11 (logs of a running model): every log against what an observer of its own saw.
#include <spdlog/spdlog.h>
#include <cmath>
#include <knp/backends/cpu-multi-threaded/backend.h>
#include <knp/backends/cpu-single-threaded/backend.h>
#include <knp/core/message_bus.h>
#include <knp/framework/model_executor.h>
#include <knp/framework/monitoring/model.h>
#include <knp/framework/network.h>

#include <algorithm>
#include <map>
#include <set>
#include <sstream>

#include "hk.h"

namespace st = knp::synapse_traits;
namespace nt = knp::neuron_traits;
namespace core = knp::core;
namespace cm = knp::core::messaging;
namespace fw = knp::framework;
namespace mon = knp::framework::monitoring::model;
using Res = core::Projection<st::SynapticResourceSTDPDeltaSynapse>;
using STB = knp::backends::single_threaded_cpu::SingleThreadedCPUBackend;
using MTB = knp::backends::multi_threaded_cpu::MultiThreadedCPUBackend;

static void add_resource(hk::Rng &r, fw::Network &net, const core::UID &uid, const core::UID &post)
{
    std::vector<std::pair<size_t, size_t>> ends;
    for (size_t a = 0; a < 3; ++a)
        for (size_t b = 0; b < 12; ++b)
            if (r.coin(40)) ends.push_back({a, b});
    for (size_t i = ends.size(); i > 1; --i) std::swap(ends[i - 1], ends[size_t(r.in(0, int64_t(i) - 1))]);
    net.add_projection<Res>(Res(uid, core::UID(false), post, [&](size_t i)
    {
        Res::SynapseParameters p;
        p.rule_.synaptic_resource_ = r.dy(-9, 9);
        p.delay_ = 1;
        return std::optional(Res::Synapse{p, ends[i].first, ends[i].second});
    }, ends.size()));
}

HK_CASE("F11", "logs-of-a-run", 500)
{
    fw::Network net;
    std::vector<core::UID> pops(size_t(r.in(1, 2))), projs(size_t(r.in(1, 3)));
    for (auto &u : pops)
        net.add_population<core::Population<nt::BLIFATNeuron>>(core::Population<nt::BLIFATNeuron>(u, [&](size_t)
        {
            nt::neuron_parameters<nt::BLIFATNeuron> n;
            n.activation_threshold_ = r.dy(-1, 5);
            return std::optional(n);
        }, 12));
    for (auto &u : projs) add_resource(r, net, u, r.pick(pops));
    const auto watched = r.coin(90) ? r.pick(projs) : core::UID();
    fw::Model model(std::move(net));
    const size_t steps = size_t(r.in(1, 20)), period = size_t(r.in(1, 6)), wperiod = size_t(r.in(1, 6));
    std::vector<core::UID> ch(size_t(r.in(1, 4)));
    fw::ModelLoader::InputChannelMap gens;
    for (auto &c : ch)
    {
        model.add_input_channel(c, r.pick(projs));
        std::vector<cm::SpikeData> feed(steps + 1);
        for (auto &f : feed) for (int64_t k = r.in(0, 4); k > 0; --k) f.push_back(cm::SpikeIndex(r.in(0, 2)));
        gens[c] = [feed](core::Step s) { return feed.at(s); };
    }
    std::shared_ptr<core::Backend> b = r.coin(85) ? std::shared_ptr<core::Backend>(std::make_shared<STB>()) : std::make_shared<MTB>(2);
    fw::ModelExecutor ex(model, b, gens);
    std::map<core::UID, std::string> names;
    std::vector<core::UID> uids;
    size_t num = size_t(r.in(0, 99));
    auto name = [&](auto &u)
    {
        if (!r.coin(75)) return;
        names[u] = (r.coin() ? "N" : "a") + std::to_string(num += 7);
    };
    for (auto &u : ch) name(u);
    for (auto &u : pops) name(u);
    for (auto &[u, n] : names) uids.push_back(u);
    // what is there to see, and the logs made of it
    std::ostringstream spikes, sums, weights, want_spikes, want_sums, want_weights;
    std::map<std::string, size_t> acc{{"left from before", 3}};
    std::map<std::string, size_t> since;
    std::set<std::string> columns;
    for (auto &[u, n] : names) columns.insert(n);
    want_sums << "Index";
    for (auto &n : columns) want_sums << ", " << n, since[n] = 0;
    want_sums << "\n";
    bool watch_first = r.coin();
    auto observe = [&](const std::vector<cm::SpikeMessage> &ms)
    {
        size_t step = b->get_step();
        if (step % period == 0)
        {
            want_sums << step;
            for (auto &[n, k] : since) want_sums << ", " << k, k = 0;
            want_sums << "\n";
        }
        for (auto &m : ms)
        {
            want_spikes << "Step: " << m.header_.send_time_ << "\nSender: " << names.at(m.header_.sender_uid_) << "\n";
            for (auto i : m.neuron_indexes_) want_spikes << i << " ";
            want_spikes << "\n";
            since[names.at(m.header_.sender_uid_)] += m.neuron_indexes_.size();
        }
        if (step % wperiod) return;
        want_weights << "Step: " << step << "\n";
        const auto data = b->get_network_data();
        for (auto &i = *data.projection_range.first; i != *data.projection_range.second; ++i)
        {
            const core::AllProjectionsVariant one = *i;
            const auto &p = std::get<Res>(one);
            if (!(p.get_uid() == watched)) continue;
            std::map<std::pair<size_t, size_t>, std::string> of;
            std::map<size_t, std::string> lines;
            for (auto &[q, x, y] : p)
            {
                std::ostringstream o;
                o << q.rule_.synaptic_resource_ << "|" << q.rule_.last_spike_step_ << " ";
                of[{y, x}] = o.str();
            }
            for (auto &[k, t] : of) lines[k.first] += t;
            for (auto &[k, t] : lines) want_weights << "\nNeuron " << k << "\n" << t;
            want_weights << "\n";
        }
    };
    if (watch_first) ex.add_observer<cm::SpikeMessage>(observe, uids);
    mon::add_spikes_logger(ex, names, spikes);
    mon::add_aggregated_spikes_logger(model, names, ex, acc, sums, period);
    mon::add_projection_weights_logger(weights, ex, watched, wperiod);
    if (!watch_first) ex.add_observer<cm::SpikeMessage>(observe, uids);
    ex.start([&](core::Step s) { return s < steps; });
    hk::note(names.size(), " names, ", steps, " steps, period ", period, ", weights every ", wperiod);
    SAME(spikes.str(), want_spikes.str(), "log of spikes");
    SAME(sums.str(), want_sums.str(), "aggregated log");
    SAME(weights.str(), want_weights.str(), "log of weights");
}

HK_MAIN
