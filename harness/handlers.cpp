// Executable contract F05 (handlers choosing spikes) against naive references.
#include <spdlog/spdlog.h>
#include <cmath>
#include <knp/backends/cpu-single-threaded/backend.h>
#include <knp/core/message_bus.h>
#include <knp/framework/message_handlers.h>
#include <knp/framework/model_executor.h>
#include <knp/framework/network.h>
#include <knp/framework/projection/wta.h>

#include <algorithm>
#include <map>
#include <set>

#include "hk.h"

namespace st = knp::synapse_traits;
namespace nt = knp::neuron_traits;
namespace core = knp::core;
namespace cm = knp::core::messaging;
namespace fw = knp::framework;
namespace mo = knp::framework::modifier;
using Delta = core::Projection<st::DeltaSynapse>;

static std::string text(const cm::SpikeData &d)
{
    std::string s = "[";
    for (auto x : d) s += std::to_string(x) + " ";
    return s + "]";
}
template <class T>
static std::string text(const std::vector<T> &d)
{
    std::string s = "<";
    for (auto x : d) s += std::to_string(x) + " ";
    return s + ">";
}

static cm::SpikeMessage message(hk::Rng &r, size_t most, int64_t top, bool repeats)
{
    cm::SpikeMessage m{{core::UID(), core::Step(r.in(0, 9))}, {}};
    for (size_t n = size_t(r.in(0, int64_t(most))); n > 0; --n)
    {
        auto x = cm::SpikeIndex(r.in(0, top));
        if (repeats || !std::count(m.neuron_indexes_.begin(), m.neuron_indexes_.end(), x)) m.neuron_indexes_.push_back(x);
    }
    return m;
}

static std::vector<cm::SpikeMessage> messages(hk::Rng &r, bool repeats)
{
    std::vector<cm::SpikeMessage> ms;
    for (size_t n = size_t(r.one({0, 1, 1, 1, 2, 3})); n > 0; --n) ms.push_back(message(r, r.one({3, 8, 20}), r.one({4, 30}), repeats));
    return ms;
}

static std::map<cm::SpikeIndex, int> counts(const cm::SpikeData &d)
{
    std::map<cm::SpikeIndex, int> c;
    for (auto x : d) ++c[x];
    return c;
}
static bool within(const cm::SpikeData &a, const cm::SpikeData &b)
{
    auto x = counts(a), y = counts(b);
    for (auto &[k, n] : x)
        if (y[k] < n) return false;
    return true;
}
static size_t group(const std::vector<size_t> &borders, size_t x)
{
    return size_t(std::count_if(borders.begin(), borders.end(), [&](size_t b) { return b <= x; }));
}
static std::vector<size_t> borders(hk::Rng &r)
{
    std::vector<size_t> b;
    for (size_t n = size_t(r.in(0, 5)); n > 0; --n) b.push_back(size_t(r.in(0, 30)));
    return b;
}
static std::vector<cm::SpikeData> grouped(const std::vector<size_t> &b, const cm::SpikeData &d)
{
    std::vector<cm::SpikeData> g(b.size() + 1);
    for (auto x : d) g[group(b, x)].push_back(x);
    return g;
}
// at most n of every group, as many as there are
static void per_group(const std::vector<size_t> &b, size_t n, const cm::SpikeData &in, const cm::SpikeData &out)
{
    auto gi = grouped(b, in), go = grouped(b, out);
    for (size_t k = 0; k <= b.size(); ++k)
    {
        REQUIRE(go[k].size() == std::min(n, gi[k].size()), go[k].size(), " spikes of group ", k, ", required ", std::min(n, gi[k].size()),
                " in ", text(in), " out ", text(out), " borders ", text(b));
        REQUIRE(within(go[k], gi[k]), "other spikes than received: in ", text(in), " out ", text(out), " borders ", text(b), " winners ", n);
    }
}

HK_CASE("F05", "random-winners", 4000)
{
    const size_t n = size_t(r.in(0, 6));
    mo::KWtaRandomHandler h(n, int(r.in(0, 1000)));
    for (int round = 0; round < 3; ++round)
    {
        auto ms = messages(r, r.coin(30));
        const auto before = ms;
        auto out = h(ms);
        const cm::SpikeData in = before.empty() ? cm::SpikeData{} : before[0].neuron_indexes_;
        REQUIRE(out.size() == std::min(n, in.size()) && within(out, in), "winners ", n, " in ", text(in), " out ", text(out));
    }
}

HK_CASE("F05", "every-spike-can-win", 60)
{
    const size_t size = size_t(r.in(2, 6)), n = size_t(r.in(1, int64_t(size) - 1));
    cm::SpikeData in;
    for (size_t i = 0; i < size; ++i) in.push_back(cm::SpikeIndex(i * 3));
    std::map<cm::SpikeIndex, int> wins;
    mo::KWtaRandomHandler a(n, int(r.in(0, 1000)));
    mo::KWtaPerGroup b({100}, n, int(r.in(0, 1000)));
    const bool first = r.coin();
    for (int i = 0; i < 400; ++i)
    {
        std::vector<cm::SpikeMessage> ms{{{core::UID(), 0}, in}};
        for (auto x : first ? a(ms) : b(ms)) ++wins[x];
    }
    for (auto x : in) REQUIRE(wins[x] > 0, "spike ", x, " of ", size, " never wins a place of ", n);
}

HK_CASE("F05", "winners-per-group", 4000)
{
    const auto b = borders(r);
    const size_t n = size_t(r.in(0, 4));
    mo::KWtaPerGroup h(b, n, int(r.in(0, 1000)));
    for (int round = 0; round < 3; ++round)
    {
        auto ms = messages(r, r.coin(30));
        const auto before = ms;
        auto out = h(ms);
        per_group(b, n, before.empty() ? cm::SpikeData{} : before[0].neuron_indexes_, out);
        for (size_t i = 0; i < ms.size(); ++i)
            REQUIRE(ms[i].neuron_indexes_ == before[i].neuron_indexes_, "changes the messages");
    }
}

HK_CASE("F05", "winning-groups", 6000)
{
    auto b = borders(r);
    const size_t n = size_t(r.in(0, int64_t(b.size()) + 2));
    mo::GroupWtaRandomHandler h(b, n, int(r.in(0, 1000)));
    for (int round = 0; round < 3; ++round)
    {
        auto ms = messages(r, r.coin(30));
        const auto before = ms;
        auto out = h(ms);
        const cm::SpikeData in = before.empty() ? cm::SpikeData{} : before[0].neuron_indexes_;
        auto gi = grouped(b, in), go = grouped(b, out);
        size_t winners = 0, least = SIZE_MAX, most = 0;
        for (size_t k = 0; k <= b.size(); ++k)
        {
            if (gi[k].empty() && go[k].empty()) continue;
            if (go[k].empty())
            {
                most = std::max(most, gi[k].size());
                continue;
            }
            ++winners;
            least = std::min(least, gi[k].size());
            REQUIRE(counts(go[k]) == counts(gi[k]), "group ", k, " in part: in ", text(in), " out ", text(out), " borders ", text(b));
        }
        size_t filled = size_t(std::count_if(gi.begin(), gi.end(), [](auto &x) { return !x.empty(); }));
        REQUIRE(winners == std::min(n, filled), winners, " groups win, required ", std::min(n, filled), ": in ", text(in), " out ", text(out),
                " borders ", text(b));
        REQUIRE(most <= least, "a group of ", most, " loses against one of ", least, ": in ", text(in), " out ", text(out), " borders ", text(b));
    }
}

HK_CASE("F05", "every-tied-group-can-win", 60)
{
    const size_t groups = size_t(r.in(2, 5)), n = size_t(r.in(1, int64_t(groups) - 1));
    std::vector<size_t> b;
    cm::SpikeData in;
    for (size_t i = 0; i < groups; ++i)
    {
        if (i) b.push_back(i * 10);
        for (size_t k = 0; k < 2; ++k) in.push_back(cm::SpikeIndex(i * 10 + k));
    }
    std::map<size_t, int> wins;
    mo::GroupWtaRandomHandler h(b, n, int(r.in(0, 1000)));
    for (int i = 0; i < 400; ++i)
        for (auto x : h({{{core::UID(), 0}, in}})) ++wins[group(b, x)];
    for (size_t i = 0; i < groups; ++i) REQUIRE(wins[i] > 0, "group ", i, " of ", groups, " never wins a place of ", n);
}

HK_CASE("F05", "union", 4000)
{
    auto ms = messages(r, true);
    mo::SpikeUnionHandler h;
    auto out = h(ms);
    std::set<cm::SpikeIndex> want;
    for (auto &m : ms) want.insert(m.neuron_indexes_.begin(), m.neuron_indexes_.end());
    std::sort(out.begin(), out.end());
    REQUIRE(out == cm::SpikeData(want.begin(), want.end()), "union ", text(out));
}

HK_CASE("F05", "installed-handlers", 150)
{
    // one input channel feeds the handlers, the projections behind them show what they get
    const auto b = borders(r);
    const size_t n = size_t(r.in(1, 3));
    const core::UID channel, nobody;
    fw::Network net;
    const core::UID pop_uid;
    net.add_population(core::Population<nt::BLIFATNeuron>(
        pop_uid, [](size_t) { return std::optional(nt::neuron_parameters<nt::BLIFATNeuron>{}); }, 2));
    auto projection = [&]()
    {
        core::UID u;
        net.add_projection(Delta(
            u, core::UID(false), pop_uid,
            [](size_t k)
            {
                st::synapse_parameters<st::DeltaSynapse> s;
                s.weight_ = 1;
                s.delay_ = 1;
                return std::optional(Delta::Synapse{s, k, 0});
            },
            31));
        return u;
    };
    const core::UID entry = projection();
    std::vector<core::UID> projs;
    for (size_t i = size_t(r.in(1, 4)); i > 0; --i) projs.push_back(projection());
    std::vector<std::pair<std::vector<core::UID>, std::vector<core::UID>>> pairs;
    for (size_t i = size_t(r.in(1, 3)); i > 0; --i)
    {
        pairs.emplace_back();
        if (r.coin(80)) pairs.back().first.push_back(channel);
        if (r.coin(30)) pairs.back().first.push_back(nobody);
        for (auto &p : projs)
            if (r.coin()) pairs.back().second.push_back(p);
    }
    std::vector<cm::SpikeData> in;
    for (size_t i = 0; i < 3; ++i) in.push_back(message(r, 12, 30, false).neuron_indexes_);
    fw::Model model(std::move(net));
    model.add_input_channel(channel, entry);
    fw::ModelExecutor ex(
        model, std::make_shared<knp::backends::single_threaded_cpu::SingleThreadedCPUBackend>(),
        {{channel, [&](core::Step s) { return s < in.size() ? in[s] : cm::SpikeData{}; }}});
    const auto uids = fw::projection::add_wta_handlers(ex, n, b, pairs);
    REQUIRE(uids.size() == pairs.size() && std::set<core::UID>(uids.begin(), uids.end()).size() == pairs.size(), "identities of the handlers");
    std::map<core::UID, std::vector<cm::SpikeMessage>> said;
    ex.add_observer<cm::SpikeMessage>(
        [&](const std::vector<cm::SpikeMessage> &ms)
        {
            for (auto &m : ms) said[m.header_.sender_uid_].push_back(m);
        },
        uids);
    std::map<core::UID, std::map<size_t, int>> got, want;
    ex.add_observer<cm::SynapticImpactMessage>(
        [&](const std::vector<cm::SynapticImpactMessage> &ms)
        {
            for (auto &m : ms)
                for (auto &i : m.impacts_) ++got[m.header_.sender_uid_][i.presynaptic_neuron_index_];
        },
        projs);
    ex.start([](core::Step s) { return s < 8; });
    for (size_t k = 0; k < pairs.size(); ++k)
    {
        const bool hears = std::count(pairs[k].first.begin(), pairs[k].first.end(), channel) > 0;
        size_t spoken = 0;
        for (auto &d : in)
        {
            if (!hears || d.empty()) continue;
            REQUIRE(said[uids[k]].size() > spoken, "handler ", k, " was silent");
            per_group(b, n, d, said[uids[k]][spoken++].neuron_indexes_);
        }
        REQUIRE(said[uids[k]].size() == spoken, "handler ", k, " spoke ", said[uids[k]].size(), " times, required ", spoken);
        for (auto &m : said[uids[k]])
            for (auto x : m.neuron_indexes_)
                for (auto &p : pairs[k].second) ++want[p][x];
    }
    for (auto &p : projs) REQUIRE(got[p] == want[p], "what a receiver got");
}
HK_MAIN
