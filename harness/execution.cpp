// Executable contracts F03 (loading a model) and F04 (executing it) against naive references.
#include <spdlog/spdlog.h>
#include <cmath>
#include <knp/backends/cpu-multi-threaded/backend.h>
#include <knp/backends/cpu-single-threaded/backend.h>
#include <knp/core/message_bus.h>
#include <knp/framework/model_executor.h>
#include <knp/framework/network.h>

#include <algorithm>
#include <map>
#include <set>

#include "hk.h"

namespace st = knp::synapse_traits;
namespace nt = knp::neuron_traits;
namespace core = knp::core;
namespace cm = knp::core::messaging;
namespace fw = knp::framework;
using Pop = core::Population<nt::BLIFATNeuron>;
using Delta = core::Projection<st::DeltaSynapse>;
using Res = core::Projection<st::SynapticResourceSTDPDeltaSynapse>;
using STB = knp::backends::single_threaded_cpu::SingleThreadedCPUBackend;
using MTB = knp::backends::multi_threaded_cpu::MultiThreadedCPUBackend;

static std::shared_ptr<core::Backend> backend(hk::Rng &r)
{
    if (r.coin(85)) return std::make_shared<STB>();
    return std::make_shared<MTB>(2);
}

struct Proj
{
    core::UID uid;
    std::vector<std::tuple<size_t, size_t, double>> syn;
};

struct Net
{
    fw::Network net;
    std::vector<core::UID> pops;
    std::vector<Proj> projs;
    explicit Net(hk::Rng &r, size_t np, size_t nj)
    {
        for (size_t i = 0; i < np; ++i)
        {
            core::UID u;
            net.add_population(Pop(
                u,
                [](size_t)
                {
                    nt::neuron_parameters<nt::BLIFATNeuron> n;
                    n.activation_threshold_ = 1;
                    return std::optional(n);
                },
                3));
            pops.push_back(u);
        }
        for (size_t i = 0; i < nj; ++i)
        {
            Proj p;
            size_t n = size_t(r.in(0, 5));
            for (size_t k = 0; k < n; ++k) p.syn.emplace_back(r.in(0, 3), r.in(0, 2), r.one({1.0, 2.0, 0.25, -1.0}));
            net.add_projection(Delta(
                p.uid, core::UID(false), r.pick(pops),
                [&](size_t k)
                {
                    st::synapse_parameters<st::DeltaSynapse> s;
                    s.weight_ = float(std::get<2>(p.syn[k]));
                    s.delay_ = 1;
                    s.output_type_ = st::OutputType::EXCITATORY;
                    return std::optional(Delta::Synapse{s, std::get<0>(p.syn[k]), std::get<1>(p.syn[k])});
                },
                n));
            projs.push_back(p);
        }
    }
};

using Regs = std::map<core::UID, std::set<core::UID>>;

static std::string key(const core::UID &u) { return std::string(u); }

template <class P>
static bool marked(P &p, core::tags::IOType t)
{
    auto &tag = p.get_tags()[core::tags::io_type_tag];
    if (!tag.has_value()) return false;
    SAME(int(std::any_cast<core::tags::IOType>(tag)), int(t));
    return true;
}

HK_CASE("F03", "loading", 500)
{
    Net n(r, size_t(r.in(1, 5)), size_t(r.in(1, 6)));
    fw::Model model(std::move(n.net));
    Regs in, out;
    auto fill = [&](Regs &g, auto &things, auto uid_of, auto reg)
    {
        std::vector<core::UID> ch(size_t(r.one({1, 2, 3, 12, 40})));
        for (size_t k = size_t(r.in(0, 60)); k > 0; --k)
        {
            auto c = r.pick(ch);
            auto u = uid_of(r.pick(things));
            reg(c, u);
            g[c].insert(u);
        }
    };
    fill(in, n.projs, [](auto &p) { return p.uid; }, [&](auto &c, auto &u) { model.add_input_channel(c, u); });
    fill(out, n.pops, [](auto &u) { return u; }, [&](auto &c, auto &u) { model.add_output_channel(c, u); });
    bool refused = false;
    try
    {
        r.coin() ? model.add_input_channel(core::UID(), n.pops[0]) : model.add_output_channel(core::UID(), n.projs[0].uid);
    }
    catch (const std::exception &)
    {
        refused = true;
    }
    REQUIRE(refused, "a channel for an unknown object was accepted");
    std::map<core::UID, cm::SpikeData> feed;
    fw::ModelLoader::InputChannelMap gens;
    for (auto &[c, v] : in)
    {
        auto &f = feed[c];
        for (size_t i = size_t(r.in(0, 3)); i > 0; --i) f.push_back(cm::SpikeIndex(r.in(0, 3)));
        gens[c] = [f](core::Step s) { return s == 1 ? f : cm::SpikeData{}; };
    }
    const core::UID spare;
    gens[spare] = [](core::Step) { return cm::SpikeData{0, 1}; };
    auto b = backend(r);
    if (!in.empty() && r.coin(10))
    {
        auto less = gens;
        less.erase(in.begin()->first);
        bool thrown = false;
        try
        {
            fw::ModelExecutor(model, b, less);
        }
        catch (const std::logic_error &)
        {
            thrown = true;
        }
        REQUIRE(thrown, "a channel without a generator was accepted");
        return;
    }
    fw::ModelExecutor ex(model, b, gens);
    auto &ld = ex.get_loader();
    SAME(ld.get_inputs().size(), in.size());
    SAME(ld.get_outputs().size(), out.size());
    for (auto &[c, v] : in) SAME(key(ld.get_input_channel(c).get_uid()), key(c));
    for (auto &[c, v] : out) SAME(key(ld.get_output_channel(c).get_uid()), key(c));
    for (int k = 0; k < 2; ++k)
    {
        bool thrown = false;
        try
        {
            k ? (void)ld.get_input_channel(spare) : (void)ld.get_output_channel(spare);
        }
        catch (const std::exception &)
        {
            thrown = true;
        }
        REQUIRE(thrown, "an unknown channel was found");
    }
    // marks
    std::set<core::UID> inp, outp;
    for (auto &[c, v] : in) inp.insert(v.begin(), v.end());
    for (auto &[c, v] : out) outp.insert(v.begin(), v.end());
    auto check = [&](auto &pops, auto &projs)
    {
        for (auto &v : pops)
            std::visit([&](auto &p) { SAME(marked(p, core::tags::IOType::output), outp.count(p.get_uid()) > 0); }, v);
        for (auto &v : projs)
            std::visit([&](auto &p) { SAME(marked(p, core::tags::IOType::input), inp.count(p.get_uid()) > 0); }, v);
    };
    auto pops = model.get_network().get_populations();
    auto projs = model.get_network().get_projections();
    check(pops, projs);
    SAME(pops.size(), n.pops.size());
    SAME(projs.size(), n.projs.size());
    auto dp = b->get_network_data();
    size_t np = 0, nj = 0;
    for (auto &it = *dp.population_range.first; !(it == *dp.population_range.second); ++it, ++np)
    {
        std::vector<core::AllPopulationsVariant> one;
        one.push_back(*it);
        std::vector<core::AllProjectionsVariant> none;
        check(one, none);
    }
    for (auto &it = *dp.projection_range.first; !(it == *dp.projection_range.second); ++it, ++nj)
    {
        std::vector<core::AllPopulationsVariant> none;
        std::vector<core::AllProjectionsVariant> one;
        one.push_back(*it);
        check(none, one);
    }
    SAME(np, pops.size());
    SAME(nj, projs.size());
    // what the channels carry
    std::map<std::pair<core::UID, size_t>, double> got, want;
    std::vector<core::UID> all;
    for (auto &p : n.projs) all.push_back(p.uid);
    ex.add_observer<cm::SynapticImpactMessage>(
        [&](const std::vector<cm::SynapticImpactMessage> &ms)
        {
            for (auto &m : ms)
                for (auto &i : m.impacts_) got[{m.header_.sender_uid_, i.postsynaptic_neuron_index_}] += i.impact_value_;
        },
        all);
    std::vector<cm::SpikeMessage> seen;
    ex.add_observer<cm::SpikeMessage>(
        [&](const std::vector<cm::SpikeMessage> &ms) { seen.insert(seen.end(), ms.begin(), ms.end()); }, n.pops);
    ex.start([](core::Step s) { return s < 8; });
    for (auto &[c, v] : in)
        for (auto &p : n.projs)
            if (v.count(p.uid))
                for (auto s : feed[c])
                    for (auto &[x, y, w] : p.syn)
                        if (x == s) want[{p.uid, y}] += w;
    for (auto &p : n.projs)
        for (size_t y = 0; y < 3; ++y)
        {
            double a = got[{p.uid, y}], e = want[{p.uid, y}];
            REQUIRE(a == e, "neuron ", y, " got ", a, " through a projection, its channels carry ", e);
        }
    for (auto &[c, v] : out)
    {
        auto ms = ld.get_output_channel(c).update();
        std::multiset<std::string> x, y;
        auto put = [](auto &s, auto &m)
        {
            std::string t = key(m.header_.sender_uid_) + std::to_string(m.header_.send_time_) + ":";
            auto i = m.neuron_indexes_;
            std::sort(i.begin(), i.end());
            for (auto k : i) t += std::to_string(k) + ",";
            s.insert(t);
        };
        for (auto &m : ms) put(x, m);
        for (auto &m : seen)
            if (v.count(m.header_.sender_uid_)) put(y, m);
        REQUIRE(x == y, "output channel holds ", x.size(), " messages, its populations sent ", y.size());
    }
}

// ------------------------------------------------------------------ F04
HK_CASE("F04", "running", 400)
{
    Net n(r, size_t(r.in(1, 3)), size_t(r.in(1, 3)));
    fw::Model model(std::move(n.net));
    std::vector<core::UID> ch(size_t(r.in(0, 3)));
    std::vector<std::string> log;
    std::vector<std::vector<cm::SpikeData>> feed(ch.size());
    fw::ModelLoader::InputChannelMap gens;
    const size_t steps = size_t(r.in(1, 7));
    for (size_t c = 0; c < ch.size(); ++c)
    {
        model.add_input_channel(ch[c], r.pick(n.projs).uid);
        for (size_t s = 0; s <= steps; ++s)
        {
            feed[c].emplace_back();
            for (size_t i = size_t(r.in(0, 2)); i > 0; --i) feed[c][s].push_back(cm::SpikeIndex(r.in(0, 3)));
        }
        gens[ch[c]] = [&, c](core::Step s)
        {
            log.push_back("gen" + std::to_string(c) + "@" + std::to_string(s));
            return feed[c].at(s);
        };
    }
    auto b = backend(r);
    fw::ModelExecutor ex(model, b, gens);
    // handlers
    size_t nh = size_t(r.in(0, 3));
    std::vector<core::UID> hu(nh);
    std::vector<std::vector<cm::SpikeData>> answers(nh);
    std::vector<std::vector<std::vector<cm::SpikeMessage>>> heard(nh), over(nh);
    std::vector<std::vector<core::Step>> at(nh);
    std::vector<std::vector<core::UID>> from(nh), to(nh);
    for (size_t h = 0; h < nh; ++h)
    {
        for (auto &u : ch)
            if (r.coin()) from[h].push_back(u);
        for (auto &u : n.pops)
            if (r.coin()) from[h].push_back(u);
        for (auto &p : n.projs)
            if (r.coin(40)) to[h].push_back(p.uid);
        for (size_t s = 0; s <= steps; ++s)
        {
            answers[h].emplace_back();
            for (size_t i = size_t(r.in(0, 2)); i > 0; --i) answers[h][s].push_back(cm::SpikeIndex(r.in(0, 3)));
        }
        ex.add_spike_message_handler(
            [&, h](std::vector<cm::SpikeMessage> &ms)
            {
                log.push_back("handler" + std::to_string(h));
                heard[h].push_back(ms);
                return answers[h].at(heard[h].size() - 1);
            },
            from[h], to[h], hu[h]);
        ex.add_observer<cm::SpikeMessage>(
            [&, h](const std::vector<cm::SpikeMessage> &ms)
            {
                log.push_back("observer" + std::to_string(h));
                over[h].push_back(ms);
            },
            from[h]);
    }
    std::vector<cm::SpikeMessage> inputs, handled;
    ex.add_observer<cm::SpikeMessage>([&](auto &ms) { inputs.insert(inputs.end(), ms.begin(), ms.end()); }, ch);
    ex.add_observer<cm::SpikeMessage>([&](auto &ms) { handled.insert(handled.end(), ms.begin(), ms.end()); }, hu);
    std::map<std::pair<core::UID, size_t>, double> got, want;
    std::vector<core::UID> all;
    for (auto &p : n.projs) all.push_back(p.uid);
    ex.add_observer<cm::SynapticImpactMessage>(
        [&](const std::vector<cm::SynapticImpactMessage> &ms)
        {
            for (auto &m : ms)
                for (auto &i : m.impacts_) got[{m.header_.sender_uid_, i.postsynaptic_neuron_index_}] += i.impact_value_;
        },
        all);
    ex.start(
        [&](core::Step s)
        {
            log.push_back("pred@" + std::to_string(s));
            return s < steps;
        });
    // order of the calls
    size_t at_ = 0;
    auto block = [&](size_t k)
    {
        std::multiset<std::string> x;
        for (size_t i = 0; i < k; ++i)
        {
            REQUIRE(at_ < log.size(), "calls are missing at the end");
            x.insert(log[at_++]);
        }
        return x;
    };
    for (size_t s = 0; s <= steps; ++s)
    {
        std::multiset<std::string> e;
        for (size_t c = 0; c < ch.size(); ++c) e.insert("gen" + std::to_string(c) + "@" + std::to_string(s));
        REQUIRE(block(ch.size()) == e, "step ", s, ": every generator is asked once before the predicate");
        REQUIRE(block(1) == std::multiset<std::string>{"pred@" + std::to_string(s)}, "step ", s, ": then the predicate");
        if (s == steps) break;
        e.clear();
        for (size_t h = 0; h < nh; ++h) e.insert("handler" + std::to_string(h)), e.insert("observer" + std::to_string(h));
        REQUIRE(block(2 * nh) == e, "step ", s, ": every handler and observer is called once after the step");
    }
    SAME(at_, log.size());
    SAME(b->get_step(), steps);
    // messages
    auto same = [](std::vector<cm::SpikeMessage> a, std::vector<cm::SpikeMessage> e, const char *what)
    {
        auto text = [](const std::vector<cm::SpikeMessage> &v)
        {
            std::multiset<std::string> x;
            for (auto &m : v)
            {
                auto i = m.neuron_indexes_;
                std::sort(i.begin(), i.end());
                std::string t = key(m.header_.sender_uid_) + "@" + std::to_string(m.header_.send_time_) + ":";
                for (auto k : i) t += std::to_string(k) + ",";
                x.insert(t);
            }
            return x;
        };
        REQUIRE(text(a) == text(e), what, ": ", a.size(), " messages, required ", e.size());
    };
    std::vector<cm::SpikeMessage> e;
    for (size_t s = 0; s < steps; ++s)
        for (size_t c = 0; c < ch.size(); ++c)
            if (!feed[c][s].empty()) e.push_back({{ch[c], s}, feed[c][s]});
    same(inputs, e, "messages of the input channels");
    e.clear();
    for (size_t s = 0; s + 1 < steps; ++s)
        for (size_t h = 0; h < nh; ++h)
            if (!answers[h][s].empty()) e.push_back({{hu[h], s + 1}, answers[h][s]});
    same(handled, e, "answers of the handlers");
    for (size_t h = 0; h < nh; ++h)
    {
        SAME(heard[h].size(), over[h].size());
        for (size_t s = 0; s < heard[h].size(); ++s) same(heard[h][s], over[h][s], "messages a handler gets");
        for (size_t s = 0; s < heard[h].size(); ++s)
        {
            std::vector<cm::SpikeMessage> own, ref;
            for (auto &m : heard[h][s])
                if (std::count(ch.begin(), ch.end(), m.header_.sender_uid_)) own.push_back(m);
            for (size_t c = 0; c < ch.size(); ++c)
                if (std::count(from[h].begin(), from[h].end(), ch[c]) && !feed[c][s].empty())
                    ref.push_back({{ch[c], s}, feed[c][s]});
            same(own, ref, "channel messages a handler gets");
        }
    }
}

HK_CASE("F04", "handler-receivers", 300)
{
    // answers reach exactly the receivers
    Net n(r, 2, size_t(r.in(1, 4)));
    fw::Model model(std::move(n.net));
    fw::ModelExecutor ex(model, backend(r), {});
    std::vector<core::UID> to;
    for (auto &p : n.projs)
        if (r.coin()) to.push_back(p.uid);
    const size_t when = size_t(r.in(0, 2));
    cm::SpikeData data;
    for (size_t i = size_t(r.in(1, 3)); i > 0; --i) data.push_back(cm::SpikeIndex(r.in(0, 3)));
    size_t calls = 0;
    ex.add_spike_message_handler(
        [&](std::vector<cm::SpikeMessage> &) { return calls++ == when ? data : cm::SpikeData{}; }, {}, to);
    std::map<std::pair<core::UID, size_t>, double> got, want;
    std::vector<core::UID> all;
    for (auto &p : n.projs) all.push_back(p.uid);
    ex.add_observer<cm::SynapticImpactMessage>(
        [&](const std::vector<cm::SynapticImpactMessage> &ms)
        {
            for (auto &m : ms)
                for (auto &i : m.impacts_) got[{m.header_.sender_uid_, i.postsynaptic_neuron_index_}] += i.impact_value_;
        },
        all);
    ex.start([](core::Step s) { return s < 8; });
    for (auto &p : n.projs)
        for (auto &[x, y, w] : p.syn)
            if (std::count(to.begin(), to.end(), p.uid)) want[{p.uid, y}] += w * double(std::count(data.begin(), data.end(), x));
    for (auto &p : n.projs)
        for (size_t y = 0; y < 3; ++y)
            REQUIRE(
                (got[{p.uid, y}] == want[{p.uid, y}]), "neuron ", y, " got ", got[{p.uid, y}], " from a handler, required ",
                want[{p.uid, y}]);
}

HK_CASE("F04", "reading-a-range", 1500)
{
    auto bus = core::MessageBus::construct_cpu_bus();
    auto src = bus->create_endpoint();
    auto ep = bus->create_endpoint();
    core::UID who, other, chan;
    ep.subscribe<cm::SpikeMessage>(chan, {who, other});
    fw::io::output::OutputChannel out(chan, std::move(ep));
    std::vector<cm::SpikeMessage> held;
    auto text = [](const std::vector<cm::SpikeMessage> &v)
    {
        std::string t;
        for (auto &m : v) t += std::to_string(m.header_.send_time_) + ":" + std::to_string(m.neuron_indexes_.at(0)) + " ";
        return t;
    };
    core::Step now = 0;
    cm::SpikeIndex id = 0;
    for (int round = 0; round < 4; ++round)
    {
        for (size_t k = size_t(r.in(0, 6)); k > 0; --k)
        {
            now += core::Step(r.in(0, 2));
            cm::SpikeMessage m{{r.coin() ? who : other, now}, {id++}};
            held.push_back(m);
            src.send_message(m);
        }
        bus->route_messages();
        if (r.coin(80))
        {
            auto x = out.update();
            REQUIRE(text(x) == text(held), "holds ", text(x), " required ", text(held));
        }
        else
            REQUIRE(text(out.update()) == text(held), "update");
        core::Step a = core::Step(r.in(0, int64_t(now) + 1)), b = a + core::Step(r.in(0, 4));
        if (r.coin(20)) b = r.one({SIZE_MAX, SIZE_MAX - a, SIZE_MAX / 2, size_t(1) << 50});
        std::vector<cm::SpikeMessage> want, left;
        for (auto &m : held) (m.header_.send_time_ >= a && m.header_.send_time_ <= b ? want : left).push_back(m);
        auto x = out.read_some_from_buffer(a, b);
        REQUIRE(text(x) == text(want), "read [", a, ",", b, "]: ", text(x), " required ", text(want));
        held = left;
        REQUIRE(text(out.update()) == text(held), "left after reading [", a, ",", b, "]");
    }
}
HK_CASE("F04", "runs-until-stopped", 400)
{
    Net n(r, size_t(r.in(1, 3)), size_t(r.in(1, 3)));
    fw::Model model(std::move(n.net));
    const core::UID ch;
    model.add_input_channel(ch, r.pick(n.projs).uid);
    const size_t steps = size_t(r.in(1, 9)), more = size_t(r.in(0, 5));
    size_t goal = steps, asked = 0, seen = 0;
    auto b = backend(r);
    fw::ModelExecutor ex(model, b, {{ch, [&](core::Step) { ++asked; return cm::SpikeData{}; }}});
    ex.add_observer<cm::SpikeMessage>([&](auto &) { if (++seen == goal) ex.stop(); }, n.pops);
    ex.start();
    SAME(b->get_step(), steps, "the executor runs until it is stopped, step");
    SAME(seen, steps, "observers called");
    SAME(asked, steps, "generators called");
    REQUIRE(!b->running(), "a stopped backend does not run");
    goal += more;
    if (more == 0) ex.start([](core::Step) { return false; });
    else ex.start();
    SAME(b->get_step(), steps + more, "a second start goes on, step");
}

HK_MAIN
