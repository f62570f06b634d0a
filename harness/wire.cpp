// Executable contract M03 (messages as bytes, the ZeroMQ bus) against copies and reference queues.
#include <knp/core/message_bus.h>
#include <knp/core/message_endpoint.h>
#include <knp/core/messaging/message_envelope.h>

#include <deque>
#include <limits>
#include <memory>
#include <optional>

#include "hk.h"

namespace core = knp::core;
namespace cm = knp::core::messaging;
using core::UID;
using Spike = cm::SpikeMessage;
using Impact = cm::SynapticImpactMessage;

static UID uid(hk::Rng &r)
{
    std::array<unsigned char, 16> a{};
    for (auto &x : a) x = static_cast<unsigned char>(r.coin(20) ? r.one({0, 255, 128}) : r.in(0, 255));
    return UID(a);
}
static uint64_t big(hk::Rng &r)
{
    return r.coin(30) ? r.one<uint64_t>({0, 1, 0xffffffffull, 0x100000000ull, ~0ull, 1ull << 63}) : r.next() >> r.in(0, 60);
}
static uint32_t small(hk::Rng &r) { return r.coin(30) ? r.one<uint32_t>({0, 1, 255, 65536, ~0u}) : uint32_t(r.next() >> r.in(32, 60)); }
static float value(hk::Rng &r)
{
    using L = std::numeric_limits<float>;
    return r.coin(30) ? r.one({0.F, -0.F, L::infinity(), -L::infinity(), L::min(), L::max(), L::denorm_min(), 0.1F}) : float(r.dy(-99, 99));
}
static cm::MessageVariant make(hk::Rng &r, const UID &sender, uint64_t time)
{
    size_t n = r.coin(5) ? size_t(r.in(100, 3000)) : size_t(r.in(0, 5));
    if (r.coin())
    {
        Spike m{{sender, time}, {}};
        for (size_t i = 0; i < n; ++i) m.neuron_indexes_.push_back(small(r));
        return m;
    }
    Impact m{{sender, time}, uid(r), uid(r), r.coin(), {}};
    using O = knp::synapse_traits::OutputType;
    for (size_t i = 0; i < n; ++i)
        m.impacts_.push_back(
            {big(r), value(r), r.one({O::EXCITATORY, O::INHIBITORY_CURRENT, O::INHIBITORY_CONDUCTANCE, O::DOPAMINE, O::BLOCKING}), small(r), small(r)});
    return m;
}
static std::string show(const Spike &m)
{
    std::ostringstream o;
    o << "spikes " << m.header_.sender_uid_ << "@" << m.header_.send_time_ << ":";
    for (auto x : m.neuron_indexes_) o << " " << x;
    return o.str();
}
static std::string show(const Impact &m)
{
    std::ostringstream o;
    o << "impacts " << m.header_.sender_uid_ << "@" << m.header_.send_time_ << " " << m.presynaptic_population_uid_ << " "
      << m.postsynaptic_population_uid_ << " " << m.is_forcing_ << ":";
    for (auto &x : m.impacts_)
    {
        uint32_t bits;
        std::memcpy(&bits, &x.impact_value_, 4);
        o << " " << x.connection_index_ << "," << x.impact_value_ << "/" << bits << "," << int(x.synapse_type_) << "," << x.presynaptic_neuron_index_ << ","
          << x.postsynaptic_neuron_index_;
    }
    return o.str();
}
static std::string show(const cm::MessageVariant &m)
{
    return std::visit([](auto &x) { return show(x); }, m);
}

HK_CASE("M03", "bytes", 4000)
{
    auto m = make(r, uid(r), big(r));
    auto before = show(m);
    auto bytes = cm::pack_to_envelope(m);
    SAME(show(m), before, "the packed message is left as it was");
    SAME(show(cm::extract_from_envelope(bytes)), before, "unpacked from a vector");
    // bytes that lie elsewhere, and are followed by others
    std::vector<uint64_t> other(bytes.size() / 8 + 3, ~0ull);
    std::memcpy(other.data(), bytes.data(), bytes.size());
    SAME(show(cm::extract_from_envelope(other.data())), before, "unpacked from a pointer");
    SAME(cm::pack_to_envelope(m) == bytes, true, "packed again");
}

struct End
{
    core::MessageEndpoint e;
    UID receiver{false};
    std::vector<bool> from;                    // senders subscribed to
    std::deque<std::pair<size_t, std::string>> queued;   // routed to it: sender and message
};

HK_CASE("M03", "bus", 60)
{
    auto bus = core::MessageBus::construct_zmq_bus();
    std::vector<std::unique_ptr<End>> ends;
    std::vector<std::pair<size_t, std::pair<size_t, std::string>>> sent;   // endpoint, sender, message
    std::vector<UID> senders;
    uint64_t time = 0;
    for (int i = 0; i < 3; ++i) senders.push_back(uid(r));
    auto add = [&]
    {
        auto x = std::make_unique<End>(End{bus->create_endpoint(), uid(r), {}, {}});
        std::vector<UID> l;
        for (auto &s : senders) x->from.push_back(r.coin(70));
        for (size_t i = 0; i < senders.size(); ++i)
            if (x->from[i]) l.push_back(senders[i]);
        x->e.subscribe<Spike>(x->receiver, l);
        x->e.subscribe<Impact>(x->receiver, l);
        ends.push_back(std::move(x));
    };
    auto receive = [&](End &x)
    {
        x.e.receive_all_messages();
        auto sp = x.e.unload_messages<Spike>(x.receiver);
        auto im = x.e.unload_messages<Impact>(x.receiver);
        std::vector<std::vector<std::string>> want(2), got(2);
        for (auto &m : sp) got[0].push_back(show(m));
        for (auto &m : im) got[1].push_back(show(m));
        for (auto &[s, m] : x.queued)
            if (x.from[s]) want[m[0] == 'i'].push_back(m);
        x.queued.clear();
        for (int k = 0; k < 2; ++k)
        {
            SAME(got[k].size(), want[k].size(), "number of messages of kind ", k);
            // those of one sender keep their order; every sender sends through one endpoint
            for (auto &s : senders)
            {
                std::ostringstream o;
                o << s << "@";
                auto only = [&](const std::vector<std::string> &v)
                {
                    std::string t;
                    for (auto &m : v)
                        if (m.find(o.str()) != std::string::npos) t += m + "\n";
                    return t;
                };
                SAME(only(got[k]), only(want[k]), "messages received of one sender");
            }
        }
    };
    auto route = [&]
    {
        bus->route_messages();
        for (auto &[at, m] : sent)
            for (auto &x : ends) x->queued.push_back(m);
        sent.clear();
    };
    const size_t first = size_t(r.in(1, 3));
    while (ends.size() < first) add();
    for (int op = int(r.in(5, 25)); op; --op) switch (r.in(0, 5))
        {
            case 0:
                if (ends.size() < 5 && r.coin(40)) add();   // (what is on its way reaches it, too)
                break;
            case 1:
            case 2:
                for (int64_t n = r.coin(6) ? r.in(2001, 2500) : r.in(1, 4); n; --n)
                {
                    size_t s = size_t(r.in(0, 2));
                    auto m = make(r, senders[s], time++);
                    if (n > 9) m = Spike{{senders[s], time++}, {uint32_t(n)}};
                    ends[s % first]->e.send_message(m);
                    sent.push_back({s, {s, show(m)}});
                }
                break;
            case 3: route(); break;
            default: receive(*r.pick(ends));
        }
    route();
    for (auto &x : ends) receive(*x);
    SAME(bus->route_messages(), size_t(0), "nothing is left to route");
    for (auto &x : ends) receive(*x);
}
HK_MAIN
