// Executable contracts M01, M02: endpoints, subscriptions and the CPU message bus against a reference.
#include <knp/core/message_bus.h>
#include <knp/core/message_endpoint.h>
#include <knp/core/subscription.h>

#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <set>

#include "hk.h"

namespace core = knp::core;
namespace cm = knp::core::messaging;
using core::UID;
using Spike = cm::SpikeMessage;
using Impact = cm::SynapticImpactMessage;

static UID uid(int k)
{
    std::array<unsigned char, 16> a{};   // differ in one byte, at various positions
    a[(k * 5) % 16] = static_cast<unsigned char>(k + 1);
    return UID(a);
}

// one message of the reference: type, sender, serial number
struct Msg
{
    int type, sender;
    uint64_t id;
    bool operator==(const Msg &o) const { return type == o.type && sender == o.sender && id == o.id; }
};
static std::ostream &operator<<(std::ostream &o, const Msg &m)
{
    return o << (m.type ? "impact#" : "spike#") << m.id << "@" << m.sender;
}
static std::ostream &operator<<(std::ostream &o, const std::vector<Msg> &v)
{
    o << "[";
    for (auto &m : v) o << m << " ";
    return o << "]";
}
static cm::MessageVariant make(const Msg &m)
{
    if (!m.type) return Spike{{uid(m.sender), m.id}, {static_cast<uint32_t>(m.id), 7u, static_cast<uint32_t>(m.id + 1)}};
    Impact i{{uid(m.sender), m.id}, uid(50), uid(51), (m.id & 1) != 0, {}};
    i.impacts_.push_back(
        {m.id, static_cast<float>(m.id) / 4, knp::synapse_traits::OutputType::DOPAMINE, 3, static_cast<uint32_t>(m.id)});
    return i;
}
template <typename T>
static std::vector<Msg> view(const std::vector<T> &v, int type)
{
    std::vector<Msg> r;
    for (auto &m : v)
    {
        int s = -1;
        for (int k = 0; k < 12; ++k)
            if (uid(k) == m.header_.sender_uid_) s = k;
        r.push_back({type, s, m.header_.send_time_});
        auto want = std::get<T>(make(r.back()));
        REQUIRE(want == m && want.header_.send_time_ == m.header_.send_time_, "content of a delivered message");
    }
    return r;
}

// messages sent by one endpoint keep their order; nothing is prescribed between endpoints
static bool g_ordered = true;
static std::map<uint64_t, const void *> g_source;
static std::string differ(const std::vector<Msg> &got, const std::vector<Msg> &want)
{
    auto by_id = [](std::vector<Msg> v)
    {
        std::sort(v.begin(), v.end(), [](const Msg &a, const Msg &b) { return a.id < b.id; });
        return v;
    };
    if (!(by_id(got) == by_id(want))) return "wrong messages";
    if (!g_ordered) return "";
    std::map<const void *, uint64_t> last;
    for (auto &m : got)
    {
        const void *s = g_source[m.id];
        if (last.count(s) && last[s] > m.id) return "messages of one endpoint out of order";
        last[s] = m.id;
    }
    return "";
}

struct Sub
{
    std::set<int> senders;
    std::vector<Msg> got;
};
struct RefEp
{
    std::map<std::pair<int, int>, Sub> subs;  // (type, receiver)
    std::vector<Msg> inbox;
    std::set<int> allowed;   // senders the bus delivers to this endpoint
    void update()
    {
        allowed.clear();
        for (auto &s : subs) allowed.insert(s.second.senders.begin(), s.second.senders.end());
    }
};
template <typename T>
static void check_sub(const core::Subscription<T> &s, const Sub &m, int recv, int type)
{
    REQUIRE(s.get_receiver_uid() == uid(recv), "receiver of the subscription");
    SAME(s.get_senders().size(), m.senders.size(), "number of senders of receiver ", recv, " type ", type);
    for (int k = 0; k < 12; ++k)
        SAME(s.has_sender(uid(k)), m.senders.count(k) > 0, "sender ", k, " of receiver ", recv, " type ", type);
    auto g = view(s.get_messages(), type);
    auto d = differ(g, m.got);
    REQUIRE(d.empty(), d, ": receiver ", recv, " type ", type, ": got ", g, " required ", m.got);
}
static void check_ep(core::MessageEndpoint &e, const RefEp &m)
{
    auto &c = e.get_endpoint_subscriptions();
    SAME(c.size(), m.subs.size(), "number of subscriptions");
    for (auto &[k, s] : m.subs)
    {
        auto it = c.find(std::make_pair(static_cast<size_t>(k.first), uid(k.second)));
        REQUIRE(it != c.end(), "subscription of receiver ", k.second, " type ", k.first, " is missing");
        SAME(it->second.index(), static_cast<size_t>(k.first));
        if (k.first == 0)
            check_sub(std::get<0>(it->second), s, k.second, 0);
        else
            check_sub(std::get<1>(it->second), s, k.second, 1);
    }
    auto p = e.get_senders_ptr().lock();
    REQUIRE(p, "sender set of the endpoint");
    SAME(p->size(), m.allowed.size(), "size of the bus filter");
    for (int k : m.allowed) REQUIRE(p->count(uid(k)), "sender ", k, " is missing in the bus filter");
}
static std::vector<int> some(hk::Rng &r, int n, int most)
{
    std::vector<int> v;
    int k = static_cast<int>(r.in(0, most));
    for (int i = 0; i < k; ++i) v.push_back(static_cast<int>(r.in(0, n - 1)));
    return v;
}

// ---- endpoints and the bus: every operation of the public interface, in any order
static void history(hk::Rng &r, bool interleave)
{
    g_ordered = !interleave;
    g_source.clear();
    auto bus = core::MessageBus::construct_cpu_bus();
    const int nsend = static_cast<int>(r.in(1, 5)), nrecv = static_cast<int>(r.in(1, 4));
    struct E
    {
        std::optional<core::MessageEndpoint> ep;
        RefEp m;
        std::vector<Msg> sent;
    };
    std::vector<std::unique_ptr<E>> eps;
    auto add = [&]
    {
        eps.push_back(std::make_unique<E>());
        eps.back()->ep.emplace(bus->create_endpoint());
    };
    for (int i = static_cast<int>(r.in(1, 3)); i > 0; --i) add();
    uint64_t serial = 0;
    auto receive_all = [&](E &e)
    {
        size_t n = e.m.inbox.size();
        SAME(e.ep->receive_all_messages(), n, "messages received");
    };
    auto deliver = [&](RefEp &m, const Msg &g)
    {
        for (auto &[k, s] : m.subs)
            if (k.first == g.type && s.senders.count(g.sender)) s.got.push_back(g);
    };
    const int steps = static_cast<int>(r.in(5, 30));
    for (int step = 0; step < steps; ++step)
    {
        if (eps.empty()) add();
        auto &e = *eps[r.in(0, static_cast<int>(eps.size()) - 1)];
        size_t en = 0;
        while (eps[en].get() != &e) ++en;
        int op = static_cast<int>(r.in(0, 11));
        int recv = static_cast<int>(r.in(0, nrecv - 1));
        switch (op)
        {
            case 0:
            case 1:
            case 2:
            {
                auto s = some(r, nsend, 3);
                std::vector<UID> su;
                for (int k : s) su.push_back(uid(k));
                bool sp = r.coin();
                hk::note("ep", en, " subscribe type ", !sp, " receiver ", recv, " to ", s.size(), " senders");
                auto &sub = e.m.subs[{sp ? 0 : 1, recv}];
                sub.senders.insert(s.begin(), s.end());
                e.m.update();
                if (sp)
                    check_sub(e.ep->subscribe<Spike>(uid(recv), su), sub, recv, 0);
                else
                    check_sub(e.ep->subscribe<Impact>(uid(recv), su), sub, recv, 1);
                break;
            }
            case 3:
            {
                bool sp = r.coin();
                hk::note("ep", en, " unsubscribe type ", !sp, " receiver ", recv);
                bool was = e.m.subs.erase({sp ? 0 : 1, recv}) > 0;
                if (was) e.m.update();
                SAME(sp ? e.ep->unsubscribe<Spike>(uid(recv)) : e.ep->unsubscribe<Impact>(uid(recv)), was);
                break;
            }
            case 4:
                hk::note("ep", en, " remove receiver ", recv);
                e.m.subs.erase({0, recv});
                e.m.subs.erase({1, recv});
                e.m.update();
                e.ep->remove_receiver(uid(recv));
                break;
            case 5:
            {
                bool sp = r.coin();
                hk::note("ep", en, " unload type ", !sp, " receiver ", recv);
                auto it = e.m.subs.find({sp ? 0 : 1, recv});
                std::vector<Msg> want;
                if (it != e.m.subs.end()) want.swap(it->second.got);
                auto got = sp ? view(e.ep->unload_messages<Spike>(uid(recv)), 0)
                              : view(e.ep->unload_messages<Impact>(uid(recv)), 1);
                auto d = differ(got, want);
                REQUIRE(d.empty(), d, ": unloaded ", got, " required ", want);
                break;
            }
            case 6:
                if (r.coin(40))
                {
                    if (eps.size() < 5)
                    {
                        hk::note("new endpoint");
                        add();
                    }
                }
                else if (r.coin(25) && eps.size() > 1)
                {
                    hk::note("destroy ep", en);
                    eps.erase(eps.begin() + static_cast<std::ptrdiff_t>(en));
                    continue;
                }
                else if (r.coin(30))
                {
                    hk::note("move ep", en);
                    core::MessageEndpoint tmp(std::move(*e.ep));
                    e.ep.reset();
                    e.ep.emplace(std::move(tmp));
                }
                break;
            default:
            {
                int k = static_cast<int>(r.in(1, 4));
                for (int i = 0; i < k; ++i)
                {
                    auto &x = *eps[r.in(0, static_cast<int>(eps.size()) - 1)];
                    Msg g{r.coin() ? 0 : 1, static_cast<int>(r.in(0, nsend - 1)), serial++};
                    hk::note("send ", g);
                    x.sent.push_back(g);
                    g_source[g.id] = &x;
                    x.ep->send_message(make(g));
                }
                if (r.coin(30)) break;   // routed with a later batch
                // a routing cycle: messages of the endpoints in turn, each endpoint receives what its filter admits
                hk::note("route");
                std::vector<Msg> all;
                for (auto &x : eps)
                {
                    all.insert(all.end(), x->sent.begin(), x->sent.end());
                    x->sent.clear();
                }
                if (interleave && r.coin(40) && !all.empty() && eps.size() > 1)
                {   // routing by single steps is part of the same interface
                    SAME(bus->step(), 0u, "a step before update has nothing to deliver");
                }
                SAME(bus->route_messages(), all.size(), "number of routed messages");
                for (auto &x : eps)
                {
                    std::vector<Msg> cyc;
                    for (auto &g : all)
                        if (x->m.allowed.count(g.sender)) cyc.push_back(g);
                    x->m.inbox.insert(x->m.inbox.begin(), cyc.begin(), cyc.end());
                }
                for (auto &x : eps)
                {
                    if (interleave && r.coin(40)) continue;   // left pending for a later cycle
                    if (r.coin(30))
                    {
                        for (auto &g : x->m.inbox)
                        {
                            REQUIRE(x->ep->receive_message(), "a message is pending");
                            deliver(x->m, g);
                        }
                        x->m.inbox.clear();
                        REQUIRE(!x->ep->receive_message(), "nothing is pending");
                        continue;
                    }
                    receive_all(*x);
                    for (auto &g : x->m.inbox) deliver(x->m, g);
                    x->m.inbox.clear();
                }
            }
        }
        for (auto &x : eps) check_ep(*x->ep, x->m);
    }
    // nothing is delivered twice
    for (auto &x : eps)
    {
        receive_all(*x);
        for (auto &g : x->m.inbox) deliver(x->m, g);
        x->m.inbox.clear();
        check_ep(*x->ep, x->m);
        SAME(x->ep->receive_all_messages(), 0u);
    }
}
HK_CASE("M01", "endpoint_history", 3000) { history(r, false); }
HK_CASE("M02", "bus_history", 3000) { history(r, true); }
HK_CASE("M02", "bus_cycle_history", 1500) { history(r, false); }
HK_CASE("M02", "many_messages", 60)
{
    auto bus = core::MessageBus::construct_cpu_bus();
    auto a = bus->create_endpoint(), b = bus->create_endpoint();
    a.subscribe<Spike>(uid(9), {uid(1), uid(2)});
    b.subscribe<Spike>(uid(9), {uid(2), uid(3)});
    std::vector<Msg> wa, wb;
    int n = static_cast<int>(r.in(1, 3000));
    hk::note(n, " messages");
    for (int i = 0; i < n; ++i)
    {
        Msg g{0, static_cast<int>(r.in(0, 4)), static_cast<uint64_t>(i)};
        a.send_message(make(g));
        if (g.sender == 1 || g.sender == 2) wa.push_back(g);
        if (g.sender == 2 || g.sender == 3) wb.push_back(g);
    }
    SAME(bus->route_messages(), static_cast<size_t>(n));
    SAME(bus->route_messages(), 0u);
    SAME(a.receive_all_messages(), wa.size());
    SAME(b.receive_all_messages(), wb.size());
    REQUIRE(view(a.unload_messages<Spike>(uid(9)), 0) == wa, "messages of the first endpoint, in sending order");
    REQUIRE(view(b.unload_messages<Spike>(uid(9)), 0) == wb, "messages of the second endpoint, in sending order");
}
// ---- subscriptions
template <typename T>
static void subscription(hk::Rng &r, int type)
{
    g_ordered = true;
    g_source.clear();
    auto v0 = some(r, 6, 4);
    std::vector<UID> u0;
    for (int k : v0) u0.push_back(uid(k));
    core::Subscription<T> s(uid(0), u0);
    Sub m;
    m.senders.insert(v0.begin(), v0.end());
    check_sub(s, m, 0, type);
    uint64_t id = 0;
    for (int i = 0; i < 15; ++i)
    {
        int k = static_cast<int>(r.in(0, 7));
        switch (r.in(0, 4))
        {
            case 0: SAME(s.add_sender(uid(k)), static_cast<size_t>(m.senders.insert(k).second)); break;
            case 1: SAME(s.remove_sender(uid(k)), m.senders.erase(k)); break;
            case 2:
            {
                auto v = some(r, 8, 5);
                std::vector<UID> u;
                for (int x : v) u.push_back(uid(x));
                size_t b = m.senders.size();
                m.senders.insert(v.begin(), v.end());
                SAME(s.add_senders(u), m.senders.size() - b);
                break;
            }
            case 3:
            {
                Msg g{type, k, id++};
                m.got.push_back(g);
                auto x = std::get<T>(make(g));
                if (r.coin())
                    s.add_message(x);
                else
                    s.add_message(std::move(x));
                break;
            }
            default:
                if (!r.coin(30)) break;
                s.clear_messages();
                m.got.clear();
        }
        check_sub(s, m, 0, type);
    }
}
HK_CASE("M01", "subscription_spikes", 600) { subscription<Spike>(r, 0); }
HK_CASE("M01", "subscription_impacts", 600) { subscription<Impact>(r, 1); }
HK_MAIN
