// Executable contract M04: messages and identifiers compare, and survive being written as text.
#include <knp/core/messaging/messaging.h>
#include <knp/core/uid.h>

#include <limits>
#include <set>
#include <sstream>
#include <unordered_set>

#include "hk.h"

namespace core = knp::core;
namespace cm = knp::core::messaging;
using core::UID;
using O = knp::synapse_traits::OutputType;
static const std::vector<O> TYPES{O::EXCITATORY, O::INHIBITORY_CURRENT, O::INHIBITORY_CONDUCTANCE, O::DOPAMINE, O::BLOCKING};

static UID uid(hk::Rng &r)
{
    std::array<unsigned char, 16> a{};
    for (auto &x : a) x = static_cast<unsigned char>(r.coin(30) ? r.one({0, 255, 128, 1}) : r.in(0, 255));
    return UID(a);
}
static uint64_t big(hk::Rng &r)
{
    return r.coin(30) ? r.one<uint64_t>({0, 1, 0xffffffffull, 0x100000000ull, ~0ull, 1ull << 63}) : r.next() >> r.in(0, 60);
}
static uint32_t small(hk::Rng &r) { return r.coin(30) ? r.one<uint32_t>({0, 1, 255, 65536, ~0u}) : uint32_t(r.next() >> r.in(32, 60)); }

struct Made
{
    hk::Rng &r;
    bool exact;  // the stream writes all digits
    float value() { return exact && r.coin() ? float(r.next() >> 40) / 3e3F : float(r.in(-999, 999)) / 8; }
    cm::MessageHeader header() { return {uid(r), big(r)}; }
    cm::SynapticImpact impact() { return {big(r), value(), r.pick(TYPES), small(r), small(r)}; }
    void make(UID &x) { x = uid(r); }
    void make(cm::MessageHeader &x) { x = header(); }
    void make(cm::SynapticImpact &x) { x = impact(); }
    void make(cm::SpikeMessage &x)
    {
        x = {header(), {}};
        for (int64_t n = r.coin(3) ? r.in(100, 900) : r.in(0, 4); n > 0; --n) x.neuron_indexes_.push_back(small(r));
    }
    void make(cm::SynapticImpactMessage &x)
    {
        x = {header(), uid(r), uid(r), r.coin(), {}};
        for (int64_t n = r.coin(3) ? r.in(100, 900) : r.in(0, 4); n > 0; --n) x.impacts_.push_back(impact());
    }
};
// independent of the comparisons of the library
static bool eq(const UID &a, const UID &b) { return std::equal(a.tag.begin(), a.tag.end(), b.tag.begin()); }
static bool eq(const cm::MessageHeader &a, const cm::MessageHeader &b) { return eq(a.sender_uid_, b.sender_uid_) && a.send_time_ == b.send_time_; }
static bool eq(const cm::SynapticImpact &a, const cm::SynapticImpact &b)
{
    return a.connection_index_ == b.connection_index_ && a.impact_value_ == b.impact_value_ && a.synapse_type_ == b.synapse_type_ &&
           a.presynaptic_neuron_index_ == b.presynaptic_neuron_index_ && a.postsynaptic_neuron_index_ == b.postsynaptic_neuron_index_;
}
static bool eq(const cm::SpikeMessage &a, const cm::SpikeMessage &b) { return eq(a.header_, b.header_) && a.neuron_indexes_ == b.neuron_indexes_; }
static bool eq(const cm::SynapticImpactMessage &a, const cm::SynapticImpactMessage &b)
{
    return eq(a.header_, b.header_) && eq(a.presynaptic_population_uid_, b.presynaptic_population_uid_) &&
           eq(a.postsynaptic_population_uid_, b.postsynaptic_population_uid_) && a.is_forcing_ == b.is_forcing_ &&
           std::equal(a.impacts_.begin(), a.impacts_.end(), b.impacts_.begin(), b.impacts_.end(), [](auto &x, auto &y) { return eq(x, y); });
}

template <class T>
static void trip(hk::Rng &r)
{
    Made m{r, r.coin()};
    std::stringstream s;
    if (m.exact) s.precision(9);
    std::vector<T> all(static_cast<size_t>(r.in(1, 4)), T{});
    for (auto &x : all)
    {
        m.make(x);
        s << x << (r.coin() ? " " : "\n");
    }
    hk::note(s.str().substr(0, 400));
    T x{};
    if (r.coin()) m.make(x);
    for (size_t i = 0; i < all.size(); ++i)
    {
        REQUIRE(!!(s >> x), "number ", i, " is read");
        REQUIRE(eq(x, all[i]), "number ", i, " is the one written");
    }
    std::string more;
    REQUIRE(!(s >> more), "nothing is left: ", more);
}

HK_CASE("M04", "text-identifier", 500) { trip<UID>(r); }
HK_CASE("M04", "text-header", 500) { trip<cm::MessageHeader>(r); }
HK_CASE("M04", "text-impact", 800) { trip<cm::SynapticImpact>(r); }
HK_CASE("M04", "text-spikes", 1500) { trip<cm::SpikeMessage>(r); }
HK_CASE("M04", "text-impacts", 1500) { trip<cm::SynapticImpactMessage>(r); }

static void change(hk::Rng &r, UID &x) { x.tag.data[r.in(0, 15)] ^= static_cast<unsigned char>(1 << r.in(0, 7)); }
static void change(hk::Rng &r, cm::MessageHeader &x)
{
    if (r.coin()) change(r, x.sender_uid_);
    else x.send_time_ ^= 1ull << r.in(0, 63);
}
static void change(hk::Rng &r, cm::SynapticImpact &x)
{
    switch (r.in(0, 4))
    {
        case 0: x.connection_index_ ^= 1ull << r.in(0, 63); break;
        case 1: x.impact_value_ += 1; break;
        case 2: x.synapse_type_ = r.pick(TYPES); break;
        case 3: x.presynaptic_neuron_index_ ^= 1u << r.in(0, 31); break;
        default: x.postsynaptic_neuron_index_ ^= 1u << r.in(0, 31);
    }
}
static void change(hk::Rng &r, cm::SpikeMessage &x)
{
    if (r.coin(30)) return change(r, x.header_);
    if (!x.neuron_indexes_.empty() && r.coin()) r.pick(x.neuron_indexes_) ^= 1u << r.in(0, 31);
    else if (!x.neuron_indexes_.empty() && r.coin()) x.neuron_indexes_.pop_back();
    else x.neuron_indexes_.push_back(small(r));
}
static void change(hk::Rng &r, cm::SynapticImpactMessage &x)
{
    switch (r.in(0, 5))
    {
        case 0: return change(r, x.header_);
        case 1: return change(r, x.presynaptic_population_uid_);
        case 2: return change(r, x.postsynaptic_population_uid_);
        case 3: x.is_forcing_ = !x.is_forcing_; return;
        case 4: if (!x.impacts_.empty()) return change(r, r.pick(x.impacts_)); [[fallthrough]];
        default: if (!x.impacts_.empty() && r.coin()) x.impacts_.pop_back(); else x.impacts_.push_back(Made{r, false}.impact());
    }
}
template <class T>
static void compared(hk::Rng &r)
{
    Made m{r, true};
    T a{}, b{};
    m.make(a);
    b = a;
    if (r.coin(75)) change(r, b);
    SAME(a == b, eq(a, b), "equal exactly when the data are");
    SAME(b == a, eq(a, b), "and the other way round");
}
HK_CASE("M04", "equal-impacts", 2000) { compared<cm::SynapticImpact>(r); }
HK_CASE("M04", "equal-spike-messages", 2000) { compared<cm::SpikeMessage>(r); }
HK_CASE("M04", "equal-impact-messages", 2000) { compared<cm::SynapticImpactMessage>(r); }
HK_CASE("M04", "equal-identifiers", 2000)
{
    compared<UID>(r);
    UID a = uid(r), b = a, c = uid(r);
    if (r.coin()) change(r, b);
    SAME(a != b, !eq(a, b), "different");
    SAME(core::uid_hash()(a) == core::uid_hash()(b) || !eq(a, b), true, "equal identifiers have the same hash");
    SAME((a < b) + (b < a), eq(a, b) ? 0 : 1, "one of two different identifiers comes first");
    SAME(a < b && b < c && !(a < c), false, "order");
    SAME(bool(a), !eq(a, UID(false)), "an identifier");
    std::ostringstream o;
    o << a;
    SAME(std::string(a), o.str(), "text");
}
HK_CASE("M04", "new-identifiers", 60)
{
    std::set<UID> all;
    for (int i = 0; i < 50; ++i) REQUIRE(all.insert(UID()).second, "a new identifier is like no other");
    all.clear();
    core::continuously_uid_generator::reset(r.one<uint64_t>({1, 200, 65500, 0xfffffff0ull, 0xfffffffffff0ull, uint64_t(r.next() >> 2)}));
    const auto g = core::continuously_uid_generator();
    for (int i = 0; i < 400; ++i) REQUIRE(all.insert(UID(g())).second, "a numbered identifier is like no other, after ", i);
}

HK_MAIN
