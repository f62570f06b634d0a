// Executable contract B05: devices and their selection.
#include <spdlog/spdlog.h>
#include <cmath>
#include <knp/backends/cpu-multi-threaded/backend.h>
#include <knp/backends/cpu-single-threaded/backend.h>
#include <knp/devices/cpu.h>

#include <map>
#include <set>
#include <utility>

#include "hk.h"

namespace core = knp::core;
using STB = knp::backends::single_threaded_cpu::SingleThreadedCPUBackend;
using MTB = knp::backends::multi_threaded_cpu::MultiThreadedCPUBackend;

struct Fake : core::Device
{
    explicit Fake(const core::UID &u, const std::string &n) : name(n) { base_.uid_ = u; }
    core::DeviceType get_type() const override { return core::DeviceType::CPU; }
    const std::string get_name() const override { return name; }
    float get_power() const override { return 0; }
    std::string name;
};

struct Many : STB
{
    std::vector<std::pair<core::UID, std::string>> all;
    std::vector<std::unique_ptr<core::Device>> get_devices() const override
    {
        std::vector<std::unique_ptr<core::Device>> v;
        for (auto &[u, n] : all) v.push_back(std::make_unique<Fake>(u, n));
        return v;
    }
    std::vector<std::string> now() const
    {
        std::vector<std::string> v;
        for (auto &d : get_current_devices()) v.push_back(std::string(d->get_uid()) + d->get_name());
        return v;
    }
};

HK_CASE("B05", "selection", 400)
{
    Many b;
    for (int64_t n = r.in(0, 6); n > 0; --n) b.all.push_back({core::UID(), "d" + std::to_string(n)});
    std::vector<std::string> want;
    for (int64_t n = r.in(1, 4); n > 0; --n)
    {
        if (!b.all.empty() && r.coin(25))
        {
            auto &[u, m] = r.pick(b.all);
            b.select_device(std::make_unique<Fake>(u, m + "'"));
            want = {std::string(u) + m + "'"};
        }
        else
        {
            std::set<core::UID> ids;
            const bool strange = r.coin(25);
            if (strange) ids.insert(core::UID());
            std::vector<std::string> some;
            for (auto &[u, m] : b.all)
            {
                if (!r.coin(60)) continue;
                ids.insert(u);
                some.push_back(std::string(u) + m);
            }
            bool failed = false;
            try
            {
                b.select_devices(ids);
            }
            catch (const std::logic_error &)
            {
                failed = true;
            }
            SAME(failed, strange, "an unknown device is refused");
            if (!failed) want = some;
        }
        SAME(b.now() == want, true, "devices selected, ", want.size(), " of ", b.all.size(), " expected, there are ", b.now().size());
    }
}

template <class B>
static void same_devices(hk::Rng &)
{
    B a, b;
    auto x = a.get_devices(), y = b.get_devices();
    SAME(x.size(), y.size(), "number of devices");
    REQUIRE(!x.empty(), "there is a device");
    std::set<core::UID> ids;
    std::map<std::string, core::UID> of;
    for (size_t i = 0; i < x.size(); ++i)
    {
        SAME(x[i]->get_name(), y[i]->get_name(), "name");
        REQUIRE(x[i]->get_uid() == y[i]->get_uid(), "the identifier of a device differs from listing to listing");
        ids.insert(x[i]->get_uid());
    }
    SAME(ids.size(), x.size(), "different identifiers");
    b.select_devices(ids);
    SAME(b.get_current_devices().size(), ids.size(), "devices selected by what they report");
    for (auto &d : b.get_current_devices()) REQUIRE(ids.count(d->get_uid()), "a device not asked for");
}

HK_CASE("B05", "identity", 40)
{
    same_devices<STB>(r);
    if (r.coin(20)) same_devices<MTB>(r);
    auto v = knp::devices::cpu::list_processors();
    REQUIRE(!v.empty(), "there is a processor");
    auto &c = v[0];
    const auto uid = c.get_uid();
    const auto name = c.get_name();
    const auto socket = c.get_socket_number();
    c.get_tags()["tag"] = int(7);
    knp::devices::cpu::CPU d(std::move(c));
    REQUIRE(d.get_uid() == uid, "the identifier stays with the device");
    SAME(d.get_name(), name, "name");
    SAME(d.get_socket_number(), socket, "socket");
    SAME(d.get_tags().get_tag<int>("tag"), 7, "tag");
    auto w = knp::devices::cpu::list_processors();
    w[0].get_tags()["tag"] = int(9);
    w[0] = std::move(d);
    REQUIRE(w[0].get_uid() == uid, "the identifier stays with the device assigned");
    SAME(w[0].get_name(), name, "name");
    SAME(w[0].get_socket_number(), socket, "socket");
    SAME(w[0].get_tags().get_tag<int>("tag"), 7, "tag");
    std::swap(w[0], v[0] = knp::devices::cpu::CPU(std::move(knp::devices::cpu::list_processors()[0])));
    REQUIRE(w[0].get_uid() == uid && v[0].get_uid() == uid, "the identifiers of devices exchanged");
    SAME(w[0].get_name(), name, "name of one exchanged");
    SAME(v[0].get_name(), name, "name of the other");
    SAME(v[0].get_tags().get_tag<int>("tag"), 7, "tag of the other");
}

HK_MAIN
