// Executable contracts F07 (datasets of images) and F08 (evaluation of inference) against naive references.
#include <spdlog/spdlog.h>
#include <knp/core/messaging/messaging.h>
#include <knp/framework/data_processing/classification/image.h>
#include <knp/framework/inference_evaluation/classification/processor.h>
#include <knp/framework/inference_evaluation/perfomance_metrics.h>

#include <algorithm>
#include <cmath>
#include <sstream>

#include "hk.h"

namespace core = knp::core;
namespace cm = knp::core::messaging;
namespace dc = knp::framework::data_processing::classification;
namespace ie = knp::framework::inference_evaluation;

template <class T>
static std::string text(const T &d)
{
    std::string s = "[";
    for (auto x : d) s += std::to_string(x) + " ";
    return s + "]";
}
using Bits = std::vector<bool>;
using Frame = dc::Dataset::Frame;

// A dataset read from streams, and what was put into them.
struct Loaded
{
    dc::images::Dataset d;
    std::vector<std::pair<unsigned, Bits>> want;
    size_t size, steps, classes;
};
static void load(hk::Rng &r, Loaded &l, size_t least)
{
    l.size = size_t(r.in(1, 6)), l.steps = size_t(r.in(1, 5)), l.classes = size_t(r.in(1, 5));
    size_t images = least + size_t(r.in(0, 6)), labels = least + size_t(r.in(0, 6)), most = least + size_t(r.in(1, 8));
    if (r.coin()) labels = images;
    std::string is, ls;
    for (size_t i = 0; i < images * l.size; ++i) is += char(r.in(0, 255));
    if (l.size > 1 && r.coin(33)) is += std::string(size_t(r.in(1, int(l.size) - 1)), 'x');
    std::vector<unsigned> lab;
    for (size_t i = 0; i < labels; ++i)
    {
        lab.push_back(unsigned(r.in(0, int(l.classes) - 1)));
        ls += std::to_string(lab.back()) + "\n";
    }
    hk::note("images ", images, " of ", l.size, " bytes ", is.size(), " labels ", text(lab), " at most ", most, " steps ", l.steps);
    std::stringstream si(is), sl(ls);
    size_t salt = size_t(r.in(1, 1000));
    auto bits = [&](const std::vector<uint8_t> &image)
    {
        Bits b;
        for (size_t i = 0; i < l.size * l.steps; ++i) b.push_back(((image[i % l.size] + 7 * i + salt) * 2654435761u >> 7) & 1u);
        return b;
    };
    l.d.process_labels_and_images(si, sl, most, l.classes, l.size, l.steps,
                                  [&](const std::vector<uint8_t> &image) -> Frame { return {bits(image)}; });
    for (size_t i = 0; i < std::min({images, labels, most}); ++i)
    {
        std::vector<uint8_t> image(is.begin() + long(i * l.size), is.begin() + long((i + 1) * l.size));
        l.want.emplace_back(lab[i], bits(image));
    }
}
static size_t frames(const dc::Dataset &d)
{
    auto [b, e] = d.get_data_for_inference();
    return size_t(e - b) + size_t(d.get_data_for_training().second - d.get_data_for_training().first);
}

HK_CASE("F07", "loading-and-splitting", 5000)
{
    Loaded l;
    load(r, l, 0);
    REQUIRE(l.d.get_image_size() == l.size && l.d.get_steps_per_frame() == l.steps && l.d.get_amount_of_classes() == l.classes,
             "the sizes given are kept");
    size_t n = l.want.size();
    bool refused = false;
    try
    {
        l.d.split(n + 1, 0);
    }
    catch (const std::exception &)
    {
        refused = true;
    }
    REQUIRE(refused, "a split into more frames than there are images with labels is refused");
    REQUIRE(frames(l.d) == 0, "a refused split changes nothing");
    size_t a = size_t(r.in(0, int(n))), b = r.coin() ? n - a : size_t(r.in(0, int(n - a)));
    hk::note("split ", a, " ", b, " of ", n);
    l.d.split(a, b);
    REQUIRE(l.d.get_steps_amount_for_training() == a * l.steps && l.d.get_steps_amount_for_inference() == b * l.steps, "steps of the parts");
    auto t = l.d.get_data_for_training(), i = l.d.get_data_for_inference();
    REQUIRE(size_t(t.second - t.first) == a && size_t(i.second - i.first) == b && i.first == t.second, "the parts follow each other");
    for (size_t k = 0; k < a + b; ++k)
        REQUIRE(t.first[long(k)].first == l.want[k].first && t.first[long(k)].second.spikes_ == l.want[k].second, "frame " + std::to_string(k));
    if (a + b == n) return;
    try
    {
        l.d.split(a, n - a + 1);
        REQUIRE(false, "a split into too many frames is refused");
    }
    catch (const std::exception &)
    {
    }
    REQUIRE(size_t(l.d.get_data_for_training().second - t.first) == a && frames(l.d) == a + b, "a refused split keeps the earlier one");
}

HK_CASE("F07", "generators", 5000)
{
    Loaded l;
    load(r, l, 2);
    size_t n = l.want.size(), a = size_t(r.in(1, int(n) - 1)), b = size_t(r.in(1, int(n - a)));
    l.d.split(a, b);
    auto labels = l.d.make_training_labels_generator(), train = l.d.make_training_images_spikes_generator(),
         infer = l.d.make_inference_images_spikes_generator();
    for (int q = 0; q < 12; ++q)
    {
        core::Step step = r.coin(20) ? core::Step(r.in(0, 1000000)) * 1000003u : core::Step(r.in(0, int(3 * l.steps * n)));
        size_t f = size_t(step / l.steps), s = size_t(step % l.steps);
        auto part = [&](const Bits &bits)
        {
            cm::SpikeData d;
            for (size_t i = 0; i < l.size; ++i)
                if (bits[s * l.size + i]) d.push_back(cm::SpikeIndex(i));
            return d;
        };
        hk::note("step ", step, " of ", a, "+", b, " frames");
        REQUIRE((labels(step) == cm::SpikeData{l.want[f % a].first}), "the label of the frame of the step");
        REQUIRE(train(step) == part(l.want[f % a].second), "the spikes of the training frame at the step");
        REQUIRE(infer(step) == part(l.want[a + f % b].second), "the spikes of the inference frame at the step");
    }
}

HK_CASE("F07", "incrementing-converter", 5000)
{
    Loaded l;
    load(r, l, 0);
    size_t active = size_t(r.in(0, int(l.steps)));
    float factor = float(r.in(0, 40)) / float(r.in(1, 4000));
    auto convert = l.d.make_incrementing_image_to_spikes_converter(active, factor);
    std::vector<float> state(l.size, 0.F);
    for (int images = 0; images < 4; ++images)
    {
        std::vector<uint8_t> image;
        for (size_t i = 0; i < l.size; ++i) image.push_back(uint8_t(r.coin(25) ? r.one({0, 255}) : r.in(0, 255)));
        Bits want;
        for (size_t s = 0; s < l.steps; ++s)
            for (size_t i = 0; i < l.size; ++i)
            {
                bool fires = false;
                if (s < active)
                {
                    state[i] += factor * float(image[i]);
                    fires = state[i] >= 1.F;
                    if (fires) state[i] -= 1.F;
                }
                want.push_back(fires);
            }
        hk::note("image ", text(image), " factor ", factor, " active ", active);
        REQUIRE(convert(image).spikes_ == want, "spikes of image " + std::to_string(images));
    }
}

HK_CASE("F08", "inference-results", 8000)
{
    Loaded l;
    load(r, l, 2);
    size_t n = l.want.size(), a = size_t(r.in(0, int(n))), b = size_t(r.in(0, int(n - a)));
    l.d.split(a, b);
    std::vector<cm::SpikeMessage> ms;
    std::vector<std::vector<size_t>> votes(b, std::vector<size_t>(l.classes, 0));
    size_t steps = b * l.steps + (r.coin(33) ? 3 : 0);
    for (core::Step s = 0; s < steps; ++s)
        for (size_t k = size_t(r.one({0, 0, 1, 1, 2})); k > 0; --k)
        {
            ms.push_back({{core::UID(), s}, {}});
            for (size_t q = size_t(r.one({0, 1, 2, 4})); q > 0; --q)
            {
                ms.back().neuron_indexes_.push_back(cm::SpikeIndex(r.in(0, int(3 * l.classes))));
                if (s < b * l.steps) ++votes[s / l.steps][ms.back().neuron_indexes_.back() % l.classes];
            }
            hk::note("message at ", s, " ", text(ms.back().neuron_indexes_));
        }
    std::vector<ie::classification::InferenceResult> want(l.classes);
    for (size_t f = 0; f < b; ++f)
    {
        size_t best = size_t(std::max_element(votes[f].begin(), votes[f].end()) - votes[f].begin()), label = l.want[a + f].first;
        hk::note("frame ", f, " label ", label, " votes ", text(votes[f]));
        for (size_t c = 0; c < l.classes; ++c)
            if (c != label) ++want[c].true_negatives_;
        if (!votes[f][best])
            ++want[label].false_negatives_;
        else if (best == label)
            ++want[label].true_positives_;
        else
            ++want[label].false_positives_;
    }
    ie::classification::InferenceResultsProcessor p;
    for (int again = 0; again < 2; ++again)
    {
        p.process_inference_results(ms, l.d);
        auto &got = p.get_inference_results();
        REQUIRE(got.size() == l.classes, "a row for every class");
        for (size_t c = 0; c < l.classes; ++c)
        {
            REQUIRE(got[c].true_positives_ == want[c].true_positives_, "recognised, class " + std::to_string(c));
            REQUIRE(got[c].false_negatives_ == want[c].false_negatives_, "without votes, class " + std::to_string(c));
            REQUIRE(got[c].false_positives_ == want[c].false_positives_, "taken for another, class " + std::to_string(c));
            REQUIRE(got[c].true_negatives_ == want[c].true_negatives_, "others, class " + std::to_string(c));
            REQUIRE(got[c].get_total_votes() == want[c].true_positives_ + want[c].false_negatives_ + want[c].false_positives_, "frames of the class");
        }
    }
}

static bool near(float a, double b) { return std::abs(double(a) - b) <= 1e-5 * (1 + std::abs(b)); }

HK_CASE("F08", "metrics", 20000)
{
    auto some = [&] { return r.coin(33) ? size_t(0) : r.coin() ? size_t(r.in(0, 5)) : size_t(r.in(0, 100000)); };
    size_t tp = some(), fn = some(), fp = some(), tn = some();
    hk::note("counts ", tp, " ", fn, " ", fp, " ", tn);
    auto share = [](size_t a, size_t b) { return b ? double(a) / double(b) : 0.0; };
    REQUIRE(near(ie::get_precision(tp, fp), share(tp, tp + fp)), "precision");
    REQUIRE(near(ie::get_recall(tp, fn), share(tp, tp + fn)), "recall");
    REQUIRE(near(ie::get_prevalence(tp, fn, fp, tn), share(tp + fn, tp + fn + fp + tn)), "prevalence");
    REQUIRE(near(ie::get_accuracy(tp, fn, fp, tn), share(tp + tn, tp + fn + fp + tn)), "accuracy");
    float p = float(share(tp, tp + fp)), q = float(share(tp, tp + fn));
    REQUIRE(near(ie::get_f_score(p, q), p * q == 0 ? 0.0 : 2.0 * double(p) * double(q) / (double(p) + double(q))), "f-score");
}

HK_MAIN
