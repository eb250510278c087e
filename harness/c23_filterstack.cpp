// C23: a filter stack against a list of probes that record what they receive.
#include "vf.hpp"
#include "spine/platform/hal.hpp"
#include "spine/filter/filterstack.hpp"
#include "spine/filter/implementations/ewma.hpp"
#include "spine/filter/implementations/mapped_range.hpp"

using namespace spn::filter;
namespace {
int g_alive = 0;
std::vector<int> g_called; // which probes took a sample, in order
template<typename T>
struct Probe : Filter<T> {
    int id;
    T factor, shift;
    T last_in = 0, last_out = 0, reset_value = 0;
    int calls = 0, resets = 0;
    Probe(int i, T f, T s) : id(i), factor(f), shift(s) { ++g_alive; }
    ~Probe() override { --g_alive; }
    T map(T v) const { return v * factor + shift; }
    T value(T s) override {
        ++calls;
        g_called.push_back(id);
        last_in = s;
        return last_out = map(s);
    }
    T value() const override { return last_out; }
    void new_sample(T s) override { value(s); }
    void reset_to(T v) override {
        ++resets;
        reset_value = v;
        last_out = v;
    }
};
template<typename T>
T sample(vf::Rng& r) {
    if constexpr (std::is_integral_v<T>) return static_cast<T>(r.range(-1000000000, 1000000000)) * (sizeof(T) == 8 ? 40 : 1) / 100;
    else
        return r.chance(1, 2) ? static_cast<T>(r.real(-1e3, 1e3)) : static_cast<T>(1.0 + r.unit() * 1e-9); // digits a float would lose
}
template<typename T>
void run(vf::Rng& r) {
    std::vector<int>().swap(g_called);
    const size_t heap0 = vf::heap();
    g_alive = 0;
    g_called.clear();
    g_called.reserve(64);
    {
        const size_t slots = r.chance(1, 12) ? 0 : r.chance(1, 12) ? 255 : r.range(1, 8);
        vf::op("slots=%zu", slots);
        Stack<T> st(static_cast<uint8_t>(slots));
        std::vector<Probe<T>*> model; // attached, in order
        std::vector<std::unique_ptr<Filter<T>>> loose;
        int next_id = 1, through = 0;
        bool full = false, detached = false;
        for (int i = 0, n = r.range(10, 60); i < n; ++i) {
            switch (r.below(slots > 100 ? 14 : 10)) {
            default: {
                if (slots > 100)
                    for (int k = r.range(0, 60); k > 0 && model.size() < slots; --k) {
                        auto p = std::make_unique<Probe<T>>(next_id++, 1, 1);
                        model.push_back(p.get());
                        st.attach_filter(std::move(p));
                    }
                std::unique_ptr<Filter<T>> p;
                Probe<T>* raw;
                if (!loose.empty() && r.chance(1, 3)) { // one that was detached before
                    p = std::move(loose.back());
                    loose.pop_back();
                    raw = static_cast<Probe<T>*>(p.get());
                } else {
                    T f = static_cast<T>(r.pick({1, -1, 2, 0, 3}));
                    auto q = std::make_unique<Probe<T>>(next_id++, f, static_cast<T>(r.range(-9, 9)));
                    raw = q.get();
                    p = std::move(q);
                }
                vf::op("attach %d", raw->id);
                if (model.size() < slots) model.push_back(raw);
                else {
                    full = true;
                    VF_EV("attach.refused");
                }
                st.attach_filter(std::move(p));
                VF_EV("attach");
                break;
            }
            case 0:
            case 1:
            case 2: {
                T s = sample<T>(r), v = s;
                g_called.clear();
                int calls0 = 0;
                for (auto* p : model) calls0 += p->calls;
                T got{};
                bool by_value = r.chance(2, 3);
                if (by_value) got = st.value(s);
                else
                    st.new_sample(s);
                vf::op("sample %.17g", (double)s);
                VF_CHECK(g_called.size() == model.size(), "once", "%zu filters were given the sample, %zu are attached", g_called.size(), model.size());
                for (size_t k = 0; k < model.size(); ++k) {
                    VF_CHECK(g_called[k] == model[k]->id, "order", "filter %d came at position %zu, expected %d", g_called[k], k, model[k]->id);
                    VF_CHECK(model[k]->last_in == v, "handed-on", "filter %d at %zu received %.17g, expected %.17g", model[k]->id, k, (double)model[k]->last_in, (double)v);
                    v = model[k]->map(v);
                }
                if (by_value) VF_CHECK(got == v, "result", "result %.17g, expected %.17g", (double)got, (double)v);
                if (!model.empty()) VF_CHECK(st.value() == v, "value", "value() is %.17g, expected %.17g", (double)st.value(), (double)v);
                through += model.size() > 1;
                VF_EV("sample");
                if (model.empty()) VF_EV("sample.empty.stack");
                break;
            }
            case 3:
            case 4: {
                size_t at = std::min<size_t>(255, r.below(model.size() + 2)); // the index is a byte
                vf::op("detach %zu", at);
                auto p = st.detach_filter(static_cast<uint8_t>(at));
                if (at < model.size()) {
                    VF_CHECK(p.get() == model[at], "detach", "detaching %zu returned another filter", at);
                    model.erase(model.begin() + at);
                    detached = true;
                    if (r.chance(1, 2)) loose.push_back(std::move(p));
                    VF_EV("detach");
                } else {
                    VF_CHECK(!p, "detach-none", "detaching %zu of %zu returned a filter", at, model.size());
                    VF_EV("detach.none");
                }
                break;
            }
            case 5: {
                T v = sample<T>(r);
                std::vector<int> before;
                for (auto* p : model) before.push_back(p->resets);
                st.reset_to(v);
                vf::op("reset");
                for (size_t k = 0; k < model.size(); ++k)
                    VF_CHECK(model[k]->resets == before[k] + 1 && model[k]->reset_value == v, "reset", "filter %zu was reset %d times, to %.17g", k,
                             model[k]->resets - before[k], (double)model[k]->reset_value);
                VF_EV("reset");
            }
            }
            VF_CHECK(st.filter_slots() == slots, "slots", "%zu slots, expected %zu", st.filter_slots(), slots);
            VF_CHECK(st.filter_slots_occupied() == model.size(), "occupied", "%zu slots occupied, expected %zu", st.filter_slots_occupied(), model.size());
            VF_CHECK(g_alive == static_cast<int>(model.size() + loose.size()), "alive", "%d filters alive, %zu attached and %zu detached", g_alive, model.size(),
                     loose.size());
            vf::state(vf::mix(model.size() * 1000 + slots) ^ (model.empty() ? 0 : vf::mix(model.back()->id)));
        }
        if ((full || detached) && through) vf::nontrivial();
    }
    VF_CHECK(g_alive == 0, "released", "%d filters outlive their stack", g_alive);
    std::vector<int>().swap(g_called);
    VF_CHECK(vf::heap() == heap0, "leak", "%zd bytes are still allocated", (ssize_t)(vf::heap() - heap0));
}
} // namespace
VF_SCENARIO(float_stack, 1.0) { run<float>(r); }
VF_SCENARIO(double_stack, 0.6) { run<double>(r); }
VF_SCENARIO(int_stack, 0.4) { run<vf::i64>(r); }
VF_SCENARIO(library_filters, 0.3) {
    // mapping, then averaging: not the same as the other way round
    double il = r.real(-10, 10), iu = il + r.real(1, 100), K = r.range(1, 20);
    bool map_first = r.chance(1, 2);
    Stack<double> st(2);
    auto map = [&] {
        st.attach_filter(std::make_unique<MappedRange<double>>(
            MappedRange<double>::Config{.input_lower_limit = il, .input_upper_limit = iu, .output_lower_limit = 0, .output_upper_limit = 100}));
    };
    if (map_first) map();
    st.attach_filter(std::make_unique<EWMA<double>>(EWMA<double>::Config{.K = K}));
    if (!map_first) map();
    double avg = 0;
    auto mapped = [&](double v) { return (std::min(iu, std::max(il, v)) - il) / (iu - il) * 100; };
    for (int i = 1; i < 30; ++i) {
        double s = r.real(il - 20, iu + 20), x = map_first ? mapped(s) : s;
        avg = i == 1 ? x : avg + (x - avg) / std::min<double>(i, K);
        double want = map_first ? avg : mapped(avg), got = st.value(s);
        vf::op("%.9g->%.9g", s, got);
        VF_CHECK(std::fabs(got - want) < 1e-9, "composition", "%g gives %.12g, expected %.12g", s, got, want);
    }
    vf::nontrivial();
}
