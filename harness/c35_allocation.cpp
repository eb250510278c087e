// C35: memory is obtained once, on construction: every allocation and release on the heap is counted while an operation runs.
#include "vf.hpp"
#include "spine/controller/pid.hpp"
#include "spine/controller/sr_latch.hpp"
#include "spine/eventsystem/eventsystem.hpp"
#include "spine/filter/filterstack.hpp"
#include "spine/filter/implementations/bandpass.hpp"
#include "spine/filter/implementations/ewma.hpp"
#include "spine/filter/implementations/invert.hpp"
#include "spine/filter/implementations/mapped_range.hpp"
#include "spine/filter/implementations/passthrough.hpp"
#include "spine/io/stream/buffered_stream.hpp"
#include "spine/platform/hal.hpp"
#include "spine/structure/array.hpp"
#include "spine/structure/linebuffer.hpp"
#include "spine/structure/pool.hpp"
#include "spine/structure/ringbuffer.hpp"
#include "spine/structure/stack.hpp"
#include "spine/structure/static_string.hpp"
#include "spine/structure/time/schedule.hpp"
#include "spine/structure/time/timers.hpp"
#include "spine/structure/vector.hpp"

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));

using namespace spn::structure;
using vf::i64;

namespace {
// volatile: the compiler takes malloc and free for functions that leave our counters alone
volatile bool g_watch = false;
volatile size_t g_allocs = 0, g_frees = 0, g_bytes = 0;
void on_malloc(const volatile void*, size_t n) {
    if (g_watch) g_allocs = g_allocs + 1, g_bytes = g_bytes + n;
}
void on_free(const volatile void* p) {
    if (g_watch && p) g_frees = g_frees + 1;
}
const int g_installed = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);

struct Used {
    size_t allocs, frees, bytes;
};
/// what `f` does to the heap
template<typename F>
Used used_by(F&& f) {
    g_allocs = 0, g_frees = 0, g_bytes = 0;
    g_watch = true;
    f();
    g_watch = false;
    return {g_allocs, g_frees, g_bytes};
}
/// an operation of a thing that has been built: it leaves the heap alone
template<typename F>
void quiet(const char* what, F&& f) {
    Used u = used_by(f);
    VF_CHECK(u.allocs == 0, "allocates", "%s allocates (%zu times, %zu bytes)", what, u.allocs, u.bytes);
    VF_CHECK(u.frees == 0, "frees", "%s frees memory (%zu times)", what, u.frees);
    VF_EV("operation.watched");
}
/// building something with `bytes` of storage
template<typename F>
auto built(const char* what, size_t bytes, F&& f) {
    std::optional<decltype(f())> res;
    Used u = used_by([&] { res.emplace(f()); });
    VF_CHECK(u.allocs <= 1 && u.frees == 0, "construction-blocks", "building %s allocates %zu blocks and frees %zu", what, u.allocs, u.frees);
    VF_CHECK(bytes == 0 ? u.bytes <= 1 : u.bytes >= bytes, "construction-bytes", "building %s takes %zu bytes on the heap, %zu are stored", what, u.bytes, bytes);
    if (bytes) VF_EV("built.in.one.block");
    return res;
}
/// taking it down gives back what building it took
template<typename T>
void gone(const char* what, std::optional<T>& o, size_t blocks) {
    Used u = used_by([&] { o.reset(); });
    VF_CHECK(u.allocs == 0 && u.frees == blocks, "destruction", "destroying %s allocates %zu blocks and frees %zu of %zu", what, u.allocs, u.frees, blocks);
    VF_EV("destroyed");
}

template<typename T>
T value(vf::Rng& r) {
    return static_cast<T>(r.below(250));
}
struct Wide {
    int64_t a[5];
    Wide() = default;
    explicit Wide(u_int64_t v) : a{static_cast<int64_t>(v), 1, 2, 3, 4} {}
};
size_t size_for(vf::Rng& r) { return static_cast<size_t>(r.chance(1, 12) ? r.range(200, 3000) : r.range(1, 20)); }

template<typename T>
void rings(vf::Rng& r) {
    size_t cap = size_for(r);
    vf::op("RingBuffer(%zu) of %zu bytes each", cap, sizeof(T));
    auto ring = built("a ring buffer", cap * sizeof(T), [&] { return RingBuffer<T>(cap); });
    std::vector<T> tmp(2 * cap + 2, value<T>(r));
    bool wrapped = false;
    for (int i = 0; i < 60; ++i) {
        size_t n = r.below(cap + 2);
        switch (r.below(8)) {
        case 0: quiet("push", [&] { ring->push(tmp[0]); }); break;
        case 1: quiet("push with rollover", [&] { ring->push(tmp[0], true); }); break;
        case 2: quiet("bulk push", [&] { ring->push(tmp.data(), n); }); break;
        case 3:
            quiet("bulk push with rollover", [&] { ring->push(tmp.data(), 2 * n, true); });
            wrapped = wrapped || ring->overrun_space();
            break;
        case 4: quiet("pop", [&] { ring->pop(tmp[0]); }); break;
        case 5: quiet("bulk pop", [&] { ring->pop(tmp.data(), n); }); break;
        case 6:
            quiet("peek", [&] {
                T* p;
                ring->peek_at(tmp[0], n);
                ring->peek_at(&p, n);
            });
            break;
        default:
            quiet("drop", [&] {
                if (n & 1) ring->drop_last(n / 2 + 1);
                else
                    ring->drop_first(n / 2 + 1);
            });
        }
        vf::state(vf::mix(ring->used_space() * 1000 + cap));
    }
    quiet("clear", [&] { ring->clear(); });
    gone("a ring buffer", ring, 1);
    if (wrapped) vf::nontrivial();
}
template<typename T>
void vectors(vf::Rng& r) {
    size_t cap = size_for(r);
    int how = static_cast<int>(r.below(4));
    T store[24];
    vf::op("Vector(%zu) of %zu bytes each, built in way %d", cap, sizeof(T), how);
    using V = Vector<T>;
    auto v = how == 0 ? built("a vector", cap * sizeof(T), [&] { return V(cap); })
           : how == 1 ? built("a vector of a value", cap * sizeof(T), [&] { return V(cap, value<T>(r)); })
           : how == 2 ? built("a vector of a list", 4 * sizeof(T), [&] { return V({T(1), T(2), T(3), T(4)}); })
                      : built("a vector over a given store", 0, [&] { return V(store, 5); });
    cap = how == 2 ? 4 : how == 3 ? 24 : cap;
    bool was_full = false, front = false;
    T x = value<T>(r);
    for (int i = 0; i < 60; ++i) {
        size_t n = v->size();
        switch (r.below(11)) {
        case 0:
        case 1: quiet("push_back", [&] { if (!vf::kDebug || n < cap) v->push_back(x); }); break;
        case 2: quiet("emplace_back", [&] { if (!vf::kDebug || n < cap) v->emplace_back(T(3)); }); break;
        case 3: quiet("push_front", [&] { if (!vf::kDebug || n < cap) v->push_front(x); }); break;
        case 4: quiet("emplace_front", [&] { if (!vf::kDebug || n < cap) v->emplace_front(T(3)); }); break;
        case 5:
            if (n) quiet("pop_back", [&] { auto discarded = v->pop_back(); });
            break;
        case 6:
            if (n) quiet("pop_front", [&] { auto discarded = v->pop_front(); }), front = true;
            break;
        case 7: {
            size_t at = r.below(n + 1);
            quiet("insert", [&] { if (!vf::kDebug || n < cap) v->insert(at, x); });
            break;
        }
        case 8:
            if (n) {
                size_t at = r.below(n);
                quiet("remove", [&] { auto discarded = v->remove(at); });
            }
            break;
        case 9:
            quiet("iteration", [&] {
                for (auto& e : *v) x = e;
                for (auto it = v->rbegin(); it != v->rend(); ++it) x = *it;
                if (n) x = (*v)[n - 1], x = v->at(0), x = v->front(), x = v->back(), x = v->peek_front(), x = v->peek_back();
            });
            break;
        default:
            if (r.chance(1, 4)) quiet("clear", [&] { v->clear(); });
            else if (r.chance(1, 3))
                quiet("fill", [&] { v->fill(x); });
        }
        was_full = was_full || v->full();
        vf::state(vf::mix(v->size() * 1000 + cap) + how);
    }
    // moving and exchanging takes nothing from the heap; what is assigned over gives its block back
    {
        std::optional<V> other;
        quiet("move construction", [&] { other.emplace(std::move(*v)); });
        V third(3);
        quiet("swap", [&] { third.swap(*other); });
        quiet("swap", [&] { third.swap(*other); });
        Used u = used_by([&] { third = std::move(*other); });
        VF_CHECK(u.allocs == 0 && u.frees == 1, "move-assignment", "assigning a moved vector allocates %zu blocks and frees %zu", u.allocs, u.frees);
        quiet("move assignment", [&] { *v = std::move(third); });
        VF_EV("moved");
    }
    if (r.chance(1, 3)) {
        Used u = used_by([&] { *v = {T(1), T(2), T(3)}; });
        VF_CHECK(u.allocs <= 1 && u.frees == (how == 3 ? 0u : 1u), "list-assignment", "assigning a list allocates %zu blocks and frees %zu", u.allocs, u.frees);
        how = 0;
        VF_EV("list.assigned");
    }
    gone("a vector", v, how == 3 ? 0 : 1);
    if (was_full && front) vf::nontrivial();
}
template<typename T>
void arrays(vf::Rng& r) {
    size_t cap = size_for(r);
    int how = static_cast<int>(r.below(5));
    T store[24];
    vf::op("Array(%zu) of %zu bytes each, built in way %d", cap, sizeof(T), how);
    using A = Array<T>;
    auto a = how == 0 ? built("an array", cap * sizeof(T), [&] { return A(cap); })
           : how == 1 ? built("an array of a value", cap * sizeof(T), [&] { return A(cap, value<T>(r)); })
           : how == 2 ? built("an array of a list", 4 * sizeof(T), [&] { return A({T(1), T(2), T(3), T(4)}); })
           : how == 3 ? built("an array over a given store", 0, [&] { return A(store); })
                      : built("an array over a given buffer", 0, [&] { return A(reinterpret_cast<uint8_t*>(store), sizeof(store)); });
    bool owns = how < 3;
    T x = value<T>(r);
    quiet("access", [&] {
        for (auto& e : *a) x = e;
        for (auto it = a->rbegin(); it != a->rend(); ++it) x = *it;
        for (auto it = a->cbegin(); it != a->cend(); it++) x = *it;
        x = a->at(0), x = (*a)[a->size() - 1], x = a->front(), x = a->back(), x = *a->data();
    });
    quiet("fill", [&] { a->fill(x); });
    std::optional<A> other;
    quiet("move construction", [&] { other.emplace(std::move(*a)); });
    quiet("move assignment", [&] { *a = std::move(*other); });
    {
        A third(2);
        quiet("swap", [&] { third.swap(*a); });
        quiet("swap", [&] { third.swap(*a); });
    }
    if (r.chance(1, 3)) {
        Used u = used_by([&] { *a = {T(1), T(2), T(3)}; });
        VF_CHECK(u.allocs <= 1 && u.frees == (owns ? 1u : 0u), "list-assignment", "assigning a list allocates %zu blocks and frees %zu", u.allocs, u.frees);
        owns = true;
        VF_EV("list.assigned");
    }
    gone("an array", a, owns ? 1 : 0);
    vf::nontrivial();
}
/// a stream that needs no memory
struct Wire : spn::io::Stream {
    uint8_t in[4096];
    size_t head = 0, tail = 0, window = 0, written = 0;
    void initialize() override {}
    using Stream::read;
    using Stream::write;
    bool read(uint8_t& v) override {
        if (head == tail) return false;
        v = in[head++ % sizeof(in)];
        return true;
    }
    size_t read(uint8_t* b, size_t n) override {
        size_t k = 0;
        while (k < n && read(b[k])) ++k;
        return k;
    }
    size_t available() const override { return tail - head; }
    size_t available_for_write() const override { return window; }
    bool write(const uint8_t) override {
        if (!window) return false;
        --window, ++written;
        return true;
    }
    size_t write(const uint8_t* const b, size_t n) override {
        size_t k = 0;
        while (k < n && write(b[k])) ++k;
        return k;
    }
    void flush() override {}
};
} // namespace

VF_SCENARIO(ring_buffer, 1.0) {
    if (r.chance(1, 3)) rings<uint8_t>(r);
    else if (r.chance(1, 2))
        rings<uint32_t>(r);
    else
        rings<Wide>(r);
}
VF_SCENARIO(vector, 1.0) {
    if (r.chance(1, 3)) vectors<uint8_t>(r);
    else if (r.chance(1, 2))
        vectors<int>(r);
    else
        vectors<Wide>(r);
}
VF_SCENARIO(array, 0.5) {
    if (r.chance(1, 3)) arrays<uint8_t>(r);
    else if (r.chance(1, 2))
        arrays<double>(r);
    else
        arrays<Wide>(r);
}
VF_SCENARIO(line_buffer, 0.7) {
    size_t cap = size_for(r) + 1;
    vf::op("LineBuffer(%zu)", cap);
    auto b = built("a line buffer", cap, [&] { return LineBuffer(cap); });
    std::vector<char> tmp(cap + 4), text(cap + 4);
    bool wrapped = false;
    for (int i = 0; i < 60; ++i) {
        size_t n = r.below(cap + 3);
        for (size_t k = 0; k < n; ++k) text[k] = r.chance(1, 5) ? '\n' : 'x';
        switch (r.below(6)) {
        case 0: quiet("push", [&] { b->push(std::string_view(text.data(), n)); }); break;
        case 1: quiet("push of a character", [&] { b->push('\n', true); }); break;
        case 2:
            quiet("view of a line", [&] {
                auto v = b->get_next_line_view();
                wrapped = wrapped || v;
            });
            break;
        case 3: quiet("copy of a line", [&] { b->get_next_line(tmp.data(), n); }); break;
        case 4: quiet("drop of a line", [&] { b->drop_next_line(); }); break;
        default: quiet("search for a line", [&] { n = b->length_of_next_line() + b->has_line(); });
        }
        vf::state(b->used_space() * 100 + n);
    }
    gone("a line buffer", b, 1);
    if (wrapped) vf::nontrivial();
}
VF_SCENARIO(stack_and_string, 0.5) {
    size_t cap = size_for(r);
    vf::op("Stack(%zu), StaticString(%zu)", cap, cap);
    auto s = built("a stack", cap * sizeof(int), [&] { return Stack<int>(cap); });
    for (int i = 0; i < 40; ++i) {
        size_t n = s->size();
        if (r.chance(3, 5)) quiet("push", [&] { if (!vf::kDebug || n < cap) s->push(i); });
        else if (r.chance(1, 2))
            quiet("emplace", [&] { if (!vf::kDebug || n < cap) s->emplace(int(i)); });
        else if (n)
            quiet("pop", [&] {
                i += s->top() > 1000;
                s->pop();
            });
    }
    gone("a stack", s, 1);
    StaticString* t = nullptr;
    std::aligned_storage_t<sizeof(StaticString), alignof(StaticString)> room;
    Used u = used_by([&] { t = new (&room) StaticString(cap); });
    VF_CHECK(u.allocs <= 1 && u.frees == 0, "construction-blocks", "building a string of %zu allocates %zu blocks and frees %zu", cap, u.allocs, u.frees);
    const char* at = t->view().data();
    for (int i = 0; i < 40; ++i) {
        size_t n = r.below(cap + 1), all = t->capacity();
        switch (r.below(5)) {
        case 0: quiet("set_size", [&] { t->set_size(vf::kDebug ? std::min(n, all) : n * 3); }); break;
        case 1:
            quiet("data", [&] { memset(t->data(n), n % 3 ? ' ' : 'x', n); });
            break;
        case 2: quiet("lstrip", [&] { t->lstrip(); }); break;
        case 3: quiet("rstrip", [&] { t->rstrip("x"); }); break;
        default:
            quiet("tests", [&] { n += t->starts_with("x ") + t->ends_with("  ") + t->view().size() + strlen(t->c_str()); });
        }
        VF_CHECK(t->view().data() == at, "moved", "the characters were moved elsewhere");
        vf::state(t->size() * 50 + n);
    }
    Used v = used_by([&] { t->~StaticString(); });
    VF_CHECK(v.allocs == 0 && v.frees == u.allocs, "destruction", "destroying a string frees %zu of %zu blocks", v.frees, u.allocs);
    vf::nontrivial();
}
VF_SCENARIO(pool, 0.4) {
    size_t cap = static_cast<size_t>(r.range(1, 40));
    vf::op("Pool(%zu)", cap);
    auto p = built("a pool", cap * sizeof(std::shared_ptr<int>), [&] { return Pool<int>(cap); });
    std::vector<std::shared_ptr<int>> mine, held;
    held.reserve(cap + 1);
    for (size_t i = 0; i < cap; ++i) mine.push_back(std::make_shared<int>(static_cast<int>(i)));
    for (auto& m : mine) quiet("populate", [&] { p->populate(m); });
    mine.clear();
    for (int i = 0; i < 80; ++i) {
        if (r.chance(3, 5)) {
            std::shared_ptr<int> got;
            if (!vf::kDebug || held.size() < cap) quiet("acquire", [&] { got = p->acquire(); });
            if (got) held.push_back(std::move(got));
            else
                VF_EV("pool.exhausted");
        } else if (!held.empty()) {
            std::swap(held[r.below(held.size())], held.back());
            quiet("release", [&] { held.pop_back(); });
        }
        vf::state(held.size() * 50 + cap);
    }
    // an object that is taken out and held stays as it is
    quiet("depopulate", [&] { held.push_back(p->depopulate()); });
    vf::nontrivial();
}
VF_SCENARIO(streams, 0.8) {
    size_t icap = size_for(r) + 1, ocap = size_for(r);
    auto wire = std::make_shared<Wire>();
    std::shared_ptr<spn::io::Stream> stream = wire;
    vf::op("BufferedStream(%zu, %zu)", icap, ocap);
    std::optional<spn::io::BufferedStream> b;
    Used u = used_by([&] { b.emplace(stream, spn::io::BufferedStream::Config{.input_buffer_size = icap, .output_buffer_size = ocap}); });
    VF_CHECK(u.allocs <= 2 && u.frees == 0, "construction-blocks", "building a buffered stream allocates %zu blocks and frees %zu", u.allocs, u.frees);
    std::optional<spn::io::Transaction> t;
    std::vector<char> tmp(icap + ocap + 8, 'r');
    bool transacted = false;
    for (int i = 0; i < 80; ++i) {
        bool open = t && !t->is_finalized();
        size_t n = r.below(ocap + 2);
        switch (r.below(open ? 8 : 6)) {
        case 0:
            for (size_t k = 0; k < r.below(2 * icap) && wire->available() < sizeof(wire->in); ++k) wire->in[wire->tail++ % sizeof(wire->in)] = r.chance(1, 6) ? '\n' : 'a';
            quiet("pull", [&] { b->pull_in_data(); });
            break;
        case 1:
            wire->window = r.below(ocap + 2);
            quiet("flush", [&] { b->push_out_data(); });
            break;
        case 2: quiet("buffered write", [&] { b->buffered_write(tmp.data(), n, n & 1); }); break;
        case 3: quiet("buffered write of a byte", [&] { b->buffered_write(uint8_t('x')); }); break;
        case 4:
            if (!open)
                quiet("reading of a line", [&] {
                    if (auto v = b->get_next_line_view(); v && (n & 1)) b->drop_next_line();
                    else
                        b->get_next_line(tmp.data(), n);
                });
            break;
        case 5:
            if (!open) quiet("opening a transaction", [&] { t = b->new_transaction(); });
            open = t && !t->is_finalized();
            transacted = transacted || open;
            break;
        case 6: {
            size_t left = t->outgoing_space_left();
            quiet("reply", [&] {
                if (vf::kDebug) n = left ? std::min(n, left - 1) : 0;
                if (!vf::kDebug || left > n) t->outgoing(tmp.data(), n);
                n += t->incoming().size() + t->outgoing_space_used();
            });
            break;
        }
        default:
            quiet("end of a transaction", [&] {
                if (n & 1) t->commit();
                else
                    t->abort();
            });
        }
        vf::state(b->input_buffer_space_used() * 100 + b->output_buffer_space_used());
    }
    quiet("destruction of a transaction", [&] { t.reset(); });
    if (transacted) {
        VF_EV("transactions");
        vf::nontrivial();
    }
}
VF_SCENARIO(events, 0.8) {
    using namespace spn::core;
    size_t cap = static_cast<size_t>(r.range(1, 24));
    vf::set_clock_us(r.range(0, 100000000000ll));
    EventSystem sys({3, cap, 3, r.chance(1, 2), k_time_ms(1), k_time_ms(20)});
    struct H : EventHandler {
        using EventHandler::EventHandler;
        EventSystem* s = nullptr;
        vf::Rng* r = nullptr;
        size_t got = 0;
        int budget = 0;
        std::shared_ptr<Event> kept;
        void handle_event(const Event& e) override {
            ++got;
            if (budget <= 0) return;
            --budget;
            // also from within a delivery
            if (!vf::kDebug && r->chance(1, 2)) s->schedule(e.id(), k_time_ms(r->range(1, 30)), e.data());
        }
    } h[3] = {H(&sys), H(&sys), H(&sys)};
    for (size_t i = 0; i < 3; ++i) {
        h[i].s = &sys;
        h[i].r = &r;
        quiet("attach", [&] { sys.attach(i, &h[i]); });
    }
    quiet("attach", [&] { sys.attach(0, &h[1]); });
    vf::op("EventSystem cap=%zu", cap);
    size_t waiting = 0;
    std::shared_ptr<Event> own;
    for (int i = 0; i < 80; ++i) {
        size_t id = r.below(3);
        i64 d = r.range(1, 50);
        switch (r.below(5)) {
        case 0:
        case 1:
            if (!vf::kDebug) {
                auto data = r.chance(1, 2) ? Event::Data(static_cast<float>(d)) : Event::Data(k_time_s(d));
                quiet("schedule", [&] { sys.schedule(id, k_time_ms(d), data); });
                ++waiting;
            }
            break;
        case 2:
            if (!vf::kDebug) quiet("trigger", [&] { sys.trigger(id, Event::Data(uint32_t(d))); });
            break;
        case 3:
            if (!vf::kDebug) {
                quiet("an event of one's own", [&] { own = sys.event(id, k_time_ms(d)); });
                if (own) quiet("schedule", [&] { sys.schedule(std::move(own)); });
                own.reset();
            }
            break;
        default:
            HAL::delay_ms(k_time_ms(r.range(0, 60)));
            for (auto& x : h) x.budget = 3;
            quiet("loop", [&] { sys.loop(); });
            for (auto& x : h) x.budget = 0;
        }
        vf::state(h[0].got * 100 + h[1].got * 10 + h[2].got);
    }
    if (h[0].got + h[1].got + h[2].got > 5) {
        VF_EV("events.delivered");
        vf::nontrivial();
    }
}
VF_SCENARIO(filters, 0.6) {
    using namespace spn::filter;
    uint8_t slots = static_cast<uint8_t>(r.range(1, 12));
    vf::op("filter stack of %d", slots);
    auto make = [&]() -> std::unique_ptr<Filter<float>> {
        switch (r.below(5)) {
        case 0: return std::make_unique<EWMA<float>>(EWMA<float>::Config{.K = 5});
        case 1: return std::make_unique<BandPass<float>>(BandPass<float>::Config{.rejection_limit = 3, .throw_on_rejection_limit = false});
        case 2: return std::make_unique<Invert<float>>(Invert<float>::Config{.input_lower_limit = -1e9f, .input_upper_limit = 1e9f});
        case 3: return std::make_unique<MappedRange<float>>(MappedRange<float>::Config{.input_lower_limit = 0, .input_upper_limit = 1, .output_lower_limit = 0, .output_upper_limit = 10});
        default: return std::make_unique<Passthrough<float>>(Passthrough<float>::Config{});
        }
    };
    auto st = built("a filter stack", 1, [&] { return spn::filter::Stack<float>(slots); });
    std::unique_ptr<Filter<float>> f;
    for (int i = 0; i < 60; ++i) {
        float x = static_cast<float>(r.real(-3, 3));
        size_t n = st->filter_slots_occupied();
        switch (r.below(6)) {
        case 0:
        case 1:
            if (!f) f = make();
            if (n < slots) {
                quiet("attach", [&] { st->attach_filter(std::move(f)); });
                VF_EV("filter.attached");
            }
            break;
        case 2:
            if (n && r.chance(1, 2)) {
                f.reset();
                quiet("detach", [&] { f = st->detach_filter(static_cast<uint8_t>(x > 0 ? n - 1 : 0)); });
            }
            break;
        case 3: quiet("reset", [&] { st->reset_to(x); }); break;
        default: quiet("sample", [&] { x = st->value(x) + st->value(); });
        }
    }
    vf::nontrivial();
}
VF_SCENARIO(controllers, 0.5) {
    using namespace spn::controller;
    using namespace spn::structure::time;
    vf::set_clock_us(r.range(0, 100000000000ll));
    std::optional<PID> pid;
    std::optional<SRLatch> latch;
    quiet("building a controller", [&] {
        pid.emplace(PID::Config{.sample_interval = k_time_ms(50)});
        pid->initialize();
    });
    quiet("building a latch", [&] { latch.emplace(SRLatch::Config{.high = 10, .low = 5, .maximal_on_time = k_time_ms(400)}); });
    auto day = built("a schedule", 3 * sizeof(Schedule::Block), [&] {
        return Schedule({{k_time_h(1), k_time_h(2), 1.f}, {k_time_h(5), k_time_h(2), 2.f}, {k_time_h(23), k_time_h(2), 3.f}});
    });
    Timer timer;
    AlarmTimer alarm(k_time_ms(r.range(1, 500)));
    IntervalTimer interval(k_time_ms(70), r.chance(1, 2));
    vf::op("controllers");
    for (int i = 0; i < 50; ++i) {
        float x = static_cast<float>(r.real(0, 20));
        HAL::delay_ms(k_time_ms(r.range(0, 100)));
        quiet("PID", [&] {
            pid->set_target_setpoint(x);
            pid->new_reading(x / 2);
            x += pid->response();
        });
        quiet("latch", [&] {
            latch->new_reading(x);
            x += latch->response();
        });
        quiet("timers", [&] {
            x += static_cast<float>(timer.time_since_last(i & 1).raw() + alarm.expired() + alarm.time_from_now().raw() + interval.expired() + interval.time_until_next().raw());
        });
        auto t = k_time_s(static_cast<i64>(r.below(86400)));
        quiet("schedule", [&] { x += day->value_at(t) + static_cast<float>(day->start_of_next_block(t).raw()); });
    }
    gone("a schedule", day, 1);
    vf::nontrivial();
}
VF_SCENARIO(hooks_see, 0.05) {
    // the monitor itself: an allocation and a release are seen
    Used u = used_by([&] {
        int* volatile p = new int(3);
        delete p;
        void* volatile q = malloc(10);
        free(q);
    });
    VF_CHECK(g_installed > 0 && u.allocs == 2 && u.frees == 2 && u.bytes == 14, "monitor", "the monitor saw %zu allocations, %zu releases, %zu bytes", u.allocs, u.frees, u.bytes);
    VF_EV("monitor.sees");
}
