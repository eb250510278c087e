// C01: RingBuffer against an ideal bounded FIFO (std::deque), compared after every operation.
#include "vf.hpp"
#include "spine/structure/ringbuffer.hpp"

using spn::structure::RingBuffer;

template<typename T>
struct Model {
    std::deque<T> q;
    size_t cap;
    size_t overruns = 0; // since last pop
    bool dropped = false; // since last pop
};

template<typename T>
static void compare(RingBuffer<T>& b, Model<T>& m, vf::Rng& r) {
    VF_CHECK(b.used_space() == m.q.size(), "used", "used_space %zu, expected %zu (capacity %zu)", b.used_space(), m.q.size(), m.cap);
    VF_CHECK(b.free_space() == m.cap - m.q.size(), "free", "free_space %zu, expected %zu", b.free_space(), m.cap - m.q.size());
    VF_CHECK(b.capacity() == m.cap, "capacity", "capacity %zu, expected %zu", b.capacity(), m.cap);
    VF_CHECK(b.empty() == m.q.empty(), "empty", "empty() %d with %zu held", b.empty(), m.q.size());
    VF_CHECK(b.full() == (m.q.size() == m.cap), "full", "full() %d with %zu of %zu held", b.full(), m.q.size(), m.cap);
    const bool sample = m.q.size() > 400; // large buffers: the ends, and anywhere
    for (size_t n = 0; n < (sample ? 64 : m.q.size()); ++n) {
        const size_t i = !sample ? n : n < 8 ? n : n < 16 ? m.q.size() - 1 - (n - 8) : r.below(m.q.size());
        T v{};
        VF_CHECK(b.peek_at(v, i), "peek-refused", "peek_at(%zu) refused with %zu held", i, m.q.size());
        VF_CHECK(v == m.q[i], "content", "element %zu of %zu is %lld, expected %lld", i, m.q.size(), (long long)v, (long long)m.q[i]);
        T* p = nullptr;
        VF_CHECK(b.peek_at(&p, i) && p && *p == m.q[i], "peek-ptr", "peek_at(ptr, %zu) wrong", i);
    }
    T v = T(77);
    size_t beyond = r.chance(1, 8) ? SIZE_MAX - r.below(3) : m.q.size() + r.below(3);
    VF_CHECK(!b.peek_at(v, beyond) && v == T(77), "peek-beyond", "peek_at(%zu) succeeded with only %zu held", beyond, m.q.size());
    T* p = nullptr;
    VF_CHECK(!b.peek_at(&p, beyond), "peek-beyond-ptr", "peek_at(ptr,%zu) succeeded with only %zu held", beyond, m.q.size());
    if (!m.dropped)
        VF_CHECK(b.overrun_space() == m.overruns, "overrun", "overrun_space %zu, expected %zu", b.overrun_space(), m.overruns);
    else
        VF_CHECK(b.overrun_space() <= m.overruns, "overrun", "overrun_space %zu exceeds the %zu overwritten", b.overrun_space(), m.overruns);
    if (m.q.size() == m.cap) VF_EV("state.full");
    if (m.q.empty()) VF_EV("state.empty");
}

template<typename T>
static void run(vf::Rng& r, size_t cap) {
    RingBuffer<T> b(cap);
    Model<T> m;
    m.cap = cap;
    vf::op("cap=%zu elem=%zu", cap, sizeof(T));
    compare(b, m, r);
    T nextv = T(1);
    int n = static_cast<int>(r.range(5, vf::thorough() ? 160 : 90));
    // bias: mostly filling, mostly draining or balanced
    u_int64_t fill_bias = r.range(1, 9);
    bool saw_full = false, saw_wrap = false;
    size_t pushed = 0;
    for (int i = 0; i < n; ++i) {
        if (r.chance(1, 30)) { // moved into another buffer and back
            vf::op("move");
            RingBuffer<T> other(std::move(b));
            compare(other, m, r);
            b = std::move(other);
            VF_EV("moved");
        }
        bool do_push = r.chance(fill_bias, 10);
        auto mpush = [&](T v, bool roll) -> bool {
            if (m.q.size() == m.cap) {
                if (!roll) return false;
                m.q.pop_front();
                ++m.overruns;
                VF_EV("rollover.overwrite");
            }
            m.q.push_back(v);
            ++pushed;
            return true;
        };
        auto mpop = [&] {
            m.q.pop_front();
            m.overruns = 0;
            m.dropped = false;
        };
        if (do_push && r.chance(3, 5)) {
            bool roll = r.chance(1, 3);
            T v = nextv++;
            vf::op("push(%lld,%d)", (long long)v, roll);
            bool want = mpush(v, roll);
            bool got = r.chance(1, 2) || roll ? b.push(v, roll) : b.push(v);
            if (!want) VF_EV("push.refused");
            VF_CHECK(got == want, "push-result", "push returned %d, expected %d", got, want);
        } else if (do_push) {
            bool roll = r.chance(1, 3);
            size_t len = r.below(cap * 2 + 2);
            std::vector<T> vals;
            for (size_t k = 0; k < len; ++k) vals.push_back(nextv++);
            vf::op("bulkpush(%zu,%d)", len, roll);
            size_t want = 0;
            for (auto v : vals) {
                if (!mpush(v, roll)) break;
                ++want;
            }
            if (want < len) VF_EV("bulkpush.partial");
            size_t got = roll || r.chance(1, 2) ? b.push(vals.data(), len, roll) : b.push(vals.data(), len);
            VF_CHECK(got == want, "bulkpush-result", "bulk push returned %zu, expected %zu of %zu", got, want, len);
        } else {
            switch (r.below(8)) {
            case 0:
            case 1: {
                vf::op("pop(v)");
                T v = T(99);
                bool got = b.pop(v);
                VF_CHECK(got == !m.q.empty(), "pop-result", "pop returned %d with %zu held", got, m.q.size());
                if (got) {
                    VF_CHECK(v == m.q.front(), "pop-value", "popped %lld, expected %lld", (long long)v, (long long)m.q.front());
                    mpop();
                } else
                    VF_CHECK(v == T(99), "pop-touch", "failed pop changed its output");
                break;
            }
            case 2: {
                vf::op("pop()");
                bool got = b.pop();
                VF_CHECK(got == !m.q.empty(), "pop-result", "pop() returned %d with %zu held", got, m.q.size());
                if (got) mpop();
                break;
            }
            case 3:
            case 4: {
                size_t len = r.below(std::min<size_t>(cap, m.q.size() + 2) + 2);
                vf::op("bulkpop(%zu)", len);
                std::unique_ptr<T[]> out(new T[len]());
                size_t got = b.pop(out.get(), len);
                size_t want = len <= m.q.size() ? len : 0;
                VF_CHECK(got == want, "bulkpop-result", "bulk pop(%zu) returned %zu with %zu held", len, got, m.q.size());
                for (size_t k = 0; k < want; ++k) {
                    VF_CHECK(out[k] == m.q.front(), "bulkpop-value", "bulk pop element %zu wrong", k);
                    mpop();
                }
                if (len > m.q.size() + want) VF_EV("bulkpop.refused");
                if (want) VF_EV("bulkpop.ok");
                break;
            }
            case 5: {
                size_t k = r.below(m.q.size() + 3);
                vf::op("drop_last(%zu)", k);
                size_t want = k ? std::min(k, m.q.size()) : m.q.size();
                size_t before = b.overrun_space();
                size_t got = k || r.chance(1, 2) ? b.drop_last(k) : b.drop_last();
                VF_CHECK(got == want, "drop-last-result", "drop_last(%zu) returned %zu with %zu held", k, got, m.q.size());
                m.q.erase(m.q.end() - static_cast<long>(want), m.q.end());
                m.dropped = true;
                VF_CHECK(b.overrun_space() <= before, "overrun-grew", "drop_last raised the overrun figure");
                VF_EV("drop_last");
                break;
            }
            case 6: {
                size_t k = r.below(m.q.size() + 3);
                vf::op("drop_first(%zu)", k);
                size_t want = k ? std::min(k, m.q.size()) : m.q.size();
                size_t before = b.overrun_space();
                size_t got = k || r.chance(1, 2) ? b.drop_first(k) : b.drop_first();
                VF_CHECK(got == want, "drop-first-result", "drop_first(%zu) returned %zu with %zu held", k, got, m.q.size());
                m.q.erase(m.q.begin(), m.q.begin() + static_cast<long>(want));
                m.dropped = true;
                VF_CHECK(b.overrun_space() <= before, "overrun-grew", "drop_first raised the overrun figure");
                VF_EV("drop_first");
                break;
            }
            default:
                if (r.chance(1, 2)) {
                    vf::op("clear");
                    b.clear();
                    m.q.clear();
                    m.dropped = true;
                    VF_EV("clear");
                }
            }
        }
        compare(b, m, r);
        if (m.q.size() == cap) saw_full = true;
        if (pushed > cap && !m.q.empty()) saw_wrap = true;
        vf::state(vf::mix(cap * 131 + m.q.size()) ^ vf::mix(pushed % cap) ^ vf::mix(m.overruns > 3 ? 3 : m.overruns));
    }
    if (saw_full && saw_wrap) vf::nontrivial();
}

VF_SCENARIO(int_elements, 1.0) { run<int>(r, r.chance(1, 8) ? 1 : static_cast<size_t>(r.range(1, 9))); }
VF_SCENARIO(byte_elements, 0.3) { run<uint8_t>(r, static_cast<size_t>(r.range(1, 40))); }
VF_SCENARIO(wide_elements, 0.3) { run<long long>(r, static_cast<size_t>(r.range(1, 5))); }

// sizes around the limits of narrower counters
VF_SCENARIO(large, 0.02) {
    size_t base = r.pick<size_t>({256, 256, 1000, 32768, 65536, 65536});
    run<uint16_t>(r, base + static_cast<size_t>(r.range(-2, 3)));
    VF_EV("large");
}
// an owning element is copied in and out unharmed, and its references are accounted for
VF_SCENARIO(owning_elements, 0.2) {
    using P = std::shared_ptr<int>;
    size_t cap = static_cast<size_t>(r.range(1, 6));
    RingBuffer<P> b(cap);
    std::deque<P> m;
    int next = 0;
    vf::op("cap=%zu owning", cap);
    for (int i = 0; i < 40; ++i) {
        if (r.chance(3, 5)) {
            bool roll = r.chance(1, 2);
            auto p = std::make_shared<int>(next++);
            vf::op("push %d roll=%d", *p, roll);
            bool ok = b.push(p, roll);
            if (m.size() == cap && roll) m.pop_front(), m.push_back(p);
            else if (m.size() < cap) m.push_back(p);
            else VF_CHECK(!ok, "owning-push", "push on a full buffer accepted");
        } else {
            P out;
            vf::op("pop");
            bool ok = b.pop(out);
            VF_CHECK(ok == !m.empty(), "owning-pop", "pop result wrong");
            if (ok) {
                VF_CHECK(out == m.front(), "owning-value", "popped another element");
                m.pop_front();
            }
        }
        for (size_t k = 0; k < m.size(); ++k) {
            P v;
            VF_CHECK(b.peek_at(v, k) && v == m[k], "owning-content", "element %zu differs", k);
        }
        if (m.size() == cap) vf::nontrivial();
    }
}

// a long-lived buffer: many laps around the storage
VF_SCENARIO(many_laps, 0.01) {
    size_t cap = static_cast<size_t>(r.range(1, 300));
    RingBuffer<uint32_t> b(cap);
    std::deque<uint32_t> m;
    uint32_t in = 0;
    vf::op("cap=%zu laps seed=%llu", cap, (unsigned long long)r.s);
    const int laps = r.chance(1, 10) ? 300000 : 20000; // now and then past 65536 operations
    for (int i = 0; i < laps; ++i) {
        if (r.chance(1, 2)) {
            bool roll = r.chance(1, 20);
            bool ok = b.push(in, roll);
            if (m.size() == cap && roll) m.pop_front();
            bool want = m.size() < cap;
            VF_CHECK(ok == want, "laps-push", "push %u result %d", in, ok);
            if (want) m.push_back(in);
            ++in;
        } else {
            uint32_t v = 0;
            bool ok = b.pop(v);
            VF_CHECK(ok == !m.empty(), "laps-pop", "pop result %d with %zu", ok, m.size());
            if (ok) {
                VF_CHECK(v == m.front(), "laps-value", "popped %u expected %u", v, m.front());
                m.pop_front();
            }
        }
        VF_CHECK(b.used_space() == m.size() && b.free_space() == cap - m.size(), "laps-size", "size drifted");
    }
    vf::nontrivial();
    VF_EV("laps");
}
