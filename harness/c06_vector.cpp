// C06: Vector and Stack against an ideal sequence (std::deque), all views compared after every operation.
#include "vf.hpp"
#include "spine/structure/stack.hpp"
#include "spine/structure/vector.hpp"

using spn::structure::Stack;
using spn::structure::Vector;

namespace {
struct Wide {
    int64_t a;
    int32_t v;
    uint8_t c[11];
};
template<typename T>
struct Tr {
    static T make(int v) { return static_cast<T>(v); }
    static int val(const T& t) { return static_cast<int>(t); }
    static int norm(int v) { return static_cast<int>(static_cast<T>(v)); }
};
template<>
struct Tr<Wide> {
    static Wide make(int v) {
        Wide w{};
        w.a = -v;
        w.v = v;
        for (auto& x : w.c) x = static_cast<uint8_t>(v);
        return w;
    }
    static int val(const Wide& w) {
        VF_CHECK(w.a == -w.v, "torn-element", "element is a mixture of two elements");
        for (auto x : w.c) VF_CHECK(x == static_cast<uint8_t>(w.v), "torn-element", "element is a mixture of two elements");
        return w.v;
    }
    static int norm(int v) { return v; }
};
template<>
struct Tr<std::shared_ptr<int>> {
    static std::shared_ptr<int> make(int v) { return std::make_shared<int>(v); }
    static int val(const std::shared_ptr<int>& p) {
        VF_CHECK(p != nullptr, "lost-element", "an element of the sequence is null");
        return *p;
    }
    static int norm(int v) { return v; }
};

using M = std::deque<int>;

/// how often a large vector is compared as a whole: one operation in g_sparse
vf::u64 g_sparse = 1;

template<typename T>
void compare(Vector<T>& v, const M& m, size_t cap) {
    const Vector<T>& c = v;
    VF_CHECK(v.size() == m.size(), "size", "size %zu, expected %zu", v.size(), m.size());
    VF_CHECK(v.max_size() == cap, "max-size", "max_size %zu, expected %zu", v.max_size(), cap);
    VF_CHECK(v.empty() == m.empty(), "empty", "empty() is %d with %zu elements", v.empty(), m.size());
    VF_CHECK(v.full() == (m.size() == cap), "full", "full() is %d with %zu of %zu elements", v.full(), m.size(), cap);
    for (size_t i = 0; i < m.size(); ++i) {
        VF_CHECK(Tr<T>::val(v[i]) == m[i], "index", "[%zu] of %zu is %d, expected %d", i, m.size(), Tr<T>::val(v[i]), m[i]);
        VF_CHECK(Tr<T>::val(c[i]) == m[i], "const-index", "const [%zu] wrong", i);
        VF_CHECK(Tr<T>::val(v.at(i)) == m[i], "at", "at(%zu) wrong", i);
        VF_CHECK(Tr<T>::val(v.data()[i]) == m[i] && Tr<T>::val(c.data()[i]) == m[i], "data", "data()[%zu] wrong", i);
    }
    size_t k = 0;
    for (auto& e : v) {
        VF_CHECK(k < m.size() && Tr<T>::val(e) == m[k], "iterate", "forward iteration wrong at %zu of %zu", k, m.size());
        ++k;
    }
    VF_CHECK(k == m.size(), "iterate", "forward iteration visited %zu of %zu", k, m.size());
    k = 0;
    for (const auto& e : c) {
        VF_CHECK(k < m.size() && Tr<T>::val(e) == m[k], "const-iterate", "const iteration wrong at %zu of %zu", k, m.size());
        ++k;
    }
    VF_CHECK(k == m.size(), "const-iterate", "const iteration visited %zu of %zu", k, m.size());
    k = 0;
    for (auto it = c.cbegin(); it != c.cend(); it++) {
        VF_CHECK(k < m.size() && Tr<T>::val(*it) == m[k], "citerate", "cbegin iteration wrong at %zu of %zu", k, m.size());
        ++k;
    }
    VF_CHECK(k == m.size(), "citerate", "cbegin iteration visited %zu of %zu", k, m.size());
    k = 0;
    for (auto it = v.rbegin(); it != v.rend(); ++it) {
        VF_CHECK(k < m.size() && Tr<T>::val(*it) == m[m.size() - 1 - k], "reverse", "reverse iteration wrong at %zu of %zu", k, m.size());
        ++k;
    }
    VF_CHECK(k == m.size(), "reverse", "reverse iteration visited %zu of %zu", k, m.size());
    k = 0;
    for (auto it = c.rbegin(); it != c.rend(); it++) {
        VF_CHECK(k < m.size() && Tr<T>::val(*it) == m[m.size() - 1 - k], "const-reverse", "const reverse iteration wrong at %zu of %zu", k, m.size());
        ++k;
    }
    VF_CHECK(k == m.size(), "const-reverse", "const reverse iteration visited %zu of %zu", k, m.size());
    k = 0;
    for (auto it = c.crbegin(); it != c.crend(); ++it) {
        VF_CHECK(k < m.size() && Tr<T>::val(*it) == m[m.size() - 1 - k], "creverse", "crbegin iteration wrong at %zu of %zu", k, m.size());
        ++k;
    }
    VF_CHECK(k == m.size(), "creverse", "crbegin iteration visited %zu of %zu", k, m.size());
    if (!m.empty()) {
        VF_CHECK(Tr<T>::val(v.front()) == m.front() && Tr<T>::val(v.peek_front()) == m.front(), "front", "front wrong");
        VF_CHECK(Tr<T>::val(v.back()) == m.back() && Tr<T>::val(v.peek_back()) == m.back(), "back", "back wrong");
    }
    vf::u64 h = cap * 131 + m.size();
    vf::state(h);
}

/// run f; where the sequence does not allow it, debug builds may raise an assertion and nothing may change
template<typename F>
void guarded(bool allowed, F&& f) {
    auto e = vf::catching(f);
    if (allowed) {
        VF_CHECK(!e, "assertion-on-legal-operation", "a legal operation raised %s: %s", e->type.c_str(), e->msg.c_str());
    } else if (vf::kDebug && e)
        VF_EV("overload.assertion");
}

template<typename T>
void drive(Vector<T>& v, M& m, size_t cap, vf::Rng& r, int n) {
    static int next;
    int bias = static_cast<int>(r.range(2, 8));
    bool popped_front = false, grown_after = false, overload = false;
    for (int i = 0; i < n; ++i) {
        bool grow = r.chance(static_cast<vf::u64>(bias), 10);
        next = (next + 1) % 120;
        int x = Tr<T>::norm(next + 1);
        bool full = m.size() == cap;
        if (grow) {
            if (full) overload = true;
            switch (r.below(7)) {
            case 6: {
                // one of the vector's own elements, or the one just popped, is stored again
                if (m.empty()) break;
                size_t j = r.below(m.size()), idx = r.below(m.size() + 1);
                int y = m[j];
                switch (r.below(7)) {
                case 0:
                    vf::op("push_back(v[%zu])", j);
                    guarded(!full, [&] { v.push_back(v[j]); });
                    if (!full) m.push_back(y);
                    break;
                case 1:
                    vf::op("push_front(v[%zu])", j);
                    guarded(!full, [&] { v.push_front(v[j]); });
                    if (!full) m.push_front(y);
                    break;
                case 2:
                    vf::op("insert(%zu,v[%zu])", idx, j);
                    guarded(!full, [&] { v.insert(idx, v[j]); });
                    if (!full) m.insert(m.begin() + static_cast<long>(idx), y);
                    break;
                case 3:
                    vf::op("push_back(pop_front())");
                    guarded(true, [&] { v.push_back(v.pop_front()); });
                    m.push_back(m.front());
                    m.pop_front();
                    popped_front = true;
                    VF_EV("rotate");
                    break;
                case 4:
                    vf::op("push_front(pop_back())");
                    guarded(true, [&] { v.push_front(v.pop_back()); });
                    m.push_front(m.back());
                    m.pop_back();
                    VF_EV("rotate");
                    break;
                case 5:
                    vf::op("emplace_back(pop_front())");
                    guarded(true, [&] { v.emplace_back(v.pop_front()); });
                    m.push_back(m.front());
                    m.pop_front();
                    popped_front = true;
                    break;
                default:
                    vf::op("emplace_front(remove(%zu))", j);
                    guarded(true, [&] { v.emplace_front(v.remove(j)); });
                    m.erase(m.begin() + static_cast<long>(j));
                    m.push_front(y);
                }
                full = full && m.size() == cap;
                VF_EV("own.element");
                break;
            }
            case 0:
            case 1: {
                vf::op("push_back(%d)", x);
                const T item = Tr<T>::make(x);
                guarded(!full, [&] { v.push_back(item); });
                if (!full) m.push_back(x);
                break;
            }
            case 2: {
                vf::op("emplace_back(%d)", x);
                guarded(!full, [&] { v.emplace_back(Tr<T>::make(x)); });
                if (!full) m.push_back(x);
                break;
            }
            case 3: {
                vf::op("push_front(%d)", x);
                const T item = Tr<T>::make(x);
                guarded(!full, [&] { v.push_front(item); });
                if (!full) m.push_front(x);
                VF_EV("push_front");
                break;
            }
            case 4: {
                vf::op("emplace_front(%d)", x);
                guarded(!full, [&] { v.emplace_front(Tr<T>::make(x)); });
                if (!full) m.push_front(x);
                break;
            }
            default: {
                size_t idx = r.below(m.size() + (r.chance(1, 5) ? 4 : 1)); // beyond the end means at the end
                vf::op("insert(%zu,%d)", idx, x);
                const T item = Tr<T>::make(x);
                guarded(!full, [&] { v.insert(idx, item); });
                if (!full) m.insert(m.begin() + static_cast<long>(std::min(idx, m.size())), x);
                if (idx > 0 && idx < m.size()) VF_EV("insert.middle");
                break;
            }
            }
            if (full) VF_EV("store.on.full");
            if (popped_front && !full) grown_after = true;
        } else {
            switch (r.below(12)) {
            case 0:
            case 1:
            case 2: {
                vf::op("pop_front");
                if (m.empty()) {
                    if (cap == 0) break;
                    guarded(false, [&] { const T gone = v.pop_front(); });
                    VF_EV("pop.on.empty");
                    break;
                }
                int got = -1;
                guarded(true, [&] {
                    T t = v.pop_front();
                    got = Tr<T>::val(t);
                });
                VF_CHECK(got == m.front(), "pop-front", "pop_front gave %d, expected %d", got, m.front());
                m.pop_front();
                popped_front = true;
                VF_EV("pop_front");
                break;
            }
            case 3:
            case 4: {
                vf::op("pop_back");
                if (m.empty()) {
                    if (cap == 0) break;
                    guarded(false, [&] { const T gone = v.pop_back(); });
                    break;
                }
                int got = -1;
                guarded(true, [&] {
                    T t = v.pop_back();
                    got = Tr<T>::val(t);
                });
                VF_CHECK(got == m.back(), "pop-back", "pop_back gave %d, expected %d", got, m.back());
                m.pop_back();
                break;
            }
            case 5:
            case 6:
            case 7: {
                if (m.empty()) break;
                size_t idx = r.below(m.size());
                vf::op("remove(%zu)", idx);
                int got = -1;
                guarded(true, [&] {
                    T t = v.remove(idx);
                    got = Tr<T>::val(t);
                });
                VF_CHECK(got == m[idx], "remove", "remove(%zu) gave %d, expected %d", idx, got, m[idx]);
                m.erase(m.begin() + static_cast<long>(idx));
                if (idx > 0 && idx < m.size()) VF_EV("remove.middle");
                if (idx == 0) popped_front = true;
                break;
            }
            case 8: {
                if (!r.chance(1, 4)) break;
                vf::op("clear");
                v.clear();
                m.clear();
                VF_EV("clear");
                break;
            }
            case 9: {
                if (!r.chance(1, 4)) break;
                vf::op("fill(%d)", x);
                v.fill(Tr<T>::make(x));
                m.assign(cap, x);
                VF_EV("fill");
                break;
            }
            case 10: {
                if (m.empty()) break;
                size_t idx = r.below(m.size());
                vf::op("[%zu]=%d", idx, x);
                switch (r.below(4)) {
                case 0: v[idx] = Tr<T>::make(x); break;
                case 1: v.at(idx) = Tr<T>::make(x); break;
                case 2: v.data()[idx] = Tr<T>::make(x); break;
                default: {
                    auto it = v.begin();
                    for (size_t k = 0; k < idx; ++k) ++it;
                    *it = Tr<T>::make(x);
                }
                }
                m[idx] = x;
                break;
            }
            default: {
                if (!r.chance(1, 3)) break;
                if (m.empty()) break;
                vf::op("front/back=%d", x);
                if (r.chance(1, 2)) {
                    v.front() = Tr<T>::make(x);
                    m.front() = x;
                } else {
                    v.back() = Tr<T>::make(x);
                    m.back() = x;
                }
            }
            }
        }
        if (g_sparse == 1 || r.below(g_sparse) == 0) compare(v, m, cap);
    }
    compare(v, m, cap);
    if (grown_after && overload) vf::nontrivial();
}

template<typename T>
void owned(vf::Rng& r) {
    M m;
    int n = static_cast<int>(r.range(5, vf::thorough() ? 150 : 70));
    switch (r.below(6)) {
    case 0:
    case 1:
    case 2: {
        size_t cap = r.below(12);
        vf::op("Vector(%zu)", cap);
        Vector<T> v(cap);
        compare(v, m, cap);
        drive(v, m, cap, r, n);
        break;
    }
    case 3: {
        size_t cap = r.range(1, 9);
        vf::op("Vector(%zu,7)", cap);
        Vector<T> v(cap, Tr<T>::make(7));
        m.assign(cap, 7);
        compare(v, m, cap);
        drive(v, m, cap, r, n);
        break;
    }
    case 4: {
        vf::op("Vector{1,2,3,4}");
        Vector<T> v{Tr<T>::make(1), Tr<T>::make(2), Tr<T>::make(3), Tr<T>::make(4)};
        m = {1, 2, 3, 4};
        compare(v, m, 4);
        drive(v, m, 4, r, n);
        break;
    }
    default: {
        // two vectors that exchange and inherit each other's state half way
        size_t ca = r.range(1, 8), cb = r.range(1, 8);
        Vector<T> a(ca), b(cb);
        M mb;
        vf::op("A(%zu)", ca);
        drive(a, m, ca, r, n / 3);
        vf::op("B(%zu)", cb);
        drive(b, mb, cb, r, n / 3);
        switch (r.below(4)) {
        case 0:
            vf::op("swap");
            a.swap(b);
            std::swap(m, mb);
            std::swap(ca, cb);
            VF_EV("swap");
            compare(b, mb, cb);
            break;
        case 1:
            vf::op("a=move(b)");
            a = std::move(b);
            m = mb;
            ca = cb;
            compare(b, {}, 0); // nothing is left in there
            VF_EV("move.assign");
            break;
        case 2: {
            vf::op("c(move(a))");
            Vector<T> c(std::move(a));
            compare(c, m, ca);
            compare(a, {}, 0);
            drive(c, m, ca, r, n / 3);
            VF_EV("move.construct");
            return;
        }
        default:
            vf::op("a={5,6}");
            a = {Tr<T>::make(5), Tr<T>::make(6)};
            m = {5, 6};
            ca = 2;
            VF_EV("list.assign");
        }
        compare(a, m, ca);
        drive(a, m, ca, r, n / 3);
    }
    }
}

template<typename T, size_t CAP>
void external(vf::Rng& r) {
    struct Block {
        T pre[3];
        T store[CAP];
        T post[3];
    };
    auto blk = std::make_unique<Block>();
    for (size_t i = 0; i < 3; ++i) blk->pre[i] = blk->post[i] = Tr<T>::make(121 + static_cast<int>(i));
    M m;
    size_t size = r.below(CAP + 1);
    for (size_t i = 0; i < CAP; ++i) blk->store[i] = Tr<T>::make(static_cast<int>(i) + 1);
    for (size_t i = 0; i < size; ++i) m.push_back(static_cast<int>(i) + 1);
    vf::op("external cap=%zu size=%zu", CAP, size);
    {
        Vector<T> v(blk->store, size);
        compare(v, m, CAP);
        drive(v, m, CAP, r, static_cast<int>(r.range(5, 60)));
    }
    for (size_t i = 0; i < 3; ++i)
        VF_CHECK(Tr<T>::val(blk->pre[i]) == 121 + static_cast<int>(i) && Tr<T>::val(blk->post[i]) == 121 + static_cast<int>(i), "outside-capacity",
                 "memory next to the vector's storage was changed");
    VF_EV("external.storage");
}

template<typename T>
void stack(vf::Rng& r) {
    size_t cap = r.range(1, 10);
    vf::op("Stack(%zu)", cap);
    Stack<T> s(cap);
    M m;
    int n = static_cast<int>(r.range(5, 60));
    int bias = static_cast<int>(r.range(3, 8));
    bool over = false;
    for (int i = 0; i < n; ++i) {
        int x = i % 100 + 1;
        bool full = m.size() == cap;
        if (r.chance(static_cast<vf::u64>(bias), 10)) {
            over |= full;
            bool emplace = r.chance(1, 3);
            vf::op("%s(%d)", emplace ? "emplace" : "push", x);
            if (emplace)
                guarded(!full, [&] { s.emplace(Tr<T>::make(x)); });
            else {
                T item = Tr<T>::make(x);
                guarded(!full, [&] { s.push(item); });
                VF_CHECK(Tr<T>::val(item) == x, "push-changed-source", "push changed the pushed object");
            }
            if (!full) m.push_back(x);
            if (full) VF_EV("stack.full");
        } else if (!m.empty()) {
            vf::op("pop");
            s.pop();
            m.pop_back();
            VF_EV("stack.pop");
        }
        if (!m.empty() && r.chance(1, 6)) {
            s.top() = Tr<T>::make(x);
            m.back() = x;
        }
        VF_CHECK(s.size() == m.size() && s.empty() == m.empty(), "stack-size", "stack size %zu, expected %zu", s.size(), m.size());
        if (!m.empty()) VF_CHECK(Tr<T>::val(s.top()) == m.back(), "stack-top", "top is %d, expected %d", Tr<T>::val(s.top()), m.back());
    }
    while (!m.empty()) {
        VF_CHECK(Tr<T>::val(s.top()) == m.back(), "stack-order", "not last in, first out");
        s.pop();
        m.pop_back();
    }
    VF_CHECK(s.empty(), "stack-empty", "not empty after popping everything");
    if (over) vf::nontrivial();
}
} // namespace

VF_SCENARIO(vector_owned, 1.0) {
    switch (r.below(5)) {
    case 0: return owned<uint8_t>(r);
    case 1: return owned<int>(r);
    case 2: return owned<int64_t>(r);
    case 3: return owned<Wide>(r);
    default: return owned<std::shared_ptr<int>>(r);
    }
}
VF_SCENARIO(vector_large, 0.004) {
    // around the widths a narrow index or length would have
    static const size_t around[] = {127, 128, 255, 256, 257, 300, 1024, 32768, 65535, 65536, 65537};
    size_t cap = around[r.below(11)];
    vf::op("large: Vector(%zu)", cap);
    struct Reset {
        ~Reset() { g_sparse = 1; }
    } reset;
    g_sparse = 1 + cap / 16;
    auto run = [&](auto tag) {
        using T = decltype(tag);
        Vector<T> v(cap);
        M m;
        size_t fill = cap - r.below(4), drop = r.chance(1, 2) ? 0 : r.below(6);
        for (size_t i = 0; i < fill; ++i) {
            int x = Tr<T>::norm(static_cast<int>((i * 7 + i / 256) % 120));
            v.push_back(Tr<T>::make(x));
            m.push_back(x);
        }
        for (size_t i = 0; i < drop && i < fill; ++i) {
            VF_CHECK(Tr<T>::val(v.pop_front()) == m.front(), "pop-front", "large vector: wrong front");
            m.pop_front();
        }
        compare(v, m, cap);
        drive(v, m, cap, r, 40);
        VF_EV("large");
        if (cap > 65535) VF_EV("beyond.16bit");
    };
    if (r.chance(1, 2))
        run(int{});
    else
        run(Wide{});
}
template<typename T, size_t... I>
static void long_list(vf::Rng& r, std::index_sequence<I...>) {
    M m{static_cast<int>(I * 7 % 120)...};
    vf::op("list of %zu", m.size());
    Vector<T> v{Tr<T>::make(static_cast<int>(I * 7 % 120))...};
    compare(v, m, m.size());
    if (r.chance(1, 2)) {
        Vector<T> w(3);
        w.push_back(Tr<T>::make(1));
        w = {Tr<T>::make(static_cast<int>(I * 7 % 120))...};
        compare(w, m, m.size());
        drive(w, m, m.size(), r, 20);
    } else
        drive(v, m, m.size(), r, 20);
    VF_EV("long.list");
}
VF_SCENARIO(vector_long_list, 0.004) {
    switch (r.below(3)) {
    case 0: return long_list<int>(r, std::make_index_sequence<255>());
    case 1: return long_list<uint8_t>(r, std::make_index_sequence<256>());
    default: return long_list<int>(r, std::make_index_sequence<600>());
    }
}
VF_SCENARIO(vector_external, 0.5) {
    switch (r.below(6)) {
    case 0: return external<uint8_t, 5>(r);
    case 1: return external<int, 1>(r);
    case 2: return external<int, 7>(r);
    case 3: return external<Wide, 3>(r);
    case 4: return external<Wide, 6>(r);
    default: return external<std::shared_ptr<int>, 4>(r);
    }
}
VF_SCENARIO(stack_lifo, 0.3) {
    switch (r.below(4)) {
    case 0: return stack<uint8_t>(r);
    case 1: return stack<int>(r);
    case 2: return stack<Wide>(r);
    default: return stack<std::shared_ptr<int>>(r);
    }
}
