// C08: Array against a std::vector model through every accessor and iterator.
#include "vf.hpp"
#include "spine/core/debugging.hpp"
#include "spine/structure/array.hpp"

using spn::structure::Array;

namespace {
struct Rec {
    int32_t v;
    int16_t w;
};
template<typename T>
struct Tr {
    static T make(int v) { return static_cast<T>(v); }
    static int val(const T& t) { return static_cast<int>(t); }
};
template<>
struct Tr<Rec> {
    static Rec make(int v) { return Rec{v, static_cast<int16_t>(v)}; }
    static int val(const Rec& t) {
        VF_CHECK(static_cast<int16_t>(t.v) == t.w, "torn", "element is a mixture");
        return t.v;
    }
};
template<>
struct Tr<std::shared_ptr<int>> {
    static std::shared_ptr<int> make(int v) { return v ? std::make_shared<int>(v) : nullptr; }
    static int val(const std::shared_ptr<int>& p) { return p ? *p : 0; }
};
using M = std::vector<int>;

template<typename T, typename B, typename E>
void walk(B begin, E end, const M& m, bool rev, const char* key) {
    size_t k = 0, n = m.size();
    for (auto it = begin; it != end; ++it) {
        VF_CHECK(k < n, key, "%s: iteration runs past the last of %zu elements", key, n);
        int want = rev ? m[n - 1 - k] : m[k];
        VF_CHECK(Tr<T>::val(*it) == want, key, "%s: element %zu of %zu is %d, expected %d", key, k, n, Tr<T>::val(*it), want);
        ++k;
    }
    VF_CHECK(k == n, key, "%s: iteration visited %zu of %zu elements", key, k, n);
    if (n == 0) {
        VF_CHECK(begin == end && !(begin != end), key, "%s: begin and end of nothing differ", key);
        return;
    }
    // post-increment and both decrements
    auto it = begin;
    for (k = 0; k < n; ++k) {
        auto old = it++;
        VF_CHECK(Tr<T>::val(*old) == (rev ? m[n - 1 - k] : m[k]), key, "%s: post-increment returned the wrong position", key);
    }
    VF_CHECK(it == end && !(it != end), key, "%s: post-increment did not reach the end", key);
    for (k = n; k-- > 0;) {
        auto& same = --it;
        VF_CHECK(&same == &it && Tr<T>::val(*it) == (rev ? m[n - 1 - k] : m[k]), key, "%s: pre-decrement wrong at %zu", key, k);
    }
    VF_CHECK(it == begin, key, "%s: decrementing did not lead back to the start", key);
    it = begin;
    auto& same = ++it;
    VF_CHECK(&same == &it, key, "%s: pre-increment does not return the iterator", key);
    auto old = it--;
    VF_CHECK(it == begin && (n == 1 ? old == end : Tr<T>::val(*old) == (rev ? m[n - 2] : m[1])), key, "%s: post-decrement wrong", key);
    // random walk
    VF_EV("iterator.walk");
}

template<typename T>
void compare(Array<T>& a, const M& m) {
    const Array<T>& c = a;
    VF_CHECK(a.size() == m.size() && a.max_size() == m.size() && a.empty() == m.empty(), "size", "size %zu max %zu empty %d, expected %zu", a.size(),
             a.max_size(), a.empty(), m.size());
    for (size_t i = 0; i < m.size(); ++i) {
        VF_CHECK(Tr<T>::val(a[i]) == m[i], "index", "[%zu] is %d, expected %d", i, Tr<T>::val(a[i]), m[i]);
        VF_CHECK(Tr<T>::val(c[i]) == m[i] && Tr<T>::val(a.at(i)) == m[i] && Tr<T>::val(c.at(i)) == m[i], "at", "at(%zu) wrong", i);
        VF_CHECK(a.data() + i == &a[i] && c.data() + i == &c[i], "data", "data wrong at %zu", i);
    }
    if (!m.empty()) {
        VF_CHECK(Tr<T>::val(a.front()) == m.front(), "front", "front is %d, expected %d", Tr<T>::val(a.front()), m.front());
        VF_CHECK(Tr<T>::val(a.back()) == m.back(), "back", "back is %d, expected %d", Tr<T>::val(a.back()), m.back());
    }
    walk<T>(a.begin(), a.end(), m, false, "begin");
    walk<T>(c.begin(), c.end(), m, false, "const-begin");
    walk<T>(c.cbegin(), c.cend(), m, false, "cbegin");
    walk<T>(a.rbegin(), a.rend(), m, true, "rbegin");
    walk<T>(c.rbegin(), c.rend(), m, true, "const-rbegin");
    walk<T>(c.crbegin(), c.crend(), m, true, "crbegin");
    vf::state(vf::hash_bytes(m.data(), m.size() * sizeof(int)));
}

template<typename T>
struct Box {
    std::unique_ptr<uint8_t[]> buf; // byte storage, behind guard bytes
    size_t buf_len = 0;
    struct Ext {
        T pre;
        T s[5];
        T post;
    };
    std::unique_ptr<Ext> ext;
    std::unique_ptr<Array<T>> a;
    M m;
};

template<typename T>
void build(Box<T>& x, vf::Rng& r) {
    constexpr bool plain = std::is_trivially_copyable_v<T>;
    switch (r.below(plain ? 6 : 5)) {
    case 0: {
        size_t n = r.below(10);
        vf::op("Array(%zu)", n);
        x.a = std::make_unique<Array<T>>(n);
        x.m.assign(n, 0);
        for (size_t i = 0; i < n; ++i) VF_CHECK(Tr<T>::val((*x.a)[i]) == 0, "not-zeroed", "a fresh array is not zeroed");
        break;
    }
    case 1: {
        size_t n = r.below(10);
        int v = static_cast<int>(r.range(1, 100));
        vf::op("Array(%zu,%d)", n, v);
        x.a = std::make_unique<Array<T>>(n, Tr<T>::make(v));
        x.m.assign(n, v);
        break;
    }
    case 2: {
        vf::op("Array{9,8,7}");
        std::initializer_list<T> l{Tr<T>::make(9), Tr<T>::make(8), Tr<T>::make(7)};
        x.a = std::make_unique<Array<T>>(l);
        x.m = {9, 8, 7};
        break;
    }
    case 3: {
        vf::op("Array(move)");
        Array<T> t(size_t(4), Tr<T>::make(3));
        t[1] = Tr<T>::make(5);
        x.a = std::make_unique<Array<T>>(std::move(t));
        x.m = {3, 5, 3, 3};
        compare(t, {}); // nothing is left in there
        break;
    }
    case 4: {
        vf::op("Array(store)");
        x.ext = std::make_unique<typename Box<T>::Ext>();
        x.ext->pre = x.ext->post = Tr<T>::make(111);
        for (int i = 0; i < 5; ++i) x.ext->s[i] = Tr<T>::make(i + 1);
        x.a = std::make_unique<Array<T>>(x.ext->s);
        x.m = {1, 2, 3, 4, 5};
        VF_CHECK(x.a->data() == x.ext->s, "store", "the given storage is not used");
        VF_EV("external.store");
        break;
    }
    default: {
        size_t len = r.below(6) * sizeof(T) + r.below(sizeof(T));
        vf::op("Array(bytes %zu)", len);
        x.buf.reset(new uint8_t[len]);
        x.buf_len = len;
        memset(x.buf.get(), 0xA5, len);
        x.a = std::make_unique<Array<T>>(x.buf.get(), static_cast<typename Array<T>::Size>(len));
        x.m.assign(len / sizeof(T), 0);
        for (size_t i = len / sizeof(T) * sizeof(T); i < len; ++i)
            VF_CHECK(x.buf[i] == 0xA5, "buffer-tail", "bytes that belong to no element were changed");
        VF_EV("byte.buffer");
    }
    }
}

template<typename T>
void guards(Box<T>& x) {
    if (x.ext) VF_CHECK(Tr<T>::val(x.ext->pre) == 111 && Tr<T>::val(x.ext->post) == 111, "outside", "memory next to the storage was changed");
    for (size_t i = x.buf_len / sizeof(T) * sizeof(T); i < x.buf_len; ++i) VF_CHECK(x.buf[i] == 0xA5, "outside", "bytes behind the last element were changed");
}

template<typename T>
void run(vf::Rng& r) {
    size_t heap0 = vf::heap();
    {
        Box<T> x, y;
        build(x, r);
        build(y, r);
        compare(*x.a, x.m);
        compare(*y.a, y.m);
        int n = static_cast<int>(r.range(4, 30));
        bool swapped = false, stored = false;
        for (int i = 0; i < n; ++i) {
            int v = static_cast<int>(r.range(1, 100));
            size_t at = x.m.empty() ? 0 : r.below(x.m.size());
            switch (r.below(10)) {
            case 0:
            case 1:
            case 2:
                if (x.m.empty()) break;
                vf::op("store [%zu]=%d", at, v);
                switch (r.below(6)) {
                case 0: (*x.a)[at] = Tr<T>::make(v); break;
                case 1: x.a->at(at) = Tr<T>::make(v); break;
                case 2: x.a->data()[at] = Tr<T>::make(v); break;
                case 3: {
                    auto it = x.a->begin();
                    for (size_t k = 0; k < at; ++k) it++;
                    *it = Tr<T>::make(v);
                    break;
                }
                case 4: {
                    auto it = x.a->rbegin();
                    for (size_t k = x.m.size() - 1; k > at; --k) ++it;
                    *it = Tr<T>::make(v);
                    break;
                }
                default: {
                    if (r.chance(1, 2)) {
                        at = 0;
                        x.a->front() = Tr<T>::make(v);
                    } else {
                        at = x.m.size() - 1;
                        x.a->back() = Tr<T>::make(v);
                    }
                }
                }
                x.m[at] = v;
                stored = true;
                break;
            case 3:
                vf::op("fill %d", v);
                x.a->fill(Tr<T>::make(v));
                x.m.assign(x.m.size(), v);
                VF_EV("fill");
                break;
            case 4: {
                vf::op("assign list");
                // what the array used before (foreign storage included) stays as it was
                M before;
                if (x.ext)
                    for (auto& e : x.ext->s) before.push_back(Tr<T>::val(e));
                switch (r.below(3)) {
                case 0:
                    *x.a = {Tr<T>::make(v), Tr<T>::make(2)};
                    x.m = {v, 2};
                    break;
                case 1:
                    *x.a = {Tr<T>::make(v), Tr<T>::make(4), Tr<T>::make(6), Tr<T>::make(8), Tr<T>::make(1), Tr<T>::make(3), Tr<T>::make(5)};
                    x.m = {v, 4, 6, 8, 1, 3, 5};
                    break;
                default:
                    *x.a = {Tr<T>::make(v)};
                    x.m = {v};
                }
                VF_EV("assign.list");
                break;
            }
            case 5:
            case 6: {
                vf::op("swap");
                T* px = x.a->data();
                T* py = y.a->data();
                if (r.chance(1, 2))
                    x.a->swap(*y.a);
                else
                    y.a->swap(*x.a);
                std::swap(x.m, y.m);
                VF_CHECK(x.a->data() == py && y.a->data() == px, "swap-storage", "swap did not exchange the storage");
                swapped = true;
                VF_EV("swap");
                break;
            }
            case 7: {
                vf::op("x=move(y)");
                *x.a = std::move(*y.a);
                x.m = y.m;
                compare(*x.a, x.m);
                compare(*y.a, {});
                // foreign storage stays where it was built: keep it until both boxes go, so build only owned ones now
                y.a = std::make_unique<Array<T>>(size_t(3), Tr<T>::make(v));
                y.m.assign(3, v);
                VF_EV("move.assign");
                break;
            }
            case 8: {
                vf::op("view(copy)");
                // a copy is a view: same elements, and going away does not free them
                {
                    Array<T> c(*x.a);
                    compare(c, x.m);
                    Array<T> d(r.below(4));
                    d = c; // the view takes the place of elements of its own
                    compare(d, x.m);
                    d = *x.a;
                    compare(d, x.m);
                    if (!x.m.empty()) {
                        d[at] = Tr<T>::make(v);
                        x.m[at] = v;
                    }
                }
                {
                    auto& self = *x.a;
                    if (r.chance(1, 2))
                        *x.a = self;
                    else
                        *x.a = std::move(self);
                    VF_EV("self.assign");
                }
                VF_EV("copy.view");
                break;
            }
            default: std::swap(x.a, y.a); std::swap(x.m, y.m);
            }
            compare(*x.a, x.m);
            compare(*y.a, y.m);
            guards(x);
            guards(y);
        }
        if (swapped && stored) vf::nontrivial();
        // the arrays go before the storage that was lent to them
        x.a.reset();
        y.a.reset();
        guards(x);
        guards(y);
    }
    VF_CHECK(vf::heap() == heap0, "heap", "heap use changed from %zu to %zu bytes", heap0, vf::heap());
}
} // namespace

VF_SCENARIO(array_history, 1.0) {
    switch (r.below(6)) {
    case 0: return run<uint8_t>(r);
    case 1: return run<int>(r);
    case 2: return run<double>(r);
    case 3: return run<Rec>(r);
    case 4: return run<int16_t>(r);
    default: return run<std::shared_ptr<int>>(r);
    }
}
VF_SCENARIO(array_large, 0.004) {
    // around the widths a narrow index or length would have
    static const size_t around[] = {127, 128, 255, 256, 257, 300, 1024, 32768, 65535, 65536, 65537};
    size_t n = around[r.below(11)], n2 = around[r.below(11)];
    vf::op("large: Array(%zu) Array(%zu,9)", n, n2);
    auto go = [&](auto tag) {
        using T = decltype(tag);
        Array<T> a(n), b(n2, Tr<T>::make(9));
        M am(n, 0), bm(n2, 9);
        compare(b, bm);
        for (size_t i = 0; i < n; ++i) {
            am[i] = static_cast<int>((i * 7 + i / 256) % 100);
            a[i] = Tr<T>::make(am[i]);
        }
        compare(a, am);
        a.swap(b);
        compare(a, bm);
        compare(b, am);
        int v = static_cast<int>(r.range(1, 100));
        b.fill(Tr<T>::make(v));
        am.assign(n, v);
        size_t at = n - 1 - r.below(2);
        b.at(at) = Tr<T>::make(77);
        am[at] = 77;
        compare(b, am);
        a = std::move(b);
        compare(a, am);
        VF_EV("large");
        if (n > 65535) VF_EV("beyond.16bit");
    };
    switch (r.below(3)) {
    case 0: return go(int{});
    case 1: return go(uint8_t{});
    default: return go(std::shared_ptr<int>{});
    }
}

template<typename T, size_t... I>
static void long_list(std::index_sequence<I...>) {
    M m{static_cast<int>(I * 7 % 100)...};
    vf::op("list of %zu", m.size());
    Array<T> a{Tr<T>::make(static_cast<int>(I * 7 % 100))...};
    compare(a, m);
    Array<T> b(3);
    b = {Tr<T>::make(static_cast<int>(I * 7 % 100))...};
    compare(b, m);
    VF_EV("long.list");
}
VF_SCENARIO(array_long_list, 0.004) {
    switch (r.below(3)) {
    case 0: return long_list<int>(std::make_index_sequence<255>());
    case 1: return long_list<uint8_t>(std::make_index_sequence<256>());
    default: return long_list<int>(std::make_index_sequence<600>());
    }
}
