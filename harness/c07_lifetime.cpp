// C07: reference counts of every tracked element and the heap balance, compared with an ownership model after each operation.
#include "vf.hpp"
#include "spine/core/debugging.hpp"
#include "spine/structure/array.hpp"
#include "spine/structure/pool.hpp"
#include "spine/structure/stack.hpp"
#include "spine/structure/vector.hpp"

using spn::structure::Array;
using spn::structure::Pool;
using spn::structure::Stack;
using spn::structure::Vector;

namespace {
struct Obj {
    int id;
    static int alive, destroyed;
    static uint8_t dead[4096];
    explicit Obj(int i) : id(i) { ++alive; }
    Obj(Obj&& o) : id(o.id) {
        o.id = -1;
        ++alive;
    }
    Obj(const Obj&) = delete;
    ~Obj() {
        --alive;
        ++destroyed;
        if (id >= 0) ++dead[id];
    }
};
int Obj::alive, Obj::destroyed;
uint8_t Obj::dead[4096];
using P = std::shared_ptr<Obj>;

/// all objects made in this case and how often the containers and the harness should hold them
struct Ledger {
    std::vector<std::weak_ptr<Obj>> w;
    std::map<int, int> outside; // handles the harness keeps on purpose
    int base;
    Ledger() : base(Obj::alive) {
        memset(Obj::dead, 0, sizeof Obj::dead);
        w.reserve(4096);
    }
    P make() {
        P p = std::make_shared<Obj>(static_cast<int>(w.size()));
        w.push_back(p);
        return p;
    }
    int fresh() const { return static_cast<int>(w.size()); }
    /// held: for each container the list of ids in its slots (-1 = empty slot)
    void check(std::initializer_list<const std::deque<int>*> held) {
        std::map<int, int> want = outside;
        for (auto* h : held)
            for (int id : *h)
                if (id >= 0) ++want[id];
        int live = 0;
        for (size_t i = 0; i < w.size(); ++i) {
            auto it = want.find(static_cast<int>(i));
            int n = it == want.end() ? 0 : it->second;
            if (n) ++live;
            VF_CHECK(w[i].use_count() == n, n > w[i].use_count() ? "released-early" : "kept-alive", "element %zu is held %ld times, expected %d", i,
                     w[i].use_count(), n);
            VF_CHECK(Obj::dead[i] == (n == 0), "destroyed-wrongly", "element %zu was destroyed %d times while %d holders remain", i, Obj::dead[i], n);
        }
        VF_CHECK(Obj::alive - base == live, "alive", "%d elements are alive, expected %d", Obj::alive - base, live);
        vf::state(static_cast<vf::u64>(live) * 1000 + want.size());
    }
};
using M = std::deque<int>;

/// heap balance of a whole case
template<typename F>
void balanced(F&& f) {
    size_t before = vf::heap();
    f();
    size_t after = vf::heap();
    VF_CHECK(before == after, "heap-balance", "heap use went from %zu to %zu bytes although everything is gone", before, after);
    VF_EV("heap.balanced");
}

struct VM {
    Vector<P> v;
    M m;
    size_t cap;
    explicit VM(size_t c) : v(c), cap(c) {}
};

void vector_ops(Vector<P>& v, M& m, size_t cap, Ledger& L, vf::Rng& r, int n, const M& other) {
    for (int i = 0; i < n; ++i) {
        bool full = m.size() == cap;
        int id = L.fresh();
        switch (r.below(16)) {
        case 14: {
            if (m.empty()) break;
            // elements that are stored once more, moved to the other end, or simply let go
            size_t j = r.below(m.size()), at = r.below(m.size() + 1);
            int own = m[j];
            switch (r.below(7)) {
            case 0: {
                vf::op("push_back(v[%zu])", j);
                auto e = vf::catching([&] { v.push_back(v[j]); });
                if (!full) m.push_back(own);
                break;
            }
            case 1: {
                vf::op("insert(%zu,v[%zu])", at, j);
                auto e = vf::catching([&] { v.insert(at, v[j]); });
                if (!full) m.insert(m.begin() + static_cast<long>(at), own);
                break;
            }
            case 2: {
                vf::op("push_front(v[%zu])", j);
                auto e = vf::catching([&] { v.push_front(v[j]); });
                if (!full) m.push_front(own);
                break;
            }
            case 3:
                vf::op("push_back(pop_front())");
                v.push_back(v.pop_front());
                m.push_back(m.front());
                m.pop_front();
                VF_EV("rotate");
                break;
            case 4:
                vf::op("push_front(pop_back())");
                v.push_front(v.pop_back());
                m.push_front(m.back());
                m.pop_back();
                break;
            case 5:
                vf::op("(void)pop_front");
                (void)v.pop_front();
                m.pop_front();
                VF_EV("pop.discarded");
                break;
            default:
                vf::op("(void)pop_back");
                (void)v.pop_back();
                m.pop_back();
            }
            break;
        }
        case 0:
        case 1: {
            vf::op("push_back");
            P p = L.make();
            auto e = vf::catching([&] { v.push_back(p); });
            if (!full) m.push_back(id);
            break;
        }
        case 2:
        case 3: {
            vf::op("emplace_back");
            auto e = vf::catching([&] { v.emplace_back(L.make()); });
            if (!full) m.push_back(id);
            break;
        }
        case 4: {
            vf::op("push_front");
            P p = L.make();
            auto e = vf::catching([&] { v.push_front(p); });
            if (!full) m.push_front(id);
            break;
        }
        case 5: {
            vf::op("emplace_front");
            auto e = vf::catching([&] { v.emplace_front(L.make()); });
            if (!full) m.push_front(id);
            break;
        }
        case 6: {
            size_t at = r.below(m.size() + 1);
            vf::op("insert(%zu)", at);
            P p = L.make();
            auto e = vf::catching([&] { v.insert(at, p); });
            if (!full) m.insert(m.begin() + static_cast<long>(at), id);
            VF_EV("vector.insert");
            break;
        }
        case 7: {
            if (m.empty()) break;
            bool keep = r.chance(1, 4);
            vf::op("pop_back%s", keep ? " keep" : "");
            P p = v.pop_back();
            VF_CHECK(p && p->id == m.back(), "pop-back", "popped another element");
            m.pop_back();
            ++L.outside[p->id];
            L.check({&m, &other});
            --L.outside[p->id];
            if (keep) {
                p.reset();
                VF_EV("handle.dropped.later");
            }
            break;
        }
        case 8:
        case 9: {
            if (m.empty()) break;
            vf::op("pop_front");
            P p = v.pop_front();
            VF_CHECK(p && p->id == m.front(), "pop-front", "popped another element");
            m.pop_front();
            ++L.outside[p->id];
            L.check({&m, &other});
            --L.outside[p->id];
            break;
        }
        case 10:
        case 11: {
            if (m.empty()) break;
            size_t at = r.below(m.size());
            vf::op("remove(%zu)", at);
            P p = v.remove(at);
            VF_CHECK(p && p->id == m[at], "remove", "removed another element");
            m.erase(m.begin() + static_cast<long>(at));
            ++L.outside[p->id];
            L.check({&m, &other});
            --L.outside[p->id];
            VF_EV("vector.remove");
            break;
        }
        case 12: {
            if (m.empty()) break;
            size_t at = r.below(m.size());
            vf::op("[%zu]=", at);
            v[at] = L.make();
            m[at] = id;
            VF_EV("overwritten");
            break;
        }
        default:
            if (r.chance(1, 3)) {
                if (r.chance(1, 2)) {
                    vf::op("clear");
                    v.clear();
                    m.clear();
                    VF_EV("vector.clear");
                } else {
                    vf::op("fill");
                    v.fill(L.make());
                    m.assign(cap, id);
                    VF_EV("vector.fill");
                }
            }
        }
        L.check({&m, &other});
        VF_CHECK(v.size() == m.size(), "size", "size %zu, expected %zu", v.size(), m.size());
    }
}
} // namespace

VF_SCENARIO(vector_lifetime, 1.0) {
    balanced([&] {
        Ledger L;
        {
            VM a(r.range(1, 9)), b(r.range(1, 9));
            vf::op("A(%zu) B(%zu)", a.cap, b.cap);
            for (int round = 0; round < 4; ++round) {
                vector_ops(a.v, a.m, a.cap, L, r, static_cast<int>(r.range(1, 16)), b.m);
                vf::op("B:");
                vector_ops(b.v, b.m, b.cap, L, r, static_cast<int>(r.range(1, 16)), a.m);
                switch (r.below(7)) {
                case 0:
                    vf::op("swap");
                    a.v.swap(b.v);
                    std::swap(a.m, b.m);
                    std::swap(a.cap, b.cap);
                    VF_EV("vector.swap");
                    break;
                case 1: {
                    vf::op("a=move(b), b=new");
                    a.v = std::move(b.v);
                    a.m = b.m;
                    a.cap = b.cap;
                    b.m.clear();
                    L.check({&a.m});
                    b.cap = r.range(1, 6);
                    b.v = Vector<P>(b.cap);
                    VF_EV("vector.move.assign");
                    break;
                }
                case 2: {
                    vf::op("c(move(a)), a=move(c)");
                    size_t h = vf::heap();
                    Vector<P> c(std::move(a.v));
                    VF_CHECK(vf::heap() == h, "move-allocates", "moving a vector changed the heap");
                    L.check({&a.m, &b.m});
                    VF_CHECK(c.size() == a.m.size(), "move-size", "moved vector has %zu of %zu elements", c.size(), a.m.size());
                    a.v = std::move(c);
                    VF_EV("vector.move.construct");
                    break;
                }
                case 3: {
                    vf::op("a={x,y}");
                    int id = L.fresh();
                    a.v = {L.make(), L.make()};
                    a.m = {id, id + 1};
                    a.cap = 2;
                    VF_EV("vector.list.assign");
                    break;
                }
                case 4: {
                    vf::op("c(move(a)) destroyed, a=new");
                    {
                        Vector<P> c(std::move(a.v));
                        L.check({&a.m, &b.m});
                    }
                    a.m.clear();
                    L.check({&a.m, &b.m});
                    a.cap = r.range(1, 6);
                    a.v = Vector<P>(a.cap);
                    VF_EV("moved.then.destroyed");
                    break;
                }
                case 5: {
                    vf::op("self move");
                    auto& self = a.v;
                    a.v = std::move(self);
                    break;
                }
                default: break;
                }
                L.check({&a.m, &b.m});
            }
            if (!a.m.empty() && L.w.size() > 8) vf::nontrivial();
        }
        L.check({});
        VF_EV("vector.destroyed");
    });
}

VF_SCENARIO(array_lifetime, 0.6) {
    balanced([&] {
        Ledger L;
        {
            P ext[4];
            M em(4, -1);
            std::unique_ptr<Array<P>> a, b;
            M am, bm;
            auto build = [&](std::unique_ptr<Array<P>>& x, M& m) {
                switch (r.below(4)) {
                case 0: {
                    size_t n = r.range(1, 8);
                    vf::op("Array(%zu)", n);
                    x = std::make_unique<Array<P>>(n);
                    m.assign(n, -1);
                    break;
                }
                case 1: {
                    size_t n = r.range(1, 8);
                    vf::op("Array(%zu,v)", n);
                    int id = L.fresh();
                    x = std::make_unique<Array<P>>(n, L.make());
                    m.assign(n, id);
                    break;
                }
                case 2: {
                    vf::op("Array{a,b,c}");
                    int id = L.fresh();
                    std::initializer_list<P> l{L.make(), L.make(), L.make()};
                    x = std::make_unique<Array<P>>(l);
                    m = {id, id + 1, id + 2};
                    break;
                }
                default: {
                    vf::op("Array(moved)");
                    int id = L.fresh();
                    Array<P> t{L.make(), L.make()};
                    size_t h = vf::heap();
                    x = std::make_unique<Array<P>>(std::move(t));
                    m = {id, id + 1};
                    (void)h;
                    VF_EV("array.move.construct");
                }
                }
            };
            build(a, am);
            L.check({&am});
            build(b, bm);
            L.check({&am, &bm});
            int n = static_cast<int>(r.range(3, 30));
            bool moved = false;
            for (int i = 0; i < n; ++i) {
                int id = L.fresh();
                switch (r.below(9)) {
                case 0:
                case 1:
                case 2: {
                    if (am.empty()) break;
                    size_t at = r.below(am.size());
                    vf::op("a[%zu]=", at);
                    (*a)[at] = L.make();
                    am[at] = id;
                    VF_EV("array.overwrite");
                    break;
                }
                case 3: {
                    if (bm.empty()) break;
                    size_t at = r.below(bm.size());
                    vf::op("b[%zu].reset", at);
                    b->at(at).reset();
                    bm[at] = -1;
                    break;
                }
                case 4:
                    if (am.empty()) break;
                    vf::op("fill");
                    a->fill(L.make());
                    am.assign(am.size(), id);
                    break;
                case 5:
                    vf::op("swap");
                    a->swap(*b);
                    std::swap(am, bm);
                    VF_EV("array.swap");
                    break;
                case 6:
                    vf::op("a=move(b)");
                    *a = std::move(*b);
                    am = bm;
                    bm.clear();
                    L.check({&am});
                    build(b, bm);
                    moved = true;
                    VF_EV("array.move.assign");
                    break;
                case 7:
                    vf::op("a={..}");
                    if (r.chance(1, 2)) {
                        *a = {L.make(), L.make(), L.make(), L.make()};
                        am = {id, id + 1, id + 2, id + 3};
                    } else {
                        *a = {L.make()};
                        am = {id};
                    }
                    VF_EV("array.list.assign");
                    break;
                default: {
                    vf::op("external swap");
                    // an array over storage of its own exchanges everything with one over foreign storage
                    Array<P> e(ext);
                    e[r.below(4)] = L.make();
                    M now;
                    for (auto& p : ext) now.push_back(p ? p->id : -1);
                    a->swap(e);
                    L.check({&now, &bm, &am});
                    a->swap(e);
                    em = now;
                    for (auto& p : ext) p.reset();
                    em.assign(4, -1);
                    VF_EV("array.external.swap");
                    break;
                }
                }
                L.check({&am, &bm, &em});
            }
            if (moved) vf::nontrivial();
            if (r.chance(1, 2)) {
                a.reset();
                am.clear();
                L.check({&am, &bm, &em});
            }
        }
        L.check({});
        VF_EV("array.destroyed");
    });
}

VF_SCENARIO(external_storage_lifetime, 0.3) {
    balanced([&] {
        Ledger L;
        {
            P store[6];
            M m;
            {
                Vector<P> v(store, 0);
                vf::op("Vector over external storage");
                vector_ops(v, m, 6, L, r, static_cast<int>(r.range(3, 40)), {});
            }
            // storage that is not the vector's own keeps what it holds when the vector goes
            L.check({&m});
            if (m.size() > 1) vf::nontrivial();
            VF_EV("external.survives");
        }
        L.check({});
    });
}

VF_SCENARIO(pool_lifetime, 0.5) {
    balanced([&] {
        Ledger L;
        std::vector<P> kept;
        {
            size_t n = r.range(1, 12);
            vf::op("Pool(%zu)", n);
            auto owner = std::make_unique<Pool<Obj>>(n);
            Pool<Obj>& filled = *owner;
            M m;
            for (size_t i = 0; i < n; ++i) {
                int id = L.fresh();
                switch (r.below(3)) {
                case 0: filled.populate(L.make()); break;
                case 1: {
                    auto* raw = new Obj(id);
                    L.w.emplace_back(); // filled below
                    filled.populate(raw);
                    break;
                }
                default: {
                    L.w.emplace_back();
                    filled.populate(Obj(id));
                }
                }
                m.push_back(id);
            }
            VF_CHECK(filled.is_fully_populated(), "populated", "pool is not full after populating it");
            // learn the objects the pool made itself
            {
                std::vector<P> all;
                for (size_t i = 0; i < n; ++i) {
                    P p = filled.acquire();
                    VF_CHECK(p != nullptr, "acquire", "a full pool gave nothing");
                    L.w[static_cast<size_t>(p->id)] = p;
                    all.push_back(p);
                }
            }
            L.check({&m});
            const bool move_it = r.chance(1, 3);
            Pool<Obj> pool = move_it ? Pool<Obj>(std::move(filled)) : Pool<Obj>(1);
            if (!move_it) pool = std::move(filled);
            vf::op(move_it ? "pool(move)" : "pool=move");
            owner.reset();
            L.check({&m});
            VF_EV("pool.moved");
            // as many rounds of borrowing as wanted, in any order
            int k = static_cast<int>(r.range(1, 20));
            for (int i = 0; i < k; ++i) {
                if (r.chance(1, 2) && kept.size() < n) {
                    P p = pool.acquire();
                    if (p) {
                        ++L.outside[p->id];
                        kept.push_back(std::move(p));
                    }
                } else if (!kept.empty()) {
                    size_t at = r.below(kept.size());
                    --L.outside[kept[at]->id];
                    kept.erase(kept.begin() + static_cast<long>(at));
                }
                L.check({&m});
            }
            if (r.chance(1, 3)) {
                size_t d = r.range(1, n);
                vf::op("depopulate %zu", d);
                for (size_t i = 0; i < d; ++i) {
                    P p = pool.depopulate();
                    auto it = std::find(m.begin(), m.end(), p->id);
                    VF_CHECK(it != m.end(), "depopulate-twice", "an object was depopulated twice");
                    m.erase(it);
                    ++L.outside[p->id];
                    L.check({&m});
                    --L.outside[p->id];
                }
                VF_EV("pool.depopulate");
            }
            L.check({&m});
            vf::op("destroy with %zu outside", kept.size());
            if (!kept.empty()) vf::nontrivial();
        }
        L.check({});
        VF_EV("pool.destroyed");
        while (!kept.empty()) {
            --L.outside[kept.back()->id];
            kept.pop_back();
            L.check({});
        }
    });
}

VF_SCENARIO(stack_lifetime, 0.3) {
    balanced([&] {
        Ledger L;
        {
            size_t cap = r.range(1, 8);
            Stack<P> s(cap);
            M m;
            int n = static_cast<int>(r.range(3, 40));
            for (int i = 0; i < n; ++i) {
                int id = L.fresh();
                bool full = m.size() == cap;
                if (r.chance(3, 5)) {
                    vf::op("push");
                    P p = L.make();
                    auto e = vf::catching([&] { r.chance(1, 2) ? s.push(p) : s.emplace(P(p)); });
                    if (!full) m.push_back(id);
                } else if (!m.empty()) {
                    vf::op("pop");
                    s.pop();
                    m.pop_back();
                    VF_EV("stack.pop.releases");
                }
                L.check({&m});
            }
            if (m.size() > 1) vf::nontrivial();
        }
        L.check({});
    });
}
VF_SCENARIO(big_pool, 0.002) {
    balanced([&] {
        size_t n = 65536 + r.below(8);
        vf::op("Pool(%zu)", n);
        int before = Obj::alive;
        {
            Pool<Obj> pool(n);
            for (size_t i = 0; i < n; ++i) pool.populate(std::make_shared<Obj>(-1));
            P last;
            VF_CHECK(Obj::alive - before == static_cast<int>(n), "big-pool", "pool of %zu holds %d", n, Obj::alive - before);
        }
        VF_CHECK(Obj::alive == before, "big-pool", "%d objects of a pool of %zu were not released", Obj::alive - before, n);
        VF_EV("big.pool");
    });
}
