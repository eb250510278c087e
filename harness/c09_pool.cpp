// C09: Pool acquire/release histories; holders recorded by object identity, conservation of objects checked after each step.
#include "vf.hpp"
#include "spine/structure/pool.hpp"

using spn::structure::Pool;

namespace {
struct Item {
    int id;
    int payload = 0;
    explicit Item(int i) : id(i) { ++alive; }
    Item(Item&& o) : id(o.id) {
        o.id = -1;
        ++alive;
    }
    virtual ~Item() { --alive; }
    static int alive;
};
int Item::alive;
struct Derived : Item {
    using Item::Item;
};

struct World {
    std::vector<Item*> all; // every object of the pool
    std::map<Item*, std::vector<std::shared_ptr<Item>>> held;
    size_t free() const {
        size_t n = all.size();
        for (auto& [k, v] : held) n -= !v.empty();
        return n;
    }
};

void learn(Pool<Item>& pool, World& w, size_t n) {
    std::vector<std::shared_ptr<Item>> tmp;
    std::set<int> ids;
    for (size_t i = 0; i < n; ++i) {
        auto p = pool.acquire();
        VF_CHECK(p != nullptr, "lost-capacity", "only %zu of %zu fresh objects could be acquired", i, n);
        VF_CHECK(ids.insert(p->id).second, "handed-out-twice", "object %d was handed out twice", p->id);
        VF_CHECK(p->id >= 0 && p->id < static_cast<int>(n), "foreign", "the pool handed out an object it was not given (%d)", p->id);
        w.all.push_back(p.get());
        tmp.push_back(std::move(p));
    }
    VF_CHECK(pool.acquire() == nullptr, "phantom", "a pool of %zu handed out one more", n);
    // give them back in random-ish order decided by the caller
}

void history(Pool<Item>& pool, World& w, vf::Rng& r, int n, bool& emptied, bool& reorder) {
    for (int i = 0; i < n; ++i) {
        size_t free = w.free();
        if (r.chance(1, 2)) {
            auto p = pool.acquire();
            vf::op("acquire->%d", p ? p->id : -1);
            if (free == 0) {
                VF_CHECK(p == nullptr, "handed-out-twice", "all %zu objects are held, yet object %d was handed out", w.all.size(), p->id);
                VF_EV("acquire.none.left");
                emptied = true;
                continue;
            }
            VF_CHECK(p != nullptr, "refused", "acquire gave nothing although %zu of %zu objects are free", free, w.all.size());
            auto it = std::find(w.all.begin(), w.all.end(), p.get());
            VF_CHECK(it != w.all.end(), "foreign", "the pool handed out an object it was not given");
            auto& h = w.held[p.get()];
            VF_CHECK(h.empty(), "handed-out-twice", "object %d is held by %zu others already", p->id, h.size());
            VF_CHECK(p.use_count() == 2, "extra-owner", "an acquired object has %ld owners", p.use_count());
            p->payload = i;
            if (r.chance(1, 5)) {
                h.push_back(p); // a second reference
                VF_EV("second.reference");
            }
            h.push_back(std::move(p));
            VF_EV("acquire.ok");
        } else {
            std::vector<Item*> hs;
            for (auto* o : w.all)
                if (!w.held[o].empty()) hs.push_back(o);
            if (hs.empty()) continue;
            auto* o = r.chance(1, 3) ? hs.front() : r.chance(1, 2) ? hs.back() : r.pick(hs);
            auto& h = w.held[o];
            vf::op("release %d", o->id);
            h.pop_back();
            if (h.empty() && o != w.all.back()) reorder = true;
            if (!h.empty()) VF_EV("release.one.of.two");
            VF_EV("release");
        }
        VF_CHECK(Item::alive == static_cast<int>(w.all.size()), "alive", "%d objects are alive, the pool was given %zu", Item::alive, w.all.size());
        VF_CHECK(pool.size() == w.all.size() && pool.is_fully_populated(), "size", "the pool holds %zu of %zu objects", pool.size(), w.all.size());
        vf::u64 mask = 0;
        for (size_t k = 0; k < w.all.size() && k < 48; ++k) mask |= static_cast<vf::u64>(!w.held[w.all[k]].empty()) << k;
        vf::state(mask * 64 + w.all.size());
    }
}

void fill_pool(Pool<Item>& pool, World& w, size_t n, vf::Rng& r) {
    std::vector<std::shared_ptr<Item>> outside;
    for (size_t i = 0; i < n; ++i) {
        VF_CHECK(!pool.is_fully_populated(), "full-early", "pool of %zu reports full with %zu", n, i);
        int id = static_cast<int>(i);
        switch (r.below(4)) {
        case 0: pool.populate(new Item(id)); break;
        case 1: pool.populate(Item(id)); break;
        case 2: pool.populate(std::make_shared<Item>(id)); break;
        default: pool.populate(std::shared_ptr<Item>(std::make_shared<Derived>(id)));
        }
        VF_CHECK(pool.size() == i + 1, "size", "pool size %zu, expected %zu", pool.size(), i + 1);
    }
    VF_CHECK(pool.is_fully_populated(), "not-full", "pool of %zu is not full after populating it", n);
    learn(pool, w, n);
}

void drain(Pool<Item>& pool, World& w, vf::Rng& r) {
    // whoever still holds an object keeps it; the pool gives each object back exactly once
    std::set<Item*> got;
    size_t n = w.all.size();
    for (size_t i = 0; i < n; ++i) {
        std::shared_ptr<Item> p = pool.depopulate();
        VF_CHECK(p && got.insert(p.get()).second, "depopulate-twice", "an object was depopulated twice or is missing");
        VF_CHECK(std::find(w.all.begin(), w.all.end(), p.get()) != w.all.end(), "foreign", "depopulated an object the pool was not given");
        VF_CHECK(static_cast<size_t>(p.use_count()) == 1 + w.held[p.get()].size(), "owners", "a depopulated object has %ld owners, expected %zu", p.use_count(),
                 1 + w.held[p.get()].size());
        VF_CHECK(pool.size() == n - i - 1, "size", "pool size %zu after depopulating %zu of %zu", pool.size(), i + 1, n);
    }
    VF_EV("depopulated");
}
} // namespace

VF_SCENARIO(pool_history, 1.0) {
    Item::alive = 0;
    {
        size_t n = r.chance(1, 8) ? r.range(13, 80) : r.range(1, 12);
        vf::op("Pool(%zu)", n);
        Pool<Item> pool(n);
        World w;
        fill_pool(pool, w, n, r);
        bool emptied = false, reorder = false;
        history(pool, w, r, static_cast<int>(r.range(10, vf::thorough() ? 400 : 160)), emptied, reorder);
        if (r.chance(1, 4)) {
            // another pool takes over, made for it or there before; the old one may be gone by then
            auto old = std::make_unique<Pool<Item>>(std::move(pool));
            vf::op("old(move(pool))");
            history(*old, w, r, 10, emptied, reorder);
            const bool made = r.chance(1, 2);
            Pool<Item> other = made ? Pool<Item>(std::move(*old)) : Pool<Item>(r.range(1, 5));
            if (!made) other = std::move(*old);
            vf::op(made ? "other(move(old))" : "other=move(old)");
            if (r.chance(1, 2)) old.reset();
            VF_EV("moved");
            history(other, w, r, 40, emptied, reorder);
            if (r.chance(1, 2)) drain(other, w, r);
        } else if (r.chance(1, 2))
            drain(pool, w, r);
        if (emptied && reorder) vf::nontrivial();
    }
    VF_CHECK(Item::alive == 0, "alive", "%d objects are left after the pool and all holders are gone", Item::alive);
}

VF_SCENARIO(pool_outside_owner, 0.3) {
    // objects that are also held by somebody who never acquired them are not handed out until let go
    Item::alive = 0;
    {
        size_t n = r.range(1, 8);
        Pool<Item> pool(n);
        vf::op("Pool(%zu) outside owners", n);
        std::vector<std::shared_ptr<Item>> mine;
        for (size_t i = 0; i < n; ++i) {
            auto p = std::make_shared<Item>(static_cast<int>(i));
            if (r.chance(1, 2)) mine.push_back(p);
            pool.populate(std::move(p));
        }
        std::vector<std::shared_ptr<Item>> got;
        auto acquire_all = [&] {
            while (true) {
                auto p = pool.acquire();
                if (!p) break;
                for (auto& m : mine) VF_CHECK(m != p, "handed-out-twice", "an object held outside was handed out");
                for (auto& m : got) VF_CHECK(m != p, "handed-out-twice", "an object was handed out twice");
                got.push_back(p);
                VF_CHECK(got.size() + mine.size() <= n, "phantom", "more objects than the pool has");
            }
            VF_CHECK(got.size() + mine.size() == n, "lost-capacity", "%zu acquired and %zu held outside, of %zu", got.size(), mine.size(), n);
        };
        acquire_all();
        while (!mine.empty()) {
            size_t k = r.below(mine.size());
            auto* let_go = mine[k].get();
            mine.erase(mine.begin() + static_cast<long>(k));
            auto p = pool.acquire();
            VF_CHECK(p.get() == let_go, "not-available", "the object that became free is not the one handed out");
            got.push_back(p);
            VF_EV("freed.is.available");
        }
        // release in random order; each time exactly that object comes back
        for (int i = 0; i < 20; ++i) {
            size_t k = r.below(got.size());
            auto* let_go = got[k].get();
            vf::op("swap out %d", let_go->id);
            got[k].reset();
            got[k] = pool.acquire();
            VF_CHECK(got[k].get() == let_go, "not-available", "the object that became free is not the one handed out");
        }
        vf::nontrivial();
    }
    VF_CHECK(Item::alive == 0, "alive", "%d objects left", Item::alive);
}
VF_SCENARIO(pool_large, 0.01) {
    static const size_t around[] = {127, 128, 200, 255, 256, 257, 300, 1024, 4096, 65535, 65537};
    Item::alive = 0;
    {
        size_t n = around[r.below(r.chance(1, 4) ? 11 : 8)];
        vf::op("large: Pool(%zu)", n);
        Pool<Item> pool(n);
        for (size_t i = 0; i < n; ++i) pool.populate(new Item(static_cast<int>(i)));
        std::vector<std::shared_ptr<Item>> got; // by object
        std::vector<uint8_t> seen(n, 0);
        for (size_t i = 0; i < n; ++i) {
            auto p = pool.acquire();
            VF_CHECK(p != nullptr, "lost-capacity", "only %zu of %zu objects could be acquired", i, n);
            VF_CHECK(p->id >= 0 && p->id < static_cast<int>(n) && !seen[static_cast<size_t>(p->id)], "handed-out-twice", "object %d was handed out twice", p->id);
            seen[static_cast<size_t>(p->id)] = 1;
            got.push_back(std::move(p));
        }
        VF_CHECK(pool.acquire() == nullptr, "phantom", "a pool of %zu handed out one more", n);
        // an object that was let go anywhere is the one that comes back; then several at once
        for (int i = 0; i < 12; ++i) {
            size_t k = i == 0 ? 0 : i == 1 ? n - 1 : r.below(n);
            Item* o = got[k].get();
            got[k].reset();
            got[k] = pool.acquire();
            VF_CHECK(got[k].get() == o, "not-available", "object %d of %zu became free and was not handed out again", o->id, n);
        }
        std::set<size_t> freed;
        while (freed.size() < 20) freed.insert(r.chance(1, 2) ? r.below(n) : n - 1 - r.below(std::min<size_t>(n, 60)));
        std::set<Item*> objs;
        for (size_t k : freed) {
            objs.insert(got[k].get());
            got[k].reset();
        }
        std::vector<std::shared_ptr<Item>> again;
        for (size_t i = 0; i < 20; ++i) {
            auto p = pool.acquire();
            VF_CHECK(p && objs.erase(p.get()), "refused", "acquire number %zu of 20 free ones in a pool of %zu gave %s", i, n, p ? "a held object" : "nothing");
            again.push_back(std::move(p));
        }
        VF_CHECK(pool.acquire() == nullptr, "phantom", "a pool of %zu handed out one more", n);
        std::fill(seen.begin(), seen.end(), 0);
        for (size_t i = 0; i < n; ++i) {
            auto p = pool.depopulate();
            VF_CHECK(p && !seen[static_cast<size_t>(p->id)], "depopulate-twice", "an object was depopulated twice or is missing");
            seen[static_cast<size_t>(p->id)] = 1;
        }
        VF_CHECK(pool.size() == 0, "size", "%zu objects are left in a depopulated pool", pool.size());
        VF_EV("large");
        vf::state(n);
    }
    VF_CHECK(Item::alive == 0, "alive", "%d objects are left", Item::alive);
}
