// pool TYPE SCRIPT OUT NX NY ..
// new s            fresh pool (s: SHARED)
// alloc h size     -> block number, 1 if suitably aligned and large enough
// free h           -> 1 if the released block had kept its contents
// purge            -> blocks released to the system, sorted
// stat             -> size() total_size n_allocs n_true_allocs
// check            -> handles in use whose contents are not what was written, or that overlap another one
// badfree h        second free of the block last held by h;   badfree -1: unknown pointer
#include "hx.h"
#include "plumbing/memory_pool.h"
#include <map>
#include <memory>
#include <malloc.h>

namespace poolw {
extern bool on;
extern void *log[4096];
extern int n;
} // namespace poolw

struct blk {
    unsigned char *p = nullptr;
    size_t size = 0;
    int id = 0;
    int seed = 0;
    bool used = false;
};

static unsigned char pat(int seed, size_t i) {
    return (unsigned char)(seed * 37 + i * 11 + (i >> 8) * 3 + 1);
}
static void fill(blk &b) {
    for (size_t i = 0; i < b.size; i++)
        b.p[i] = pat(b.seed, i);
}
static bool intact(const blk &b) {
    for (size_t i = 0; i < b.size; i++)
        if (b.p[i] != pat(b.seed, i))
            return false;
    return true;
}

int main(int argc, char **argv) {
    std::string script = argv[2], out = argv[3];
    CoordinateVector size;
    foralldir(d) size[d] = atoi(argv[4 + (int)d]);
    char *av[] = {argv[0], nullptr};
    hila::initialize(1, av);
    lattice.setup(size);
    hx::out().open(out);
    auto s = hx::read_script(script);
    std::unique_ptr<hila::memory_pool> pool;
    std::map<void *, int> ids;
    std::map<int, blk> h;
    int next = 0, seed = 0;
#if defined(AVX) || defined(VECTORIZED)
    const size_t align = 32;
#else
    const size_t align = alignof(std::max_align_t);
#endif
    for (auto &o : s) {
        if (o.name == "new") {
            pool.reset(o.i(0) ? new hila::memory_pool(hila::pool_type::SHARED) : new hila::memory_pool());
            ids.clear();
            h.clear();
            next = 0;
        } else if (o.name == "alloc") {
            blk b;
            b.size = o.i(1);
            size_t t = pool->status().n_true_allocs;
            b.p = (unsigned char *)pool->alloc(b.size);
            if (pool->status().n_true_allocs != t || !ids.count(b.p))
                ids[b.p] = ++next;
            b.id = ids[b.p];
            b.seed = ++seed;
            b.used = true;
            bool ok = b.p != nullptr && ((size_t)b.p) % align == 0 && malloc_usable_size(b.p) >= b.size;
            fill(b);
            h[o.i(0)] = b;
            hx::out().zero(o.line, {b.id, (int)ok});
        } else if (o.name == "free") {
            blk &b = h[o.i(0)];
            bool ok = intact(b);
            pool->free(b.p);
            b.used = false;
            hx::out().zero(o.line, {(int)ok});
        } else if (o.name == "badfree") {
            int x;
            pool->free(o.i(0) < 0 ? (void *)&x : (void *)h[o.i(0)].p);
            hx::out().zero(o.line, {1});
        } else if (o.name == "purge") {
            poolw::n = 0;
            poolw::on = true;
            pool->purge();
            poolw::on = false;
            std::vector<int> v;
            for (int i = 0; i < poolw::n; i++)
                if (ids.count(poolw::log[i])) {
                    v.push_back(ids[poolw::log[i]]);
                }
            // forget released addresses: the system may hand them out again
            for (int i = 0; i < poolw::n; i++)
                ids.erase(poolw::log[i]);
            std::sort(v.begin(), v.end());
            hx::out().zero(o.line, v);
        } else if (o.name == "stat") {
            auto p = pool->status();
            hx::out().zero(o.line, {(int)pool->size(), (int)p.total_size, (int)p.n_allocs, (int)p.n_true_allocs});
        } else if (o.name == "check") {
            std::vector<int> v;
            for (auto &x : h)
                if (x.second.used) {
                    bool ok = intact(x.second);
                    for (auto &y : h)
                        if (y.first != x.first && y.second.used && x.second.p < y.second.p + y.second.size &&
                            y.second.p < x.second.p + x.second.size)
                            ok = false;
                    if (!ok)
                        v.push_back(x.first);
                }
            hx::out().zero(o.line, v);
        }
    }
    hx::out().zero(0, {1});
    hila::finishrun();
}
