// Layout, lattice levels (blocking) and fields on them.  Operations of spec/LayoutTrace.tla.
#ifndef LAY_H_
#define LAY_H_
#include "hx.h"
#include <memory>

namespace lay {

constexpr int NF = 4, NG = 2;
#pragma hila loop_function
inline int lexof(const CoordinateVector &c, const CoordinateVector &size) {
    int s = 0, k = 1;
    foralldir(d) {
        s += k * c[d];
        k *= size[d];
    }
    return s;
}

using G = SquareMatrix<2, double>; // (1 a; 0 1): products add a
inline int gdec(const G &m) {
    if (m.e(0, 0) != 1 || m.e(1, 1) != 1 || m.e(1, 0) != 0)
        return hx::BAD;
    double d = m.e(0, 1);
    if (!(d > -2e9 && d < 2e9) || d != std::floor(d))
        return hx::BAD;
    return (int)d;
}

// the field in lexicographic order; every rank's own sites by index
template <typename T, typename F>
std::vector<int> dumpf(const Field<T> &f, F dec) {
    int n = (int)lattice->mynode.volume;
    std::vector<int> loc(2 * n);
    for (int i = 0; i < n; i++) {
        T v = f.get_value_at(i);
        loc[2 * i] = hx::lexi(lattice->coordinates(i));
        loc[2 * i + 1] = dec(v);
    }
    std::vector<int> cnt, r = hxraw::gatherv(loc, cnt), res;
    if (hxraw::rank() == 0) {
        int vol = (int)lattice.volume();
        res.assign(vol, hx::MISSING);
        std::vector<char> seen(vol, 0);
        for (size_t i = 0; i < r.size(); i += 2) {
            if (r[i] < 0 || r[i] >= vol)
                continue;
            res[r[i]] = seen[r[i]] ? hx::MISSING : r[i + 1];
            seen[r[i]] = 1;
        }
    }
    return res;
}

template <typename T>
struct machine {
    Field<T> F[NF];
    GaugeField<G> A[NG];
    T u;

    void run(const std::vector<hx::op_t> &script) {
        u = hx::enc<T>(1);
        for (const auto &o : script)
            step(o);
        for (int k = 0; k < NF; k++)
            F[k].clear();
        for (int k = 0; k < NG; k++)
            foralldir(d) A[k][d].clear();
    }

    std::vector<int> cvv(const CoordinateVector &c) {
        std::vector<int> v;
        foralldir(d) v.push_back(c[d]);
        return v;
    }
    // a field of type int by local index (no loop)
    template <typename S, typename Fn>
    void fill(Field<S> &f, Fn fn) {
        f.check_alloc();
        for (unsigned i = 0; i < lattice->mynode.volume; i++)
            f.set_value_at(fn(i), i);
        f.mark_changed(ALL);
    }

    void geom(const hx::op_t &o) {
        auto &O = hx::out();
        const std::string &n = o.name;
        int nv = (int)lattice->mynode.volume, vol = (int)lattice.volume();
        std::vector<int> v;
        if (n == "sites") { // coordinates of every local index
            for (int i = 0; i < nv; i++)
                v.push_back(hx::lexi(lattice->coordinates(i)));
            O.each(o.line, v);
        } else if (n == "back") { // index of the coordinates of every local index
            for (int i = 0; i < nv; i++)
                v.push_back((int)lattice->site_index(lattice->coordinates(i)));
            O.each(o.line, v);
        } else if (n == "coord") {
            for (int i = 0; i < nv; i++) {
                CoordinateVector c;
                foralldir(d) c[d] = lattice->coordinate(i, d);
                v.push_back(hx::lexi(c));
            }
            O.each(o.line, v);
        } else if (n == "spar") {
            for (int i = 0; i < nv; i++) {
                Parity p = lattice->site_parity(i);
                v.push_back(p == EVEN ? 0 : (p == ODD ? 1 : 9));
            }
            O.each(o.line, v);
        } else if (n == "owner") {
            for (int i = 0; i < vol; i++)
                v.push_back(lattice->node_rank(hx::unlexi(i)));
            O.all(o.line, v);
        } else if (n == "mine") {
            for (int i = 0; i < vol; i++)
                v.push_back(lattice->is_on_mynode(hx::unlexi(i)) ? 1 : 0);
            O.each(o.line, v);
        } else if (n == "info") {
            for (int x : cvv(lattice->mynode.min))
                v.push_back(x);
            for (int x : cvv(lattice->mynode.size))
                v.push_back(x);
            v.push_back(nv);
            v.push_back((int)lattice->mynode.evensites);
            v.push_back((int)lattice->mynode.oddsites);
            v.push_back(lattice->mynode.rank);
            O.each(o.line, v);
        } else if (n == "nodeinfo") {
            for (int r = 0; r < lattice->nodes.number; r++) {
                auto ni = lattice->nodes.nodeinfo(r);
                for (int x : cvv(ni.min))
                    v.push_back(x);
                for (int x : cvv(ni.size))
                    v.push_back(x);
                v.push_back((int)ni.evensites);
                v.push_back((int)ni.oddsites);
            }
            O.all(o.line, v);
        } else if (n == "range") {
            for (Parity p : {EVEN, ODD, ALL}) {
                v.push_back((int)lattice->loop_begin(p));
                v.push_back((int)lattice->loop_end(p));
            }
#ifdef EVEN_SITES_FIRST
            O.each(o.line, v);
#else
            O.each(o.line, {});
#endif
        } else if (n == "size") {
            v = cvv(lattice.size());
            v.push_back((int)lattice.volume());
            v.push_back(lattice.is_base() ? 1 : 0);
            O.all(o.line, v);
        } else if (n == "visit") {
            Field<int> c;
            fill(c, [](unsigned) { return 0; });
            onsites(o.par(0)) c[X] += 1;
            O.zero(o.line, dumpf(c, [](int x) { return x; }));
        } else if (n == "xcoord") {
            Field<int> c;
            CoordinateVector sz = lattice.size();
            fill(c, [](unsigned) { return -1; });
            onsites(o.par(0)) c[X] = lexof(X.coordinates(), sz);
            O.zero(o.line, dumpf(c, [](int x) { return x; }));
        } else if (n == "xdir") {
            Field<int> c;
            CoordinateVector sz = lattice.size();
            fill(c, [](unsigned) { return -1; });
            onsites(o.par(0)) {
                CoordinateVector cv;
                foralldir(d) cv[d] = X.coordinate(d);
                c[X] = lexof(cv, sz);
            }
            O.zero(o.line, dumpf(c, [](int x) { return x; }));
        } else if (n == "xpar") {
            Field<int> c;
            fill(c, [](unsigned) { return -1; });
            onsites(o.par(0)) c[X] = (X.parity() == EVEN) ? 0 : ((X.parity() == ODD) ? 1 : 9);
            O.zero(o.line, dumpf(c, [](int x) { return x; }));
        } else if (n == "nb") {
            Field<T> f, g;
            fill(f, [](unsigned i) { return hx::enc<T>(hx::lexi(lattice->coordinates(i))); });
            fill(g, [](unsigned) { return hx::enc<T>(-7); });
            Direction d = o.dir(1);
            onsites(o.par(0)) g[X] = f[X + d];
            O.zero(o.line, dumpf(g, hx::decode<T>));
        }
    }

    void step(const hx::op_t &o) {
        auto &O = hx::out();
        const std::string &n = o.name;
        if (n == "block") {
            lattice.block(o.cv(0));
            O.all(o.line, cvv(lattice.size()));
        } else if (n == "blocki") {
            lattice.block(o.i(0));
            O.all(o.line, cvv(lattice.size()));
        } else if (n == "canblock") {
            O.all(o.line, {lattice.can_block(o.cv(0)) ? 1 : 0});
        } else if (n == "unblock") {
            lattice.unblock();
            O.all(o.line, cvv(lattice.size()));
        } else if (n == "base") {
            lattice.switch_to_base();
            O.all(o.line, cvv(lattice.size()));
        } else if (n == "goto") {
            Lattice l = F[o.i(0)].mylattice();
            lattice.switch_to(l);
            O.all(o.line, cvv(lattice.size()));
        } else if (n == "fclear") {
            F[o.i(0)].clear();
        } else if (n == "fset") {
            CoordinateVector sz = lattice.size();
            int a = o.i(2), b = o.i(3);
            T un = u;
            Field<T> &f = F[o.i(0)];
            onsites(o.par(1)) f[X] = un * (a * lexof(X.coordinates(), sz) + b);
        } else if (n == "fadd") {
            Field<T> &f = F[o.i(0)];
            T c = hx::enc<T>(o.i(2));
            onsites(o.par(1)) f[X] += c;
        } else if (n == "fcopy") {
            F[o.i(0)] = F[o.i(1)];
        } else if (n == "fnb") {
            Field<T> &f = F[o.i(0)], &g = F[o.i(2)];
            Direction d = o.dir(3);
            onsites(o.par(1)) f[X] = g[X + d];
        } else if (n == "fnba") {
            Field<T> &f = F[o.i(0)], &g = F[o.i(2)];
            Direction d = o.dir(3);
            onsites(o.par(1)) f[X] += g[X + d];
        } else if (n == "bfrom") {
            F[o.i(0)].block_from(F[o.i(1)]);
        } else if (n == "unto") {
            F[o.i(0)].unblock_to(F[o.i(1)]);
        } else if (n == "bcur") {
            F[o.i(0)].block_to_current_lattice();
        } else if (n == "fdump") {
            O.zero(o.line, dumpf(F[o.i(0)], hx::decode<T>));
        } else if (n == "fsum") {
            T s = F[o.i(0)].sum(o.par(1));
            O.all(o.line, {hx::decode(s)});
        } else if (n == "fget") {
            T s = F[o.i(0)].get_element(hx::unlexi(o.i(1)));
            O.all(o.line, {hx::decode(s)});
        } else if (n == "fel") {
            F[o.i(0)].set_element(hx::unlexi(o.i(1)), hx::enc<T>(o.i(2)));
        } else if (n == "fshift") {
            F[o.i(0)] = F[o.i(1)].shift(o.cv(2));
        } else if (n == "fcnt") { // number of sites by a reduction
            int c = 0;
            onsites(o.par(0)) c += 1;
            O.all(o.line, {c});
        } else if (n == "gset") { // link k in direction d: a*lex + b + d
            CoordinateVector sz = lattice.size();
            int a = o.i(1), b = o.i(2);
            GaugeField<G> &A0 = A[o.i(0)];
            foralldir(d) {
                int bd = b + (int)d;
                onsites(ALL) {
                    G m;
                    m = 1;
                    m.e(0, 1) = a * lexof(X.coordinates(), sz) + bd;
                    A0[d][X] = m;
                }
            }
        } else if (n == "gblock") {
            A[o.i(0)].block_gauge(A[o.i(1)]);
        } else if (n == "gbcur") {
            A[o.i(0)].block_gauge_to_current_lattice();
        } else if (n == "gunto") {
            A[o.i(0)].unblock_gauge(A[o.i(1)]);
        } else if (n == "gclear") {
            foralldir(d) A[o.i(0)][d].clear();
        } else if (n == "gdump") {
            std::vector<int> v;
            foralldir(d) {
                auto w = dumpf(A[o.i(0)][d], gdec);
                v.insert(v.end(), w.begin(), w.end());
            }
            O.zero(o.line, v);
        } else
            geom(o);
    }
};
} // namespace lay
#endif
