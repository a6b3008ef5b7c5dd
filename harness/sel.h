// Site selections and clusters.  Operations of spec/SelectTrace.tla.
#ifndef SEL_H_
#define SEL_H_
#include "hx.h"
#include <memory>
#ifndef VECTORIZED // clusters need fields of uint8_t and uint64_t
#include "clusters.h"
#endif

namespace sel {
constexpr int NS = 3;

inline std::vector<int> ints(const hx::op_t &o, int from) {
    std::vector<int> r;
    for (int i = from; i < o.n(); i++)
        r.push_back(o.i(i));
    return r;
}

// v: values in lexicographic order
template <typename I>
void fill(Field<I> &f, const std::vector<int> &v, int off = 0) {
    f.check_alloc();
    for (unsigned i = 0; i < lattice->mynode.volume; i++)
        f.set_value_at((I)v.at(off + hx::lexi(lattice->coordinates(i))), i);
    f.mark_changed(ALL);
}

template <typename T>
struct machine {
    Field<int> M;
    Field<T> V;
    std::unique_ptr<SiteSelect> s[NS];
    std::unique_ptr<SiteValueSelect<T>> w[NS];
#ifndef VECTORIZED
    hila::Clusters cl;
#endif
};

template <typename T>
void loop_s(machine<T> &Q, int k, Parity P, int form, int c) {
    const Field<int> &M = Q.M;
    SiteSelect &s = *Q.s[k];
    if (form == 0) {
        onsites(P) {
            if (M[X] == c)
                s.select(X);
        }
    } else if (form == 1) {
        onsites(P) {
            if (M[X] == c)
                s.select(X);
            if (M[X] >= c)
                s.select(X);
        }
    } else if (form == 2) {
        onsites(P) {
            foralldir(d) {
                if (M[X + d] == c)
                    s.select(X);
            }
        }
    } else {
        onsites(P) {
            s.select(X);
        }
    }
}

template <typename T>
void loop_w(machine<T> &Q, int k, Parity P, int form, int c) {
    const Field<int> &M = Q.M;
    const Field<T> &V = Q.V;
    SiteValueSelect<T> &w = *Q.w[k];
    if (form == 0) {
        onsites(P) {
            if (M[X] == c)
                w.select(X, V[X]);
        }
    } else if (form == 1) {
        onsites(P) {
            if (M[X] >= c)
                w.select(X, V[X]);
            if (M[X] == c)
                w.select(X, V[X] + V[X]);
        }
    } else if (form == 2) {
        onsites(P) {
            foralldir(d) {
                if (M[X + d] == c)
                    w.select(X, V[X + d]);
            }
        }
    } else {
        onsites(P) {
            w.select(X, V[X]);
        }
    }
}

// two selections in one loop
template <typename T>
void loop_2(machine<T> &Q, int k, int j, Parity P, int c) {
    const Field<int> &M = Q.M;
    const Field<T> &V = Q.V;
    SiteSelect &s = *Q.s[k];
    SiteValueSelect<T> &w = *Q.w[j];
    onsites(P) {
        if (M[X] == c)
            s.select(X);
        else
            w.select(X, V[X]);
    }
}

template <typename T>
void run(const std::vector<hx::op_t> &script) {
    machine<T> Q;
    auto &O = hx::out();
    for (const auto &o : script) {
        if (o.name == "own") {
            std::vector<int> v;
            for (unsigned i = 0; i < lattice->mynode.volume; i++)
                v.push_back(hx::lexi(lattice->coordinates(i)));
            O.each(o.line, v);
        } else if (o.name == "types") {
            fill(Q.M, ints(o, 1));
        } else if (o.name == "vals") {
            Q.V.check_alloc();
            for (unsigned i = 0; i < lattice->mynode.volume; i++)
                Q.V.set_value_at(hx::enc<T>(o.i(0) * (hx::lexi(lattice->coordinates(i)) % o.i(1)) + o.i(2)), i);
            Q.V.mark_changed(ALL);
        } else if (o.name == "snew") {
            Q.s[o.i(0)] = std::make_unique<SiteSelect>();
            if (o.i(1) >= 0)
                Q.s[o.i(0)]->max_size(o.i(1));
            if (o.i(2))
                Q.s[o.i(0)]->no_join();
        } else if (o.name == "wnew") {
            Q.w[o.i(0)] = std::make_unique<SiteValueSelect<T>>();
            if (o.i(1) >= 0)
                Q.w[o.i(0)]->max_size(o.i(1));
            if (o.i(2))
                Q.w[o.i(0)]->no_join();
        } else if (o.name == "ssel") {
            loop_s(Q, o.i(0), o.par(1), o.i(2), o.i(3));
        } else if (o.name == "wsel") {
            loop_w(Q, o.i(0), o.par(1), o.i(2), o.i(3));
        } else if (o.name == "sel2") {
            loop_2(Q, o.i(0), o.i(1), o.par(2), o.i(3));
        } else if (o.name == "scopy") {
            Q.s[o.i(0)] = std::make_unique<SiteSelect>(*Q.s[o.i(1)]);
        } else if (o.name == "wcopy") {
            Q.w[o.i(0)] = std::make_unique<SiteValueSelect<T>>(*Q.w[o.i(1)]);
        } else if (o.name == "sclear") {
            Q.s[o.i(0)]->clear();
        } else if (o.name == "wclear") {
            Q.w[o.i(0)]->clear();
        } else if (o.name == "sjoin") {
            Q.s[o.i(0)]->join();
        } else if (o.name == "wjoin") {
            Q.w[o.i(0)]->join();
        } else if (o.name == "sget") {
            auto &s = *Q.s[o.i(0)];
            std::vector<int> v = {(int)s.overflow()};
            for (size_t i = 0; i < s.size(); i++) {
                int l = hx::lexi(s.coordinates(i));
                v.push_back((int)s.site_index(i).value == l ? l : hx::BAD);
            }
            O.each(o.line, v);
        } else if (o.name == "wget") {
            auto &s = *Q.w[o.i(0)];
            std::vector<int> v = {(int)s.overflow()};
            for (size_t i = 0; i < s.size(); i++) {
                v.push_back(hx::lexi(s.coordinates(i)));
                v.push_back(hx::decode(s.value(i)));
            }
            O.each(o.line, v);
        } else if (o.name == "smove") {
            auto m = Q.s[o.i(0)]->move_sites();
            std::vector<int> v = {0};
            for (auto &x : m)
                v.push_back(hx::lexi(x.coordinates()));
            Q.s[o.i(0)].reset();
            O.each(o.line, v);
#ifndef VECTORIZED
        } else if (o.name == "find" || o.name == "findl") {
            // way: 0 find() with int, 1 with uint8_t, 2 constructor, 3 label field and classification
            int way = o.i(0);
            auto v = ints(o, 2);
            if (o.name == "find") {
                Field<int> f;
                Field<uint8_t> f8;
                fill(f, v);
                fill(f8, v);
                if (way == 0)
                    Q.cl.find(f);
                else if (way == 1)
                    Q.cl.find(f8);
                else if (way == 2)
                    Q.cl = hila::Clusters(f8);
                else {
                    Q.cl.make_labels(f);
                    Q.cl.classify();
                }
            } else {
                int vol = (int)lattice.volume();
                VectorField<uint8_t> f8;
                VectorField<int> f;
                foralldir(d) {
                    fill(f[d], v, vol * (int)d);
                    fill(f8[d], v, vol * (int)d);
                }
                if (way == 0)
                    Q.cl.find(f);
                else if (way == 1)
                    Q.cl.find(f8);
                else
                    Q.cl = hila::Clusters(f8);
            }
            std::vector<int> r;
            if (Q.cl.size() != Q.cl.number())
                r.push_back(hx::BAD);
            for (size_t i = 0; i < Q.cl.number(); i++) {
                r.push_back((int)Q.cl[i].size());
                r.push_back((int)Q.cl[i].type());
            }
            O.all(o.line, r);
        } else if (o.name == "clab") {
            // number of the cluster of each site, -1: none
            const auto &L = Q.cl.get_labels();
            Field<int> f;
            f.check_alloc();
            for (unsigned i = 0; i < lattice->mynode.volume; i++) {
                uint64_t l = L.get_value_at(i);
                int n = -1;
                for (size_t k = 0; k < Q.cl.number(); k++)
                    if (Q.cl[k].label() == l)
                        n = n == -1 ? (int)k : hx::BAD;
                if (n == -1 && hila::get_cl_label_type(l) != hila::Clusters::background)
                    n = hx::BAD;
                f.set_value_at(n, i);
            }
            O.zero(o.line, hx::fulldump(f));
        } else if (o.name == "citer") {
            std::vector<int> r;
            for (auto c : Q.cl)
                r.push_back((int)c.size());
            O.all(o.line, r);
        } else if (o.name == "carea") {
            int i = o.i(0);
            O.all(o.line, {i < (int)Q.cl.number() ? (int)Q.cl[i].area() : 0});
        } else if (o.name == "csites") {
            int i = o.i(0);
            std::vector<int> v;
            if (i < (int)Q.cl.number())
                for (auto &x : Q.cl[i].sites())
                    v.push_back(hx::lexi(x.coordinates()));
            O.zero(o.line, v);
#endif
        }
    }
}
} // namespace sel
#endif
