// Reductions: loops over plain variables, Reduction<T>, ReductionVector<T>; min and max of fields.
// Each operation is one action of spec/ReductionMachine.tla.
#ifndef RED_H_
#define RED_H_
#include "hx.h"
#include <memory>
#include <limits>

namespace red {

constexpr int NV = 4;

// the contribution of site x: a * ((lexicographic index) % m) + b
#pragma hila loop_function
inline int weight(const CoordinateVector &c, const CoordinateVector &size, int a, int m, int b) {
    int s = 0, k = 1;
    foralldir(d) {
        s += k * c[d];
        k *= size[d];
    }
    return a * (s % m) + b;
}
#pragma hila loop_function
inline int index(const CoordinateVector &c, const CoordinateVector &size) {
    int s = 0, k = 1;
    foralldir(d) {
        s += k * c[d];
        k *= size[d];
    }
    return s;
}

template <typename T>
struct machine {
    T S[NV];
    int I;
    double D;
    float L;
    ExtendedPrecision E;
    std::unique_ptr<Reduction<T>> R[NV];
    std::unique_ptr<ReductionVector<T>> V[NV];
    Field<T> F[4];
    T u; // unit: 1 encoded

    void run(const std::vector<hx::op_t> &script) {
        u = hx::enc<T>(1);
        I = 0;
        D = 0;
        L = 0;
        E = 0;
        for (int k = 0; k < NV; k++) {
            S[k] = 0;
            R[k] = std::make_unique<Reduction<T>>();
            V[k] = std::make_unique<ReductionVector<T>>(5);
        }
        for (const auto &o : script)
            step(o);
        for (int k = 0; k < NV; k++) {
            R[k].reset();
            V[k].reset();
        }
    }

    void step(const hx::op_t &o) {
        const std::string &n = o.name;
        CoordinateVector size = lattice.size();
        T one = u;
        // ---------------------------------------------------------- plain variables
        if (n == "assign") { // k v
            S[o.i(0)] = hx::enc<T>(o.i(1));
        } else if (n == "allred") { // b
            hila::set_allreduce(o.i(0) != 0);
        } else if (n == "sum") { // k P a m b
            T s = S[o.i(0)];
            Parity p = o.par(1);
            int a = o.i(2), m = o.i(3), b = o.i(4);
            onsites(p) {
                s += weight(X.coordinates(), size, a, m, b) * one;
            }
            S[o.i(0)] = s;
        } else if (n == "sub") { // k P a m b       -=
            T s = S[o.i(0)];
            Parity p = o.par(1);
            int a = o.i(2), m = o.i(3), b = o.i(4);
            onsites(p) {
                T w = weight(X.coordinates(), size, a, m, b) * one;
                s += -w;
            }
            S[o.i(0)] = s;
        } else if (n == "cnd") { // k P a m b     only sites with weight of the right kind
            T s = S[o.i(0)];
            Parity p = o.par(1);
            int a = o.i(2), m = o.i(3), b = o.i(4);
            onsites(p) {
                int i = index(X.coordinates(), size);
                if (i % m == 1) {
                    s += (a * i + b) * one;
                }
            }
            S[o.i(0)] = s;
        } else if (n == "two") { // k l P a m b      two variables in one loop, the second gets the negative double
            T s = S[o.i(0)], t = S[o.i(1)];
            Parity p = o.par(2);
            int a = o.i(3), m = o.i(4), b = o.i(5);
            onsites(p) {
                T w = weight(X.coordinates(), size, a, m, b) * one;
                s += w;
                t += (-2) * w;
            }
            S[o.i(0)] = s;
            S[o.i(1)] = t;
        } else if (n == "mix") { // P a m b    variables of three types in one loop
            int i1 = I;
            double d1 = D;
            float f1 = L;
            Parity p = o.par(0);
            int a = o.i(1), m = o.i(2), b = o.i(3);
            onsites(p) {
                int w = weight(X.coordinates(), size, a, m, b);
                i1 += w;
                f1 += 2 * w;
                d1 += 3 * w;
            }
            I = i1;
            D = d1;
            L = f1;
        } else if (n == "fld") { // k P a m b        loop that also writes a field and reads a neighbour
            T s = S[o.i(0)];
            Parity p = o.par(1);
            int a = o.i(2), m = o.i(3), b = o.i(4);
            onsites(ALL) F[0][X] = weight(X.coordinates(), size, a, m, b) * one;
            onsites(p) {
                F[1][X] = F[0][X + e_x];
                s += F[0][X + e_x] + F[0][X - e_x];
            }
            S[o.i(0)] = s;
        } else if (n == "fsum") { // k P a m b      Field::sum, allreduce
            Parity p = o.par(1);
            int a = o.i(2), m = o.i(3), b = o.i(4);
            onsites(ALL) F[0][X] = weight(X.coordinates(), size, a, m, b) * one;
            S[o.i(0)] = F[0].sum(p);
        } else if (n == "fsumr") { // k P a m b      Field::sum, not all-reduced
            Parity p = o.par(1);
            int a = o.i(2), m = o.i(3), b = o.i(4);
            onsites(ALL) F[0][X] = weight(X.coordinates(), size, a, m, b) * one;
            S[o.i(0)] = F[0].sum(p, false);

        } else if (n == "prod") { // k P m r        S[k] *= 2 at some sites, -1 at others
            #ifdef RED_ARITH
            {
                T s = S[o.i(0)];
                Parity p = o.par(1);
                int m = o.i(2), r = o.i(3);
                onsites(p) {
                    int i = index(X.coordinates(), size);
                    T w = 1;
                    if (i % m == r)
                        w = 2;
                    if (i % 5 == 1)
                        w = -w;
                    s *= w;
                }
                S[o.i(0)] = s;
            }
#endif
        } else if (n == "fprod") { // k P m r      Field::product
#ifdef RED_ARITH
            {
                Parity p = o.par(1);
                int m = o.i(2), r = o.i(3);
                onsites(ALL) {
                    int i = index(X.coordinates(), size);
                    T w = 1;
                    if (i % m == r)
                        w = 2;
                    if (i % 5 == 1)
                        w = -w;
                    F[0][X] = w;
                }
                S[o.i(0)] = F[0].product(p);
            }
#endif
        } else if (n == "ext") { // P a m b big        extended precision: big terms cancel between even and odd sites
            ExtendedPrecision e1 = E;
            Parity p = o.par(0);
            int a = o.i(1), m = o.i(2), b = o.i(3);
            double big = o.i(4) ? 1.0e25 : 0.0;
            onsites(p) {
                double w = weight(X.coordinates(), size, a, m, b);
                if (X.parity() == EVEN)
                    e1 += big;
                else
                    e1 += -big;
                e1 += w;
            }
            E = e1;
        } else if (n == "showx") {
            hx::out().each(o.line, {(int)E.to_double()});
        } else if (n == "nop") { // P       a loop without reductions
            Parity p = o.par(0);
            onsites(p) F[1][X] = one;
        } else if (n == "show") { // k  -> every rank
            hx::out().each(o.line, {hx::decode(S[o.i(0)])});
        } else if (n == "showm") { //   -> every rank: the three variables of mix
            hx::out().each(o.line, {I, (int)L, (int)D});
            // ---------------------------------------------------------- Reduction<T>
        } else if (n == "rnew") { // k v
            R[o.i(0)].reset();
            R[o.i(0)] = std::make_unique<Reduction<T>>(hx::enc<T>(o.i(1)));
        } else if (n == "rset") { // k v
            T v = hx::enc<T>(o.i(1));
            *R[o.i(0)] = v;
        } else if (n == "rmode") { // k allreduce nonblocking delayed
            R[o.i(0)]->allreduce(o.i(1) != 0).nonblocking(o.i(2) != 0).delayed(o.i(3) != 0);
        } else if (n == "rloop") { // k P a m b
            Reduction<T> &r = *R[o.i(0)];
            Parity p = o.par(1);
            int a = o.i(2), m = o.i(3), b = o.i(4);
            onsites(p) {
                r += weight(X.coordinates(), size, a, m, b) * one;
            }
        } else if (n == "rtwo") { // k l P a m b
            Reduction<T> &r = *R[o.i(0)], &q = *R[o.i(1)];
            Parity p = o.par(2);
            int a = o.i(3), m = o.i(4), b = o.i(5);
            onsites(p) {
                T w = weight(X.coordinates(), size, a, m, b) * one;
                r += w;
                q += (-2) * w;
            }
        } else if (n == "rsum") { // k l P a m b     Reduction k and plain variable l
            Reduction<T> &r = *R[o.i(0)];
            T s = S[o.i(1)];
            Parity p = o.par(2);
            int a = o.i(3), m = o.i(4), b = o.i(5);
            onsites(p) {
                T w = weight(X.coordinates(), size, a, m, b) * one;
                r += w;
                s += (-2) * w;
            }
            S[o.i(1)] = s;
        } else if (n == "rstart") { // k
            R[o.i(0)]->start_reduce();
        } else if (n == "rred") { // k
            R[o.i(0)]->reduce();
        } else if (n == "rval") { // k  -> every rank
            hx::out().each(o.line, {hx::decode(R[o.i(0)]->value())});
            // ---------------------------------------------------------- ReductionVector<T>
        } else if (n == "vnew") { // k n v
            V[o.i(0)].reset();
            V[o.i(0)] = std::make_unique<ReductionVector<T>>(o.i(1), hx::enc<T>(o.i(2)));
        } else if (n == "vset") { // k v
            T v = hx::enc<T>(o.i(1));
            *V[o.i(0)] = v;
        } else if (n == "vzero") { // k
            if (o.line % 2)
                *V[o.i(0)] = nullptr;
            else
                *V[o.i(0)] = 0;
        } else if (n == "vel") { // k i v
            (*V[o.i(0)])[o.i(1)] = hx::enc<T>(o.i(2));
        } else if (n == "vmode") { // k allreduce nonblocking delayed
            V[o.i(0)]->allreduce(o.i(1) != 0).nonblocking(o.i(2) != 0).delayed(o.i(3) != 0);
        } else if (n == "vloop") { // k P a m b      element (index / 2) % size
            ReductionVector<T> &r = *V[o.i(0)];
            Parity p = o.par(1);
            int a = o.i(2), m = o.i(3), b = o.i(4);
            int sz = r.size();
            onsites(p) {
                int i = index(X.coordinates(), size);
                r[(i / 2) % sz] += weight(X.coordinates(), size, a, m, b) * one;
            }
        } else if (n == "vtwo") { // k l P a m b     two vectors (or twice the same element range) and a plain sum
            ReductionVector<T> &r = *V[o.i(0)], &q = *V[o.i(1)];
            T s = S[0];
            Parity p = o.par(2);
            int a = o.i(3), m = o.i(4), b = o.i(5);
            int sr = r.size(), sq = q.size();
            onsites(p) {
                auto c = X.coordinates();
                int i = index(c, size);
                T w = weight(c, size, a, m, b) * one;
                r[(i / 2) % sr] += w;
                q[c[e_x] % sq] += (-2) * w;
                s += w;
            }
            S[0] = s;
        } else if (n == "vprod") { // k P m r
            #ifdef RED_ARITH
            {
                ReductionVector<T> &v = *V[o.i(0)];
                Parity p = o.par(1);
                int m = o.i(2), r = o.i(3);
                int sz = v.size();
                onsites(p) {
                    int i = index(X.coordinates(), size);
                    T w = 1;
                    if (i % m == r)
                        w = 2;
                    if (i % 5 == 1)
                        w = -w;
                    v[(i / 2) % sz] *= w;
                }
            }
#endif
        } else if (n == "vstart") {
            V[o.i(0)]->start_reduce();
        } else if (n == "vred") {
            V[o.i(0)]->reduce();
        } else if (n == "vwait") {
            V[o.i(0)]->wait();
        } else if (n == "vpush") { // k v
            V[o.i(0)]->push_back(hx::enc<T>(o.i(1)));
        } else if (n == "vpop") {
            V[o.i(0)]->pop_back();
        } else if (n == "vsize") { // k n v    resize
            V[o.i(0)]->resize(o.i(1), hx::enc<T>(o.i(2)));
        } else if (n == "vval") { // k -> every rank
            std::vector<int> r;
            for (const auto &x : *V[o.i(0)])
                r.push_back(hx::decode(x));
            hx::out().each(o.line, r);
        } else {
            step2(o);
        }
    }

    // -------------------------------------------------------------- min and max: values are ranks in a table
    static const std::vector<T> &table() {
        static std::vector<T> t;
        if constexpr (hila::is_arithmetic<T>::value) {
            if (t.empty()) {
                using L = std::numeric_limits<T>;
                if (L::has_infinity)
                    t.push_back(-L::infinity());
                t.push_back(L::lowest());
                t.push_back(L::lowest() / 2);
                t.push_back(-1000);
                t.push_back(-1);
                if (L::has_infinity) {
                    t.push_back(-(T)1e-10);
                    t.push_back(-L::min());
                }
                t.push_back(0);
                if (L::has_infinity)
                    t.push_back(L::min());
                t.push_back(1);
                t.push_back(1000);
                t.push_back(L::max() / 2);
                t.push_back(L::max());
                if (L::has_infinity)
                    t.push_back(L::infinity());
            }
        }
        return t;
    }
    static int code(T v) {
        const auto &t = table();
        for (int i = 0; i < (int)t.size(); i++)
            if constexpr (hila::is_arithmetic<T>::value)
                if (t[i] == v)
                    return i;
        return hx::BAD;
    }
    void step2(const hx::op_t &o) {
        const std::string &n = o.name;
        if (n == "mset") { // f n codes..
            if constexpr (hila::is_arithmetic<T>::value) {
                Field<T> &f = F[2 + o.i(0)];
                int k = o.i(1);
                std::vector<CoordinateVector> cl;
                std::vector<T> vl;
                for (int i = 0; i < k; i++) {
                    cl.push_back(hx::unlexi(i));
                    vl.push_back(table().at(o.i(2 + i) % table().size()));
                }
                f = 0;
                f.set_elements(vl, cl);
            }
        } else if (n == "ncodes") {
            hx::out().all(o.line, {(int)table().size()});
        } else if (n == "mm") { // f P max loc  -> every rank: value [, location]
            if constexpr (std::is_same<T, int>::value || std::is_same<T, float>::value ||
                          std::is_same<T, double>::value || std::is_same<T, long>::value) {
                const Field<T> &f = F[2 + o.i(0)];
                Parity p = o.par(1);
                T v;
                CoordinateVector c;
                foralldir(d) c[d] = -7;
                if (o.i(3)) {
                    if (o.a[1] == "A" && o.i(3) == 2)
                        v = o.i(2) ? f.max(c) : f.min(c);
                    else
                        v = o.i(2) ? f.max(p, c) : f.min(p, c);
                } else
                    v = o.i(2) ? f.max(p) : f.min(p);
                std::vector<int> r = {code(v)};
                if (o.i(3)) {
                    bool in = true;
                    foralldir(d) if (c[d] < 0 || c[d] >= lattice.size(d)) in = false;
                    r.push_back(in ? hx::lexi(c) : -1);
                }
                hx::out().each(o.line, r);
            }
        } else {
            if (hila::myrank() == 0)
                std::cerr << "HARNESS: unknown operation " << n << '\n';
            hxraw::abort_run(77);
        }
    }
};

} // namespace red
#endif
