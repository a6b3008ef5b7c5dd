// Field machine: executes scripts of field operations on real Field<T>s.
// Each operation here is one action of spec/FieldMachine.tla.
#ifndef FM_H_
#define FM_H_
#include "hx.h"
#include <memory>

namespace fm {

constexpr int NF = 6;

template <typename T>
struct other {
    using type = double;
};
template <>
struct other<double> {
    using type = int;
};
template <>
struct other<Complex<double>> {
    using type = Complex<float>;
};
template <>
struct other<Vector<3, float>> {
    using type = Vector<3, double>;
};
template <>
struct other<SquareMatrix<2, Complex<double>>> {
    using type = SquareMatrix<2, Complex<float>>;
};

template <typename T>
struct machine {
    using other_t = typename other<T>::type;
    std::unique_ptr<Field<T>> F[NF];

    machine() {
        for (auto &p : F)
            p = std::make_unique<Field<T>>();
    }

    void run(const std::vector<hx::op_t> &script) {
        for (const auto &o : script)
            step(o);
        for (auto &p : F)
            p.reset();
    }

    Field<T> &fld(const hx::op_t &o, int k) {
        return *F[o.i(k)];
    }

    void step(const hx::op_t &o) {
        const std::string &n = o.name;

        if (n == "set") { // f P v       f[P] = v
            Field<T> &f = fld(o, 0);
            Parity p = o.par(1);
            T v = hx::enc<T>(o.i(2));
            f[p] = v;
        } else if (n == "cset") { // f P a b     f[P] = a * (lexicographic index) + b
            Field<T> &f = fld(o, 0);
            Parity p = o.par(1);
            T a = hx::enc<T>(o.i(2)), b = hx::enc<T>(o.i(3));
            CoordinateVector size = lattice.size();
            onsites(p) {
                auto c = X.coordinates();
                int s = 0, m = 1;
                foralldir(d) {
                    s += m * c[d];
                    m *= size[d];
                }
                f[X] = a * s + b;
            }
        } else if (n == "cp") { // f P g d      f[P] = g[X+d], d = 0: g[X]
            Field<T> &f = fld(o, 0);
            const Field<T> &g = fld(o, 2);
            Parity p = o.par(1);
            if (o.i(3) == 0)
                f[p] = g[X];
            else {
                Direction d = o.dir(3);
                f[p] = g[X + d];
            }
        } else if (n == "self") { // f P d   f[P] = f[X+d], P one parity
            Field<T> &f = fld(o, 0);
            Parity p = o.par(1);
            Direction d = o.dir(2);
            f[p] = f[X + d];
        } else if (n == "two") { // f P g d1 h d2 s   f[P] = g[X+d1] + s*h[X+d2]
            Field<T> &f = fld(o, 0);
            const Field<T> &g = fld(o, 2);
            const Field<T> &h = fld(o, 4);
            Parity p = o.par(1);
            Direction d1 = o.dir(3), d2 = o.dir(5);
            if (o.i(6) > 0)
                f[p] = g[X + d1] + h[X + d2];
            else
                onsites(p) {
                    auto a = g[X + d1];
                    f[X] = a - h[X + d2];
                }
        } else if (n == "star") { // f P g    f[P] = sum over all 2*NDIM neighbours of g, minus 2*NDIM g
            Field<T> &f = fld(o, 0);
            const Field<T> &g = fld(o, 2);
            Parity p = o.par(1);
            onsites(p) {
                f[X] = -2 * NDIM * g[X];
                foralldir(d) f[X] += g[X + d] + g[X - d];
            }
        } else if (n == "fix") { // f P g    neighbours in fixed directions: g[X+e_x] - g[X-e_x]
            Field<T> &f = fld(o, 0);
            const Field<T> &g = fld(o, 2);
            Parity p = o.par(1);
            f[p] = g[X + e_x] - g[X - e_x];
        } else if (n == "add") { // f P g d      f[P] += g[X+d]
            Field<T> &f = fld(o, 0);
            const Field<T> &g = fld(o, 2);
            Parity p = o.par(1);
            if (o.i(3) == 0)
                f[p] += g[X];
            else {
                Direction d = o.dir(3);
                f[p] += g[X + d];
            }
        } else if (n == "cond") { // f P g d m r   if (sum of coordinates*(1,2,3..) % m == r) f[X] = g[X+d]
            Field<T> &f = fld(o, 0);
            const Field<T> &g = fld(o, 2);
            Parity p = o.par(1);
            Direction d = o.dir(3);
            int m = o.i(4), r = o.i(5);
            onsites(p) {
                auto c = X.coordinates();
                int s = 0;
                foralldir(dd) s += ((int)dd + 1) * c[dd];
                if (s % m == r)
                    f[X] = g[X + d];
            }
        } else if (n == "swp") { // f P g        exchange f and g on P in one loop
            Field<T> &f = fld(o, 0);
            Field<T> &g = fld(o, 2);
            Parity p = o.par(1);
            onsites(p) {
                auto t = f[X];
                f[X] = g[X];
                g[X] = t;
            }
        } else if (n == "gat") { // g d P
            fld(o, 0).start_gather(o.dir(1), o.par(2));
        } else if (n == "gwait") { // g d P
            fld(o, 0).gather(o.dir(1), o.par(2));
        } else if (n == "asgv") { // f v        f = v
            T v = hx::enc<T>(o.i(1));
            fld(o, 0) = v;
        } else if (n == "copy") { // f g      f = g
            fld(o, 0) = fld(o, 1);
        } else if (n == "move") { // f g
            fld(o, 0) = std::move(fld(o, 1));
        } else if (n == "conv") { // f g      f = g by way of a field of another element type
            Field<other_t> u = fld(o, 1);
            fld(o, 0) = u;
        } else if (n == "swap") { // f g
            std::swap(fld(o, 0), fld(o, 1));
        } else if (n == "clear") { // f
            fld(o, 0).clear();
        } else if (n == "ctor") { // f g      destroy f, construct anew as copy of g
            auto q = std::make_unique<Field<T>>(fld(o, 1));
            F[o.i(0)] = std::move(q);
        } else if (n == "ctorm") { // f g     destroy f, construct anew, moved from g
            auto q = std::make_unique<Field<T>>(std::move(fld(o, 1)));
            F[o.i(0)] = std::move(q);
        } else if (n == "ctorv") { // f v
            T v = hx::enc<T>(o.i(1));
            F[o.i(0)] = std::make_unique<Field<T>>(v);
        } else if (n == "del") { // f         destroy and leave default constructed
            F[o.i(0)] = std::make_unique<Field<T>>();
        } else if (n == "plus") { // f g h     f = g + h  (field expression)
            fld(o, 0) = fld(o, 1) + fld(o, 2);
        } else if (n == "pluseq") { // f g     f += g
            fld(o, 0) += fld(o, 1);
        } else if (n == "mineq") { // f g     f -= g
            fld(o, 0) -= fld(o, 1);
        } else if (n == "neg") { // f g      f = -g
            fld(o, 0) = -fld(o, 1);
        } else if (n == "setel") { // f s v
            Field<T> &f = fld(o, 0);
            T v = hx::enc<T>(o.i(2));
            f.set_element(hx::unlexi(o.i(1)), v);
        } else if (n == "setelb") { // f s v     by operator[]
            Field<T> &f = fld(o, 0);
            CoordinateVector c = hx::unlexi(o.i(1));
            T v = hx::enc<T>(o.i(2));
            f[c] = v;
        } else if (n == "addel") { // f s v
            Field<T> &f = fld(o, 0);
            CoordinateVector c = hx::unlexi(o.i(1));
            T v = hx::enc<T>(o.i(2));
            f[c] += v;
        } else if (n == "subel") { // f s v
            Field<T> &f = fld(o, 0);
            CoordinateVector c = hx::unlexi(o.i(1));
            T v = hx::enc<T>(o.i(2));
            f[c] -= v;
        } else if (n == "mulel") { // f s k      f[c] *= k
            Field<T> &f = fld(o, 0);
            CoordinateVector c = hx::unlexi(o.i(1));
            int k = o.i(2);
            f[c] *= k;
        } else if (n == "cmpel") { // f s k      exact multiple: f[c] /= k
            Field<T> &f = fld(o, 0);
            CoordinateVector c = hx::unlexi(o.i(1));
            int k = o.i(2);
            f[c] *= k;
            f[c] /= k;
        } else if (n == "getel") { // f s  -> value on all ranks
            const Field<T> &f = fld(o, 0);
            hx::out().all(o.line, {hx::decode(f.get_element(hx::unlexi(o.i(1))))});
        } else if (n == "getelb") { // f s
            const Field<T> &f = fld(o, 0);
            CoordinateVector c = hx::unlexi(o.i(1));
            T v = f[c];
            hx::out().all(o.line, {hx::decode(v)});
        } else if (n == "setels") { // f n s.. v..
            Field<T> &f = fld(o, 0);
            int k = o.i(1);
            std::vector<CoordinateVector> cl;
            std::vector<T> vl;
            for (int i = 0; i < k; i++) {
                cl.push_back(hx::unlexi(o.i(2 + i)));
                vl.push_back(hx::enc<T>(o.i(2 + k + i)));
            }
            f.set_elements(vl, cl);
        } else if (n == "getels") { // f bcast n s..
            const Field<T> &f = fld(o, 0);
            int k = o.i(2);
            std::vector<CoordinateVector> cl;
            for (int i = 0; i < k; i++)
                cl.push_back(hx::unlexi(o.i(3 + i)));
            report(o, f.get_elements(cl, o.i(1) != 0), o.i(1) != 0);
        } else if (n == "getsub") { // f bcast cmin.. cmax..
            const Field<T> &f = fld(o, 0);
            report(o, f.get_subvolume(o.cv(2), o.cv(2 + NDIM), o.i(1) != 0), o.i(1) != 0);
        } else if (n == "getslice") { // f bcast c..   (negative: whole direction)
            const Field<T> &f = fld(o, 0);
            CoordinateVector c = o.cv(2);
            report(o, f.get_slice(c, o.i(1) != 0), o.i(1) != 0);
        } else if (n == "getloc") { // f        local data, as (site,value) in the order of the local coordinates
            const Field<T> &f = fld(o, 0);
            std::vector<T> b;
            f.copy_local_data(b);
            std::vector<int> r;
            for (size_t i = 0; i < b.size(); i++) {
                r.push_back(hx::lexi(local_coords(i)));
                r.push_back(hx::decode(b[i]));
            }
            hx::out().each(o.line, r);
        } else if (n == "setloc") { // f a b    local data = a*lexi+b
            Field<T> &f = fld(o, 0);
            std::vector<T> b(lattice->mynode.volume);
            for (size_t i = 0; i < b.size(); i++)
                hx::encode(b[i], o.i(1) * hx::lexi(local_coords(i)) + o.i(2));
            f.set_local_data(b);
        } else if (n == "gethalo") { // f  -> per rank: min.. size.. values
            const Field<T> &f = fld(o, 0);
            std::vector<T> b;
            f.copy_local_data_with_halo(b);
            std::vector<int> r;
            foralldir(d) r.push_back(lattice->mynode.min[d]);
            foralldir(d) r.push_back(lattice->mynode.size[d]);
            for (auto &v : b)
                r.push_back(hx::decode(v));
            hx::out().each(o.line, r);
        } else if (n == "bc") { // f d b
            fld(o, 0).set_boundary_condition(o.dir(1),
                                             o.i(2) ? hila::bc::ANTIPERIODIC : hila::bc::PERIODIC);
        } else if (n == "cpbc") { // f g
            fld(o, 0).copy_boundary_condition(fld(o, 1));
        } else if (n == "getbc") { // f   -> for every direction, both orientations
            const Field<T> &f = fld(o, 0);
            std::vector<int> r;
            foralldir(d) {
                r.push_back(f.get_boundary_condition(d) == hila::bc::ANTIPERIODIC);
                r.push_back(f.get_boundary_condition(-d) == hila::bc::ANTIPERIODIC);
            }
            hx::out().all(o.line, r);
        } else if (n == "shift") { // f g v..       f = g.shift(v)
            fld(o, 0) = fld(o, 1).shift(o.cv(2));
        } else if (n == "shiftp") { // f P g v..    g.shift(v, f, P)
            fld(o, 2).shift(o.cv(3), fld(o, 0), o.par(1));
        } else if (n == "off") { // f P g v..       f[P] = g[X+v]
            Field<T> &f = fld(o, 0);
            const Field<T> &g = fld(o, 2);
            Parity p = o.par(1);
            CoordinateVector v = o.cv(3);
            f[p] = g[X + v];
        } else if (n == "off2") { // f P g v.. d     f[P] = g[X+v] + g[X+d]
            Field<T> &f = fld(o, 0);
            const Field<T> &g = fld(o, 2);
            Parity p = o.par(1);
            CoordinateVector v = o.cv(3);
            Direction d = o.dir(3 + NDIM);
            onsites(p) {
                f[X] = g[X + v] + g[X + d];
            }
        } else if (n == "off3") { // f P g u.. w.. z..     f[P] = g[X+u] + g[X+w] - g[X+z]
            Field<T> &f = fld(o, 0);
            const Field<T> &g = fld(o, 2);
            Parity p = o.par(1);
            CoordinateVector u = o.cv(3), w = o.cv(3 + NDIM), z = o.cv(3 + 2 * NDIM);
            onsites(p) {
                f[X] = g[X + u] + g[X + w];
                f[X] -= g[X + z];
            }
        } else if (n == "dump") { // f
            hx::dump(o.line, fld(o, 0));
        } else if (n == "init") { // f  -> is_initialized per parity
            const Field<T> &f = fld(o, 0);
            hx::out().all(o.line, {f.is_initialized(EVEN), f.is_initialized(ODD), f.is_allocated()});
#ifndef AVX // Field == Field does not compile with the AVX target
        } else if (n == "eq") { // f g  -> f == g
            hx::out().all(o.line, {fld(o, 0) == fld(o, 1)});
#endif
        } else if (n == "sum") { // f P
            hx::out().all(o.line, {hx::decode(fld(o, 0).sum(o.par(1)))});
        } else {
            if (hila::myrank() == 0)
                std::cerr << "HARNESS: unknown operation " << n << '\n';
            hxraw::abort_run(77);
        }
    }

    // the i'th site of this rank's box, first coordinate fastest
    static CoordinateVector local_coords(size_t i) {
        CoordinateVector c;
        foralldir(d) {
            c[d] = lattice->mynode.min[d] + (int)(i % lattice->mynode.size[d]);
            i /= lattice->mynode.size[d];
        }
        return c;
    }

    void report(const hx::op_t &o, const std::vector<T> &v, bool all) {
        std::vector<int> r;
        for (const auto &x : v)
            r.push_back(hx::decode(x));
        if (all)
            hx::out().all(o.line, r);
        else
            hx::out().zero(o.line, r);
    }
};

} // namespace fm
#endif
