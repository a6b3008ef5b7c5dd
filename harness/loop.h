// Generated site loops (vlib/loops.py): the kernels get their state through this.
#ifndef LOOP_H_
#define LOOP_H_
#include "hx.h"

namespace lp {
constexpr int NF = 4;

template <typename T>
struct state {
    Field<T> F[NF];
    T c[3];    // external constants
    T ca[4];   // external constant array
    int n;     // external number
    Direction dd;
    Parity par;
    T s[2];    // results of reductions
};

template <typename T>
using kernel = void (*)(state<T> &);

#pragma hila loop_function
inline int lexof(const CoordinateVector &c, const CoordinateVector &size) {
    int s = 0, k = 1;
    foralldir(d) {
        s += k * c[d];
        k *= size[d];
    }
    return s;
}

template <typename T>
void run(const std::vector<hx::op_t> &script, const std::vector<kernel<T>> &kern) {
    state<T> M;
    auto &O = hx::out();
    M.n = 0;
    M.dd = e_x;
    M.par = ALL;
    for (auto &x : M.c)
        x = 0;
    for (auto &x : M.ca)
        x = 0;
    for (auto &x : M.s)
        x = 0;
    for (const auto &o : script) {
        if (o.name == "init") {
            int k = o.i(0), a = o.i(1), m = o.i(2), b = o.i(3);
            M.F[k].check_alloc();
            for (unsigned i = 0; i < lattice->mynode.volume; i++)
                M.F[k].set_value_at(a * (hx::lexi(lattice->coordinates(i)) % m) + b, i);
            M.F[k].mark_changed(ALL);
        } else if (o.name == "const") {
            for (int i = 0; i < 3; i++)
                M.c[i] = o.i(i);
            for (int i = 0; i < 4; i++)
                M.ca[i] = o.i(3 + i);
            M.n = o.i(7);
            M.dd = o.dir(8);
        } else if (o.name == "bc") {
            M.F[o.i(0)].set_boundary_condition(o.dir(1), o.i(2) ? hila::bc::ANTIPERIODIC : hila::bc::PERIODIC);
        } else if (o.name == "run") {
            M.par = o.par(1);
            M.s[0] = o.i(2);
            M.s[1] = o.i(3);
            kern.at(o.i(0))(M);
            O.all(o.line, {hx::decode(M.s[0]), hx::decode(M.s[1])});
        } else if (o.name == "dump") {
            hx::dump(o.line, M.F[o.i(0)]);
        }
    }
    for (auto &f : M.F)
        f.clear();
}
} // namespace lp
#endif
