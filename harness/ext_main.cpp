// ext TYPE SCRIPT OUT NX NY ..          extended precision numbers; TYPE: exponent of the unit
// Every number is a combination a 2^100 + b 2^50 + c (times the unit) with small a, b, c, shown as a, b, c.
#include "hx.h"

static double UNIT = 1;
static double scale(int s) {
    return s == 0 ? std::ldexp(UNIT, 100) : s == 1 ? std::ldexp(UNIT, 50) : UNIT;
}

// adds x to the parts, false if it is not such a combination
static bool parts(double x, double *p) {
    for (int s = 0; s < 3; s++) {
        double q = std::nearbyint(x / scale(s));
        p[s] += q;
        x -= q * scale(s);
    }
    return x == 0;
}
static void put(std::vector<int> &r, const double *p, bool ok) {
    for (int s = 0; s < 3; s++)
        r.push_back(ok && p[s] > -2e9 && p[s] < 2e9 ? (int)p[s] : hx::BAD);
}
static void show(std::vector<int> &r, const ExtendedPrecision &e) {
    double p[3] = {0, 0, 0};
    bool ok = parts(e.value, p);
    ok = parts(e.compensation, p) && ok;
    ok = parts(e.compensation2, p) && ok;
    put(r, p, ok);
}
// the number as a double: its sign and leading part
static void lead(std::vector<int> &r, double d) {
    double p[3] = {0, 0, 0};
    parts(d, p);
    int s = p[0] != 0 ? 0 : p[1] != 0 ? 1 : 2;
    r.push_back(s);
    r.push_back(p[s] > -2e9 && p[s] < 2e9 ? (int)p[s] : hx::BAD);
}

template <typename A, typename B>
static void compare(std::vector<int> &r, const A &a, const B &b) {
    r.push_back((a == b) + 2 * (a != b) + 4 * (a < b) + 8 * (a > b) + 16 * (a <= b) + 32 * (a >= b));
}

static ExtendedPrecision R[6];

template <typename T>
static void witht(const hx::op_t &o, T v) {
    ExtendedPrecision &e = R[o.i(0)];
    const std::string &n = o.name;
    int l = o.i(4);
    if (n == "set")
        e = v;
    else if (n == "add")
        e += v;
    else if (n == "sub")
        e -= v;
    else if (n == "radd")
        e = R[l] + v;
    else if (n == "ladd")
        e = v + R[l];
    else if (n == "rsub")
        e = R[l] - v;
    else if (n == "lsub")
        e = v - R[l];
    else if (n == "rcmp") {
        std::vector<int> r;
        compare(r, e, v);
        hx::out().each(o.line, r);
    } else if (n == "lcmp") {
        std::vector<int> r;
        compare(r, v, e);
        hx::out().each(o.line, r);
    }
}
template <typename T>
static void mult(const hx::op_t &o, T v) {
    ExtendedPrecision &e = R[o.i(0)];
    if (o.name == "mul")
        e *= v;
    else if (o.name == "rmul")
        e = R[o.i(3)] * v;
    else
        e = v * R[o.i(3)];
}

static int weight(int x, int s, int seed) {
    int w = (x * (7 + seed % 5) + seed * (s + 3) + x * x * s) % 23;
    return (x + s + seed) % 3 == 0 ? 0 : w - 11;
}

int main(int argc, char **argv) {
    std::string typ = argv[1], script = argv[2], outname = argv[3];
    CoordinateVector size;
    foralldir(d) size[d] = std::stoi(argv[4 + (int)d]);
    UNIT = std::ldexp(1.0, std::stoi(typ));
    argc = 1;
    hila::initialize(argc, argv);
    lattice.setup(size);
    hx::out().open(outname);
    for (auto &e : R)
        e = 0;
    Field<double> g[3];
    {
        Field<float> gf = 0;
        for (auto &o : hx::read_script(script)) {
            const std::string &n = o.name;
            auto k = [&](int i) -> ExtendedPrecision & { return R[o.i(i)]; };
            if (n == "set" || n == "add" || n == "sub" || n == "radd" || n == "ladd" || n == "rsub" || n == "lsub" ||
                n == "rcmp" || n == "lcmp") { // k s v t l
                double v = o.i(2) * scale(o.i(1));
                switch (o.a[3][0]) {
                case 'd': witht(o, v); break;
                case 'f': witht(o, (float)v); break;
                case 'i': witht(o, (int)v); break;
                case 'u': witht(o, (unsigned)v); break;
                case 'l': witht(o, (long)v); break;
                case 'm': witht(o, (unsigned long)v); break;
                case 's': witht(o, (short)v); break;
                case 'c': witht(o, (unsigned char)v); break;
                case 'e': {
                    ExtendedPrecision x(v);
                    if (n == "set") k(0) = x;
                    else if (n == "add") k(0) += x;
                    else if (n == "sub") k(0) -= x;
                    else if (n == "radd") k(0) = k(4) + x;
                    else if (n == "ladd") k(0) = x + k(4);
                    else if (n == "rsub") k(0) = k(4) - x;
                    else if (n == "lsub") k(0) = x - k(4);
                    else {
                        std::vector<int> r;
                        if (n == "rcmp") compare(r, k(0), x); else compare(r, x, k(0));
                        hx::out().each(o.line, r);
                    }
                }
                }
            } else if (n == "mul" || n == "rmul" || n == "lmul") { // k v t l
                switch (o.a[2][0]) {
                case 'i': mult(o, o.i(1)); break;
                case 'u': mult(o, (unsigned)o.i(1)); break;
                case 'l': mult(o, (long)o.i(1)); break;
                case 'm': mult(o, (unsigned long)o.i(1)); break;
                }
            } else if (n == "addr") { // k l
                k(0) += k(1);
            } else if (n == "subr") {
                k(0) -= k(1);
            } else if (n == "copy") {
                k(0) = k(1);
            } else if (n == "neg") {
                k(0) = -k(1);
            } else if (n == "pos") {
                k(0) = +k(1);
            } else if (n == "sum") { // k l m
                k(0) = k(1) + k(2);
            } else if (n == "dif") {
                k(0) = k(1) - k(2);
            } else if (n == "cmp") { // k l
                std::vector<int> r;
                compare(r, k(0), k(1));
                hx::out().each(o.line, r);
            } else if (n == "show") { // k
                std::vector<int> r;
                show(r, k(0));
                hx::out().each(o.line, r);
            } else if (n == "dbl") { // k
                std::vector<int> r;
                lead(r, k(0).to_double());
                lead(r, static_cast<double>(k(0)));
                lead(r, hila::cast_to<double>(k(0)));
                hx::out().each(o.line, r);
            } else if (n == "fill") { // f s1 s2 seed      a field of two scales by parity
                Field<double> &h = g[o.i(0)];
                h = 0;
                for (int i = 0; i < (int)lattice->mynode.volume; i++) {
                    int x = hx::lexi(lattice->coordinates(i));
                    int s = o.i(1 + x % 2);
                    h.set_value_at(weight(x, s, o.i(3)) * scale(s), i);
                }
                h.mark_changed(ALL);
            } else if (n == "loop") { // k f P
                ExtendedPrecision e = k(0);
                Field<double> &h = g[o.i(1)];
                Parity p = o.par(2);
                onsites(p) e += h[X];
                k(0) = e;
            } else if (n == "two") { // k l f h P       two sums of two fields, differently
                ExtendedPrecision e = k(0), e2 = k(1);
                Field<double> &h = g[o.i(2)], &h2 = g[o.i(3)];
                Parity p = o.par(4);
                onsites(p) {
                    e += h[X];
                    if (X.coordinate(e_x) % 2 == 0) {
                        e2 += h2[X];
                        e2 += -h[X];
                    }
                }
                k(0) = e;
                k(1) = e2;
            } else if (n == "flt") { // k v P          a sum of floats and ints
                ExtendedPrecision e = k(0);
                float v = (float)(o.i(1) * UNIT);
                Parity p = o.par(2);
                gf[ALL] = v;
                onsites(p) {
                    e += gf[X];
                    e += 2 * v;
                }
                k(0) = e;
            } else if (n == "node") { // k s v all      every rank adds its own number, and they are summed
                ExtendedPrecision e = k(0);
                e += (hila::myrank() + 1) * o.i(2) * scale(o.i(1));
                reduce_node_sum_extended(&e, 1, o.i(3) != 0);
                if (o.i(3) == 0)
                    {
                        hila::broadcast(e.value);
                        hila::broadcast(e.compensation);
                        hila::broadcast(e.compensation2);
                    }
                k(0) = e;
            } else if (n == "nodes") { // k l a        two at once
                ExtendedPrecision v[2] = {k(0), k(1)};
                reduce_node_sum_extended(v, 2, true);
                k(0) = v[0];
                k(1) = v[1];
            }
        }
        for (auto &h : g)
            h.clear();
    }
    hx::out().zero(0, {1});
    hila::finishrun();
}
