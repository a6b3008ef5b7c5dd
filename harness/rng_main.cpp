// rng TYPE SCRIPT OUT NX NY ..        random numbers
// values are shown as two integers with the leading bits of the double
#include "hx.h"

static void bits(std::vector<int> &v, double d) {
    uint64_t u;
    memcpy(&u, &d, sizeof(u));
    v.push_back((int)(u >> 33));
    v.push_back((int)((u >> 2) & 0x7fffffff));
}
static bool in01(double d) {
    return d >= 0.0 && d < 1.0;
}
static Parity other(int i) {
    return i == 0 ? EVEN : (i == 1 ? ODD : ALL);
}

// all numbers of a field on this rank, in the order of the sites
template <typename T>
static std::vector<int> look(const Field<T> &f, Parity par, bool uniform) {
    using N = hila::arithmetic_type<T>;
    std::vector<int> v(1, 1);
    for (int i = 0; i < (int)lattice->mynode.volume; i++) {
        if (par != ALL && lattice->coordinates(i).parity() != par)
            continue;
        T t = f.get_value_at(i);
        const N *p = reinterpret_cast<const N *>(&t);
        for (size_t k = 0; k < sizeof(T) / sizeof(N); k++) {
            if (uniform ? !in01(p[k]) : !std::isfinite(p[k]))
                v[0] = 0;
            bits(v, p[k]);
        }
    }
    return v;
}

int main(int argc, char **argv) {
    std::string script = argv[2], out = argv[3];
    CoordinateVector size;
    foralldir(d) size[d] = atoi(argv[4 + (int)d]);
    char *av[] = {argv[0], nullptr};
    hila::initialize(1, av);
    lattice.setup(size);
    hx::out().open(out);
    auto s = hx::read_script(script);
    {
        Field<double> fd;
        Field<Complex<double>> fc;
        Field<Vector<3, double>> fv;
        fd = 0;
        fc = 0;
        fv = 0;
        for (auto &o : s) {
            std::vector<int> v(1, 1);
            if (o.name == "seed") {
                hila::seed_random((uint64_t)std::stoull(o.a[0]));
                if (o.i(1))
                    hila::seed_random((uint64_t)std::stoull(o.a[0]), false);
            } else if (o.name == "is") {
                hx::out().all(o.line, {(int)hila::is_rng_seeded()});
            } else if (o.name == "u") { // n numbers
                for (int i = 0; i < o.i(0); i++) {
                    double d;
                    if (i % 3 == 0)
                        d = hila::random();
                    else if (i % 3 == 1)
                        d = hila::random<double>();
                    else
                        hila::random(d);
                    if (!in01(d))
                        v[0] = 0;
                    bits(v, d);
                }
                hx::out().each(o.line, v);
            } else if (o.name == "g") {
                for (int i = 0; i < o.i(0); i++) {
                    double d;
                    if (i % 2 == 0)
                        d = hila::gaussrand();
                    else
                        hila::gaussian_random(d);
                    if (!std::isfinite(d))
                        v[0] = 0;
                    bits(v, d);
                }
                hx::out().each(o.line, v);
            } else if (o.name == "g2") {
                for (int i = 0; i < o.i(0); i++) {
                    double d, e;
                    d = hila::gaussrand2(e);
                    if (!std::isfinite(d) || !std::isfinite(e))
                        v[0] = 0;
                    bits(v, d);
                    bits(v, e);
                }
                hx::out().each(o.line, v);
            } else if (o.name == "zc") { // complex and vector variables
                Complex<double> c, d;
                c.random();
                d.gaussian_random();
                Vector<3, double> w;
                w.random();
                v[0] = in01(c.re) && in01(c.im) && in01(w[0]) && in01(w[1]) && in01(w[2]);
                for (double x : {c.re, c.im, d.re, d.im, w[0], w[1], w[2]})
                    bits(v, x);
                hx::out().each(o.line, v);
            } else if (o.name == "lu") { // site loops: parity
                Parity p = other(o.i(0));
                onsites(p) fd[X] = hila::random();
                hx::out().each(o.line, look(fd, p, true));
            } else if (o.name == "lc") {
                Parity p = other(o.i(0));
                onsites(p) fc[X].random();
                hx::out().each(o.line, look(fc, p, true));
            } else if (o.name == "lv") {
                Parity p = other(o.i(0));
                onsites(p) {
                    Vector<3, double> t;
                    hila::random(t);
                    fv[X] = t;
                }
                hx::out().each(o.line, look(fv, p, true));
            } else if (o.name == "lg") {
                Parity p = other(o.i(0));
                onsites(p) fd[X] = hila::gaussrand();
                hx::out().each(o.line, look(fd, p, false));
            } else if (o.name == "lgc") {
                Parity p = other(o.i(0));
                onsites(p) fc[X].gaussian_random();
                hx::out().each(o.line, look(fc, p, false));
            } else if (o.name == "lh") { // only some sites draw: the others keep their value
                fd = -1;
                onsites(ALL) {
                    if (X.coordinate(e_x) % 2 == 0)
                        fd[X] = hila::random();
                }
                for (int i = 0; i < (int)lattice->mynode.volume; i++) {
                    double d = fd.get_value_at(i);
                    if (lattice->coordinates(i)[0] % 2 == 0) {
                        bits(v, d);
                        if (!in01(d))
                            v[0] = 0;
                    } else if (d != -1)
                        v[0] = 0;
                }
                hx::out().each(o.line, v);
            } else if (o.name == "lf") { // field methods
                fd.random();
                hx::out().each(o.line, look(fd, ALL, true));
            } else if (o.name == "lfg") {
                fc.gaussian_random();
                hx::out().each(o.line, look(fc, ALL, false));
            } else if (o.name == "sh") { // n: own list
                std::vector<int> w;
                for (int i = 0; i < o.i(0); i++)
                    w.push_back(i);
                hila::shuffle(w);
                hx::out().each(o.line, w);
            } else if (o.name == "sha") {
                std::array<double, 5> w = {0, 1, 2, 3, 4};
                hila::shuffle(w);
                hx::out().each(o.line, {(int)w[0], (int)w[1], (int)w[2], (int)w[3], (int)w[4]});
            } else if (o.name == "sdp") {
                std::vector<int> w;
                for (const auto &x : hila::shuffle_directions_and_parities())
                    w.push_back(2 * (int)x.direction + (x.parity == EVEN ? 0 : (x.parity == ODD ? 1 : 100)));
                hx::out().each(o.line, w);
            } else if (o.name == "sd") {
                std::vector<int> w;
                for (Direction d : hila::shuffle_directions())
                    w.push_back((int)d);
                hx::out().each(o.line, w);
            } else if (o.name == "sp") {
                std::vector<int> w;
                for (Parity p : hila::shuffle_parities())
                    w.push_back(p == EVEN ? 0 : (p == ODD ? 1 : 100));
                hx::out().each(o.line, w);
            } else if (o.name == "mass") { // many numbers: kind n -> outside, counts of ten bins
                int n = o.i(1), bad = 0;
                std::vector<int> c(10, 0);
                for (int i = 0; i < n; i++) {
                    double d;
                    if (o.a[0] == "d")
                        d = hila::random();
                    else if (o.a[0] == "f")
                        d = hila::random<float>();
                    else if (o.a[0] == "c") {
                        Complex<float> z;
                        z.random();
                        d = std::max(z.re, z.im);
                        if (!in01(d))
                            bad++;
                        d = (i % 2) ? z.re : z.im;
                    } else {
                        Vector<3, float> z;
                        hila::random(z);
                        d = std::max(z[0], std::max(z[1], z[2]));
                        if (!in01(d))
                            bad++;
                        d = z[i % 3];
                    }
                    if (!in01(d))
                        bad++;
                    else
                        c[(int)(10 * d)]++;
                }
                v.assign(1, bad);
                for (int x : c)
                    v.push_back(x);
                hx::out().each(o.line, v);
            } else if (o.name == "massg") { // gaussian numbers: n -> counts of |x|<1/2, 1, 2, x<0
                std::vector<int> c(4, 0);
                for (int i = 0; i < o.i(1); i++) {
                    double d, e;
                    if (o.a[0] == "g")
                        d = hila::gaussrand();
                    else if (o.a[0] == "2") {
                        e = hila::gaussrand2(d);
                        if (i % 2)
                            d = e;
                    } else
                        d = hila::gaussian_random<float>();
                    c[0] += std::fabs(d) < 0.5;
                    c[1] += std::fabs(d) < 1;
                    c[2] += std::fabs(d) < 2;
                    c[3] += d < 0;
                }
                hx::out().each(o.line, c);
            } else if (o.name == "masss") { // shuffles of n, k times: how often element i ends up in place j
                int n = o.i(0);
                std::vector<int> c(n * n, 0), w(n);
                for (int k = 0; k < o.i(1); k++) {
                    for (int i = 0; i < n; i++)
                        w[i] = i;
                    hila::shuffle(w);
                    for (int j = 0; j < n; j++)
                        if (w[j] >= 0 && w[j] < n)
                            c[w[j] * n + j]++;
                }
                hx::out().each(o.line, c);
            } else if (o.name == "orders") { // k: how many different orders the shuffles of directions, parities give
                std::map<std::vector<int>, int> a, b;
                for (int k = 0; k < o.i(0); k++) {
                    std::vector<int> x, y;
                    for (Direction d : hila::shuffle_directions())
                        x.push_back(d);
                    for (Parity p : hila::shuffle_parities())
                        y.push_back(p == EVEN);
                    a[x]++;
                    b[y]++;
                }
                hx::out().all(o.line, {(int)a.size(), (int)b.size()});
            }
        }
    }
    hx::out().zero(0, {1});
    hila::finishrun();
}
