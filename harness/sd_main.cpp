// sd TYPE SCRIPT OUT NX NY ..          binning of modes and spectral densities
#include "hx.h"

// contents: small integers from the site and the number of the component
static int val(int s, int c, int seed) {
    return ((s * s * 3 + s * (7 + c) + c * 5 + seed * ((s % 7) + 1)) % 11) - 5;
}

template <typename T>
static void fill(Field<T> &f, int seed) {
    using N = hila::arithmetic_type<T>;
    constexpr int n = sizeof(T) / sizeof(N);
    f.clear();
    f[ALL] = 0;
    for (int i = 0; i < (int)lattice->mynode.volume; i++) {
        T t;
        N *p = reinterpret_cast<N *>(&t);
        int s = hx::lexi(lattice->coordinates(i));
        for (int c = 0; c < n; c++)
            p[c] = val(s, c, seed);
        f.set_value_at(t, i);
    }
    f.mark_changed(ALL);
}

static int units(double d, double scale) {
    double r = std::round(d * scale);
    return r > -2.0e9 && r < 2.0e9 ? (int)r : hx::BAD;
}

template <typename T>
static void numbers(const std::vector<T> &v, std::vector<int> &r) {
    using N = hila::arithmetic_type<T>;
    constexpr int n = sizeof(T) / sizeof(N);
    for (auto &t : v) {
        const N *p = reinterpret_cast<const N *>(&t);
        for (int c = 0; c < n; c++)
            r.push_back(units(p[c], 16));
    }
}

template <typename T>
static void field_op(const hx::op_t &o, hila::k_binning &kb, Field<T> *f) {
    int k = o.i(2);
    std::vector<int> r;
    if (o.name == "set") {
        fill(f[k], o.i(3));
        return;
    }
    if (o.name == "bin")
        numbers(kb.bin_k_field(f[k]), r);
    else if (o.name == "sqn")
        numbers(kb.bin_k_field_squarenorm(f[k]), r);
    else if (o.name == "sd") {
        if constexpr (std::is_floating_point<hila::arithmetic_type<T>>::value)
            numbers(kb.spectraldensity(f[k]), r);
    }
    hx::out().zero(o.line, r);
}

int main(int argc, char **argv) {
    std::string script = argv[2], out = argv[3];
    CoordinateVector size;
    foralldir(d) size[d] = atoi(argv[4 + (int)d]);
    char *av[] = {argv[0], nullptr};
    hila::initialize(1, av);
    lattice.setup(size);
    hx::out().open(out);
    auto s = hx::read_script(script);
    {
        hila::k_binning kb[3];
        Field<Complex<double>> z[3];
        Field<Complex<float>> c[3];
        Field<Vector<2, Complex<double>>> v[3];
        Field<double> d[3];
        Field<float> f[3];
        Field<Vector<3, float>> w[3];
        Field<Vector<2, double>> r[3];
        Field<int> n[3];
        for (auto &o : s) {
            auto &b = kb[o.i(0)];
            if (o.name == "new") {
                if (o.i(1) == 0)
                    b = hila::k_binning();
                else
                    b = hila::k_binning(o.i(1));
            } else if (o.name == "copy")
                b = kb[o.i(1)];
            else if (o.name == "bins")
                b.bins(o.i(1));
            else if (o.name == "kmax")
                b.k_max(M_PI * o.i(1) / o.i(2));
            else if (o.name == "width")
                b.binwidth(M_PI * o.i(1) / o.i(2));
            else if (o.name == "power")
                b.power(o.i(1) / 2.0);
            else if (o.name == "show")
                hx::out().each(o.line, {b.bins(), units(b.k_max(), 1e6 / M_PI), units(b.binwidth(), 1e6 / M_PI), units(b.power(), 2)});
            else if (o.name == "count")
                hx::out().each(o.line, {(int)b.count(o.i(1))});
            else if (o.name == "avg")
                hx::out().each(o.line, {units(b.k(o.i(1)), 1e4 / M_PI)});
            else if (o.name == "counts") {
                std::vector<int> q;
                for (int i = -1; i <= b.bins(); i++)
                    q.push_back((int)b.count(i));
                hx::out().each(o.line, q);
            } else if (o.name == "limits") {
                hx::out().each(o.line, {units(b.bin_min(o.i(1)), 1e4 / M_PI), units(b.bin_max(o.i(1)), 1e4 / M_PI)});
            } else if (o.name == "modes") { // the bin of each mode, 0 if none: bin fields which are 1 at one site only
                Field<double> g;
                std::vector<int> q;
                for (int x = 0; x < (int)lattice.volume(); x++) {
                    g[ALL] = 0;
                    for (int i = 0; i < (int)lattice->mynode.volume; i++)
                        if (hx::lexi(lattice->coordinates(i)) == x)
                            g.set_value_at(1, i);
                    g.mark_changed(ALL);
                    auto m = b.bin_k_field(g);
                    int at = 0;
                    for (int i = 0; i < (int)m.size(); i++)
                        if (m[i] != 0)
                            at = (at == 0 && m[i] == 1) ? i + 1 : hx::BAD;
                    q.push_back(at);
                }
                hx::out().zero(o.line, q);
            } else
                switch (o.a[1][0]) {
                case 'z': field_op(o, b, z); break;
                case 'c': field_op(o, b, c); break;
                case 'v': field_op(o, b, v); break;
                case 'd': field_op(o, b, d); break;
                case 'f': field_op(o, b, f); break;
                case 'w': field_op(o, b, w); break;
                case 'r': field_op(o, b, r); break;
                case 'n': field_op(o, b, n); break;
                }
        }
    }
    hx::out().zero(0, {1});
    hila::finishrun();
}
