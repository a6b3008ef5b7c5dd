// fft TYPE SCRIPT OUT NX NY ..          Fourier transforms and reflections
#include "hx.h"
#include <map>

// contents: small integers from the site and the number of the component
static int val(int s, int c, int seed) {
    return ((s * s * 3 + s * (7 + c) + c * 5 + seed * ((s % 7) + 1)) % 11) - 5;
}

template <typename T>
static void fill(Field<T> &f, int seed) {
    using N = hila::arithmetic_type<T>;
    constexpr int n = sizeof(T) / sizeof(N);
    for (int i = 0; i < (int)lattice->mynode.volume; i++) {
        T t;
        N *p = reinterpret_cast<N *>(&t);
        int s = hx::lexi(lattice->coordinates(i));
        for (int c = 0; c < n; c++)
            p[c] = val(s, c, seed);
        f.set_value_at(t, i);
    }
    f.mark_changed(ALL);
}

// thousandths of all numbers of all sites, on rank 0
template <typename T>
static std::vector<int> dump(const Field<T> &f) {
    using N = hila::arithmetic_type<T>;
    constexpr int n = sizeof(T) / sizeof(N);
    std::vector<int> loc;
    for (int i = 0; i < (int)lattice->mynode.volume; i++) {
        T t = f.get_value_at(i);
        const N *p = reinterpret_cast<const N *>(&t);
        loc.push_back(hx::lexi(lattice->coordinates(i)));
        for (int c = 0; c < n; c++) {
            double d = std::round(1000.0 * p[c]);
            loc.push_back(d > -2.0e9 && d < 2.0e9 ? (int)d : hx::BAD);
        }
    }
    std::vector<int> cnt, r = hxraw::gatherv(loc, cnt), res;
    if (hxraw::rank() == 0) {
        int vol = lattice.volume();
        res.assign(vol * n, hx::MISSING);
        for (size_t i = 0; i + n < r.size(); i += n + 1)
            for (int c = 0; c < n; c++)
                res.at(r[i] * n + c) = r[i + 1 + c];
    }
    return res;
}

static CoordinateVector dirs(const hx::op_t &o, int k) {
    CoordinateVector c;
    foralldir(d) c[d] = o.i(k + (int)d);
    return c;
}

template <typename T>
static bool common(const hx::op_t &o, Field<T> *f) {
    int k = o.i(1);
    if (o.name == "set") {
        f[k].clear();
        f[k][ALL] = 0;
        fill(f[k], o.i(2));
    } else if (o.name == "get") {
        hx::out().zero(o.line, dump(f[k]));
    } else if (o.name == "copy") {
        f[o.i(2)] = f[k];
    } else
        return false;
    return true;
}

template <typename T>
static bool reflections(const hx::op_t &o, Field<T> *f) {
    int k = o.i(1);
    if (o.name == "ref") {
        f[o.i(2)] = f[k].reflect(dirs(o, 3));
    } else if (o.name == "refdir") {
        f[o.i(2)] = f[k].reflect(Direction(o.i(3)));
    } else if (o.name == "refall") {
        f[o.i(2)] = f[k].reflect();
    } else
        return false;
    return true;
}

// sign 0: the default, 1: inverse
template <typename T>
static bool fourier(const hx::op_t &o, Field<T> *f) {
    int k = o.i(1);
    if (o.name == "fft") { // t k j form sg D
        int j = o.i(2), form = o.i(3), sg = o.i(4);
        CoordinateVector D = dirs(o, 5);
        if (form == 0) {
            if (sg == 0)
                f[j] = f[k].FFT(D);
            else
                f[j] = f[k].FFT(D, fft_direction::back);
        } else if (form == 1) {
            f[j] = f[k].FFT(D, sg ? fft_direction::back : fft_direction::forward);
        } else {
            if (sg == 0)
                FFT_field(f[k], f[j], D);
            else
                FFT_field(f[k], f[j], D, fft_direction::back);
        }
    } else if (o.name == "fftin") { // t k sg D
        FFT_field(f[k], f[k], dirs(o, 3), o.i(2) ? fft_direction::back : fft_direction::forward);
    } else if (o.name == "fftall") { // t k j form sg
        int j = o.i(2), form = o.i(3), sg = o.i(4);
        if (form == 0)
            f[j] = sg ? f[k].FFT(fft_direction::back) : f[k].FFT();
        else
            FFT_field(f[k], f[j], sg ? fft_direction::back : fft_direction::forward);
    } else
        return false;
    return true;
}

int main(int argc, char **argv) {
    std::string script = argv[2], out = argv[3];
    CoordinateVector size;
    foralldir(d) size[d] = atoi(argv[4 + (int)d]);
    char *av[] = {argv[0], nullptr};
    hila::initialize(1, av);
    lattice.setup(size);
    hx::out().open(out);
    auto s = hx::read_script(script);
    {
        Field<Complex<double>> z[4];
        Field<Complex<float>> c[4];
        Field<Vector<2, Complex<double>>> v[4];
        Field<Matrix<2, 2, Complex<float>>> m[4];
        Field<double> d[4];
        Field<float> f[4];
        for (auto &o : s) {
            if (o.name == "wave") { // c..    the wave number, as multiple of 2 pi / size
                CoordinateVector c;
                foralldir(d) c[d] = o.i((int)d);
                auto k = c.convert_to_k();
                std::vector<int> v;
                foralldir(d) {
                    double n = k[d] * lattice.size(d) / (2 * M_PI);
                    v.push_back(std::abs(n - std::round(n)) < 1e-9 ? (int)std::round(n) : hx::BAD);
                }
                hx::out().all(o.line, v);
                continue;
            }
            char t = o.a[0][0];
            if (o.name == "r2c") { // t k j sg
                auto dir = o.i(3) ? fft_direction::back : fft_direction::forward;
                if (t == 'd')
                    z[o.i(2)] = o.i(3) ? d[o.i(1)].FFT_real_to_complex(dir) : d[o.i(1)].FFT_real_to_complex();
                else
                    c[o.i(2)] = f[o.i(1)].FFT_real_to_complex(dir);
                continue;
            }
            if (o.name == "c2r") {
                auto dir = o.i(3) ? fft_direction::back : fft_direction::forward;
                if (t == 'z')
                    d[o.i(2)] = o.i(3) ? z[o.i(1)].FFT_complex_to_real(dir) : z[o.i(1)].FFT_complex_to_real();
                else
                    f[o.i(2)] = c[o.i(1)].FFT_complex_to_real(dir);
                continue;
            }
            if (t == 'z')
                common(o, z) || fourier(o, z) || reflections(o, z);
            else if (t == 'c')
                common(o, c) || fourier(o, c) || reflections(o, c);
            else if (t == 'v')
                common(o, v) || fourier(o, v);
            else if (t == 'm')
                common(o, m) || fourier(o, m);
            else if (t == 'd')
                common(o, d);
            else if (t == 'f')
                common(o, f);
        }
    }
    hx::out().zero(0, {1});
    hila::finishrun();
}
