// com TYPE SCRIPT OUT NX NY ..      communication helpers; registers of integers, one set per rank
// Types are named by letters: see call().
#include "hx.h"
#include <array>

static std::map<int, std::vector<int>> reg;

// element i of a register on rank r
static int val(int a, int b, int c, int m, int o, int r, int i) {
    return (a * r + b * i + c) % m + o;
}

struct three {
    double x;
    char c;
    int n;
};
template <typename T>
static T mk(int v) {
    if constexpr (std::is_same<T, three>::value) {
        three t;
        t.x = v * 0.5;
        t.c = (char)v;
        t.n = -v;
        return t;
    } else if constexpr (std::is_same<T, ExtendedPrecision>::value) {
        return ExtendedPrecision((double)v);
    } else if constexpr (hila::is_arithmetic<T>::value || std::is_same<T, char>::value ||
                         std::is_same<T, long double>::value) {
        return (T)v;
    } else
        return hx::enc<T>(v);
}
template <typename T>
static int un(const T &t) {
    if constexpr (std::is_same<T, three>::value) {
        return (t.x * 2 == -t.n && t.c == (char)(-t.n)) ? -t.n : hx::BAD;
    } else if constexpr (std::is_same<T, ExtendedPrecision>::value) {
        return (int)t.to_double();
    } else if constexpr (hila::is_arithmetic<T>::value || std::is_same<T, char>::value ||
                         std::is_same<T, long double>::value) {
        return (t > -2.0e9 && t < 2.0e9 && (T)(int)t == t) ? (int)t : hx::BAD;
    } else
        return hx::decode(t);
}
template <typename T>
static std::vector<T> vec(const std::vector<int> &v) {
    std::vector<T> r;
    for (int x : v)
        r.push_back(mk<T>(x));
    return r;
}
template <typename T>
static void back(std::vector<int> &v, const T *p, int n) {
    for (int i = 0; i < n; i++)
        v[i] = un(p[i]);
}

// all operations that move a plain type
template <typename T>
static void moves(const hx::op_t &o) {
    int me = hxraw::rank();
    if (o.name == "bcs") { // k root
        auto &R = reg[o.i(1)];
        T t = mk<T>(R[0]);
        T u = hila::broadcast(t, o.i(2));
        R[0] = un(t);
        hx::out().each(o.line, {un(u)});
    } else if (o.name == "bcc") { // k root: from a constant
        auto &R = reg[o.i(1)];
        const T t = mk<T>(R[0]);
        T u = hila::broadcast(t, o.i(2));
        hx::out().each(o.line, {un(u), un(t)});
    } else if (o.name == "bc0") { // k: default root
        auto &R = reg[o.i(1)];
        T t = mk<T>(R[0]);
        hila::broadcast(t);
        R[0] = un(t);
    } else if (o.name == "bcv") {
        auto &R = reg[o.i(1)];
        auto v = vec<T>(R);
        auto &w = hila::broadcast(v, o.i(2));
        R.resize(v.size());
        back(R, v.data(), v.size());
        hx::out().each(o.line, {(int)(&w == &v)});
    } else if (o.name == "bca") { // k n root
        auto &R = reg[o.i(1)];
        auto v = vec<T>(R);
        T *p = hila::broadcast_array(v.data(), o.i(2), o.i(3));
        back(R, v.data(), v.size());
        hx::out().each(o.line, {(int)(p == v.data())});
    } else if (o.name == "bcr") { // k root: std::array of 3
        auto &R = reg[o.i(1)];
        auto v = vec<T>(R);
        std::array<T, 3> a;
        for (int i = 0; i < 3; i++)
            a[i] = v[i];
        hila::broadcast(a, o.i(2));
        back(R, a.data(), 3);
    } else if (o.name == "send") { // from to j: first element, k on the sender, j on the receiver
        if (me == o.i(2)) {
            T t = mk<T>(reg[o.i(1)][0]);
            hila::send_to(o.i(3), t);
        }
        if (me == o.i(3)) {
            T t = mk<T>(1);
            hila::receive_from(o.i(2), t);
            reg[o.i(4)].assign(1, un(t));
        }
    } else if (o.name == "sendv") {
        if (me == o.i(2)) {
            auto v = vec<T>(reg[o.i(1)]);
            hila::send_to(o.i(3), v);
        }
        if (me == o.i(3)) {
            auto v = vec<T>(reg[o.i(4)]);
            hila::receive_from(o.i(2), v);
            reg[o.i(4)].resize(v.size());
            back(reg[o.i(4)], v.data(), v.size());
        }
    } else if (o.name == "big") { // n d root: long vectors, n + d * rank elements
        int n = o.i(1), d = o.i(2), root = o.i(3);
        std::vector<T> v;
        for (int i = 0; i < n + d * me; i++)
            v.push_back(mk<T>((i * 7 + me * 13) % 97));
        hila::broadcast(v, root);
        int bad = 0;
        for (size_t i = 0; i < v.size(); i++)
            bad += un(v[i]) != (int)((i * 7 + root * 13) % 97);
        hx::out().each(o.line, {(int)v.size(), bad});
    } else if (o.name == "ring") { // n: everyone passes a long vector to the right, even ranks first
        int n = o.i(1), np = hxraw::nranks(), left = (me + np - 1) % np;
        std::vector<T> v, w;
        for (int i = 0; i < n + me; i++)
            v.push_back(mk<T>((i * 5 + me * 11) % 97));
        if (me % 2 == 0) {
            hila::send_to((me + 1) % np, v);
            hila::receive_from(left, w);
        } else {
            hila::receive_from(left, w);
            hila::send_to((me + 1) % np, v);
        }
        int bad = 0;
        for (size_t i = 0; i < w.size(); i++)
            bad += un(w[i]) != (int)((i * 5 + left * 11) % 97);
        hx::out().each(o.line, {(int)w.size(), bad});
    }
}

template <typename T>
static void sums(const hx::op_t &o) {
    auto &R = reg[o.i(1)];
    auto v = vec<T>(R);
    if (o.name == "rsum") { // k n all
        hila::reduce_node_sum(v.data(), o.i(2), (bool)o.i(3));
        back(R, v.data(), v.size());
    } else if (o.name == "rsum1") { // k all
        T u = hila::reduce_node_sum(v[0], (bool)o.i(2));
        back(R, v.data(), v.size());
        hx::out().each(o.line, {un(u)});
    } else if (o.name == "rsum0") { // k: default
        hila::reduce_node_sum(v[0]);
        back(R, v.data(), v.size());
    }
}
template <typename T>
static void prods(const hx::op_t &o) {
    auto &R = reg[o.i(1)];
    auto v = vec<T>(R);
    if (o.name == "rprod") {
        hila::reduce_node_product(v.data(), o.i(2), (bool)o.i(3));
        back(R, v.data(), v.size());
    } else {
        T u = hila::reduce_node_product(v[0], (bool)o.i(2));
        back(R, v.data(), v.size());
        hx::out().each(o.line, {un(u)});
    }
}

static void call(const hx::op_t &o) {
    char t = o.a[0][0];
    if (o.name == "rprod" || o.name == "rprod1") {
        if (t == 'i')
            prods<int>(o);
        else if (t == 'l')
            prods<int64_t>(o);
        else if (t == 'u')
            prods<unsigned>(o);
        else if (t == 'f')
            prods<float>(o);
        else
            prods<double>(o);
    } else if (o.name.substr(0, 4) == "rsum") {
        if (t == 'i')
            sums<int>(o);
        else if (t == 'l')
            sums<long>(o);
        else if (t == 'L')
            sums<int64_t>(o);
        else if (t == 'u')
            sums<unsigned>(o);
        else if (t == 'U')
            sums<uint64_t>(o);
        else if (t == 'f')
            sums<float>(o);
        else if (t == 'd')
            sums<double>(o);
        else if (t == 'z')
            sums<Complex<double>>(o);
        else if (t == 'c')
            sums<Complex<float>>(o);
        else if (t == 'v')
            sums<Vector<3, double>>(o);
        else if (t == 'm')
            sums<Matrix<2, 2, Complex<float>>>(o);
    } else {
        if (t == 'i')
            moves<int>(o);
        else if (t == 'l')
            moves<int64_t>(o);
        else if (t == 'h')
            moves<char>(o);
        else if (t == 'f')
            moves<float>(o);
        else if (t == 'd')
            moves<double>(o);
        else if (t == 's')
            moves<three>(o);
        else if (t == 'z')
            moves<Complex<double>>(o);
        else if (t == 'v')
            moves<Vector<3, float>>(o);
        else if (t == 'm')
            moves<Matrix<2, 2, Complex<double>>>(o);
    }
}

static std::string str(const std::vector<int> &v) {
    std::string s;
    for (int x : v)
        s.push_back((char)x);
    return s;
}
static std::vector<int> unstr(const std::string &s) {
    std::vector<int> v;
    for (char c : s)
        v.push_back((int)(signed char)c);
    return v;
}

int main(int argc, char **argv) {
    std::string script = argv[2], out = argv[3];
    CoordinateVector size;
    foralldir(d) size[d] = atoi(argv[4 + (int)d]);
    char *av[] = {argv[0], nullptr};
    hila::initialize(1, av);
    lattice.setup(size);
    hx::out().open(out);
    auto s = hx::read_script(script);
    int me = hila::myrank();
    for (auto &o : s) {
        if (o.name == "set") { // k n d p a b c m o
            int n = (o.i(1) + o.i(2) * me) % o.i(3);
            auto &R = reg[o.i(0)];
            R.clear();
            for (int i = 0; i < n; i++)
                R.push_back(val(o.i(4), o.i(5), o.i(6), o.i(7), o.i(8), me, i));
        } else if (o.name == "get") {
            hx::out().each(o.line, reg[o.i(0)]);
        } else if (o.name == "who") {
            hx::out().each(o.line, {hila::myrank(), hila::number_of_nodes()});
        } else if (o.name == "bct") { // k root: string
            std::string t = str(reg[o.i(0)]);
            auto &u = hila::broadcast(t, o.i(1));
            reg[o.i(0)] = unstr(u);
            hx::out().each(o.line, {(int)(&u == &t)});
        } else if (o.name == "bcl") { // m d root: list of strings
            int n = (o.i(0) + o.i(1) * me) % 5;
            std::vector<std::string> l;
            for (int i = 0; i < n; i++)
                l.push_back(str(reg[i]));
            hila::broadcast(l, o.i(2));
            for (size_t i = 0; i < l.size(); i++)
                reg[i] = unstr(l[i]);
            hx::out().each(o.line, {(int)l.size()});
        } else if (o.name == "bc2") { // t k j root
            auto &R = reg[o.i(1)], &Q = reg[o.i(2)];
            if (o.a[0] == "id") {
                int x = R[0];
                double y = Q[0];
                hila::broadcast2(x, y, o.i(3));
                R[0] = x;
                Q[0] = (int)y;
            } else if (o.a[0] == "dh") {
                double x = R[0];
                char y = (char)Q[0];
                hila::broadcast2(x, y, o.i(3));
                R[0] = (int)x;
                Q[0] = y;
            } else {
                auto x = mk<Complex<float>>(R[0]);
                long y = Q[0];
                hila::broadcast2(x, y, o.i(3));
                R[0] = un(x);
                Q[0] = (int)y;
            }
        } else if (o.name == "ext") { // k n all
            auto &R = reg[o.i(0)];
            auto v = vec<ExtendedPrecision>(R);
            reduce_node_sum_extended(v.data(), o.i(1), (bool)o.i(2));
            back(R, v.data(), v.size());
        } else if (o.name == "batch") { // all *k: sums collected and done together; odd registers as float
            std::vector<double> d;
            std::vector<float> f;
            std::vector<Vector<3, double>> w;
            d.reserve(100), f.reserve(100), w.reserve(100);
            hila::set_allreduce((bool)o.i(0));
            for (int j = 0; j < o.i(1); j++)
                for (int x : reg[o.i(2 + j)]) {
                    if (o.i(2 + j) % 3 == 1) {
                        f.push_back((float)x);
                        hila_reduce_sum_setup(&f.back());
                    } else if (o.i(2 + j) % 3 == 2) {
                        w.push_back(hx::enc<Vector<3, double>>(x));
                        hila_reduce_sum_setup(&w.back());
                    } else {
                        d.push_back(x);
                        hila_reduce_sum_setup(&d.back());
                    }
                }
            hila_reduce_sums();
            hila::set_allreduce(true);
            size_t nd = 0, nf = 0, nw = 0;
            for (int j = 0; j < o.i(1); j++)
                for (int &x : reg[o.i(2 + j)])
                    x = (o.i(2 + j) % 3 == 1) ? un(f[nf++]) : (o.i(2 + j) % 3 == 2) ? hx::decode(w[nw++]) : un(d[nd++]);
        } else if (o.name == "sync") {
            hila::synchronize();
        } else if (o.name == "bar") {
            hila::barrier();
        } else
            call(o);
    }
    hx::out().zero(0, {1});
    hila::finishrun();
}
