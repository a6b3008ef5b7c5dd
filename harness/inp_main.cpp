// inp TYPE SCRIPT OUT NX NY .. [-- options of the program]        parameter files
// strings are written as hex words, "-" is the empty string
#include "hx.h"
#include <memory>

static std::string unhex(const std::string &h) {
    std::string s;
    if (h != "-")
        for (size_t i = 0; i + 1 < h.size(); i += 2)
            s.push_back((char)std::stoi(h.substr(i, 2), nullptr, 16));
    return s;
}

static void put(std::vector<int> &v, int x) {
    v.push_back(x);
}
static void put(std::vector<int> &v, long x) {
    v.push_back(x > -2000000000 && x < 2000000000 ? (int)x : hx::BAD);
}
static void put(std::vector<int> &v, unsigned x) {
    v.push_back(x < 2000000000u ? (int)x : hx::BAD);
}
static void put(std::vector<int> &v, double d) { // thousandths
    double r = std::round(d * 1000);
    v.push_back(std::fabs(d * 1000 - r) < 1e-5 && std::fabs(r) < 1e9 ? (int)r : hx::BAD);
}
static void put(std::vector<int> &v, float d) {
    double r = std::round((double)d * 1000);
    v.push_back(std::fabs((double)d * 1000 - r) < 0.4 && std::fabs(r) < 1e9 ? (int)r : hx::BAD);
}
static void put(std::vector<int> &v, const std::string &s) {
    v.push_back((int)s.size());
    for (char c : s)
        v.push_back((int)(unsigned char)c);
}
template <typename T>
static void put(std::vector<int> &v, const Complex<T> &c) {
    put(v, c.re);
    put(v, c.im);
}
template <int n, typename T>
static void put(std::vector<int> &v, const Vector<n, T> &c) {
    for (int i = 0; i < n; i++)
        put(v, c[i]);
}
static void put(std::vector<int> &v, const CoordinateVector &c) {
    foralldir(d) put(v, (int)c[d]);
}
template <typename T>
static void put(std::vector<int> &v, const std::vector<T> &c) {
    v.push_back((int)c.size());
    for (const T &x : c)
        put(v, x);
}

template <typename T>
static void value(hila::input &f, const hx::op_t &o) {
    std::string key = unhex(o.a[1]);
    std::vector<int> v;
    if (o.name == "get") { // stops if there is no such value
        if (o.a[1] == "-") {
            T x = f.get();
            v = {1};
            put(v, x);
        } else {
            T x = f.get(key);
            v = {1};
            put(v, x);
        }
        hx::out().all(o.line, v);
    } else if (o.name == "val") {
        T x;
        bool ok = f.get_value(x, key);
        v = {(int)ok};
        if (ok)
            put(v, x);
        hx::out().all(o.line, v);
    } else { // val0: only rank 0 knows
        T x;
        bool ok = f.get_value(x, key, false);
        v = {(int)ok};
        if (ok)
            put(v, x);
        hx::out().zero(o.line, v);
    }
}

int main(int argc, char **argv) {
    std::string script = argv[2], out = argv[3];
    CoordinateVector size;
    foralldir(d) size[d] = atoi(argv[4 + (int)d]);
    std::vector<char *> av(1, argv[0]);
    for (int i = 4 + NDIM + 1; i < argc; i++)
        av.push_back(argv[i]);
    int ac = av.size();
    av.push_back(nullptr);
    hila::initialize(ac, av.data());
    hx::out().open(out);
    auto s = hx::read_script(script);
    std::unique_ptr<hila::input> f(new hila::input());
    for (auto &o : s) {
        if (o.name == "open") { // f exit
            bool ok = f->open("f" + o.a[0], true, (bool)o.i(1));
            hx::out().all(o.line, {(int)ok});
        } else if (o.name == "openc") { // by the constructor
            f.reset(new hila::input("f" + o.a[0]));
            hx::out().all(o.line, {1});
        } else if (o.name == "close") {
            f->close();
            hx::out().all(o.line, {1});
        } else if (o.name == "drop") {
            f.reset(new hila::input());
            hx::out().all(o.line, {1});
        } else if (o.name == "quiet") {
            f->quiet((bool)o.i(0));
        } else if (o.name == "item" || o.name == "item0") { // key n items
            std::vector<std::string> items;
            for (int i = 0; i < o.i(1); i++)
                items.push_back(unhex(o.a[2 + i]));
            if (o.name == "item")
                hx::out().all(o.line, {f->get_item(unhex(o.a[0]), items)});
            else
                hx::out().zero(o.line, {f->get_item(unhex(o.a[0]), items, false)});
        } else {
            const std::string &t = o.a[0];
            if (t == "i")
                value<int>(*f, o);
            else if (t == "l")
                value<long>(*f, o);
            else if (t == "u")
                value<unsigned>(*f, o);
            else if (t == "f")
                value<float>(*f, o);
            else if (t == "d")
                value<double>(*f, o);
            else if (t == "s")
                value<std::string>(*f, o);
            else if (t == "z")
                value<Complex<double>>(*f, o);
            else if (t == "c")
                value<Complex<float>>(*f, o);
            else if (t == "vi")
                value<Vector<3, int>>(*f, o);
            else if (t == "vd")
                value<Vector<2, double>>(*f, o);
            else if (t == "C")
                value<CoordinateVector>(*f, o);
            else if (t == "li")
                value<std::vector<int>>(*f, o);
            else if (t == "ld")
                value<std::vector<double>>(*f, o);
            else if (t == "ls")
                value<std::vector<std::string>>(*f, o);
            else if (t == "lz")
                value<std::vector<Complex<double>>>(*f, o);
        }
    }
    hx::out().zero(0, {1});
    hila::finishrun();
}
