// Common code of the conformance harnesses: scripts in, observations out.
// A script is a text file with one operation per line (words separated by blanks); every rank reads it.
// Observations go to the output file from rank 0, one line per observation: "<script line> v v v ...".
#ifndef HX_H_
#define HX_H_
#include "hila.h"
#include <fstream>
#include <sstream>
#include <cstring>
#include <functional>

namespace hxraw {
void init();
void split(int color);
int rank();
int nranks();
void barrier();
bool agree(std::vector<int> &v, int bad);
std::vector<int> gatherv(const std::vector<int> &v, std::vector<int> &cnt);
void abort_run(int code);
} // namespace hxraw

namespace hx {

constexpr int BAD = -2000000001;      // a value that is not an encoding of an integer
constexpr int DISAGREE = -2000000003; // ranks do not agree
constexpr int MISSING = -2000000004;  // site on no rank / on several ranks

struct op_t {
    int line;
    std::string name;
    std::vector<std::string> a;
    int i(int k) const {
        return std::stoi(a.at(k));
    }
    int n() const {
        return (int)a.size();
    }
    CoordinateVector cv(int k) const {
        CoordinateVector c;
        foralldir(d) c[d] = std::stoi(a.at(k + (int)d));
        return c;
    }
    Parity par(int k) const {
        const std::string &s = a.at(k);
        return s == "E" ? EVEN : (s == "O" ? ODD : ALL);
    }
    // signed direction: 1..NDIM up, -1..-NDIM down
    Direction dir(int k) const {
        int v = i(k);
        return v > 0 ? Direction(v - 1) : opp_dir(Direction(-v - 1));
    }
};

inline std::vector<op_t> read_script(const std::string &name) {
    std::vector<op_t> r;
    std::ifstream f(name);
    std::string l;
    int n = 0;
    while (std::getline(f, l)) {
        n++;
        std::istringstream s(l);
        op_t o;
        o.line = n;
        if (!(s >> o.name))
            continue;
        std::string w;
        while (s >> w)
            o.a.push_back(w);
        r.push_back(o);
    }
    return r;
}

struct out_t {
    std::ofstream f;
    void open(const std::string &n) {
        hxraw::init();
        if (hxraw::rank() == 0)
            f.open(n);
    }
    // values known on all ranks: they must agree
    void all(int line, std::vector<int> v) {
        if (!hxraw::agree(v, DISAGREE))
            v.assign(1, DISAGREE);
        zero(line, v);
    }
    // rank 0's values
    void zero(int line, const std::vector<int> &v) {
        if (hxraw::rank() == 0) {
            f << line;
            for (int x : v)
                f << ' ' << x;
            f << '\n';
            f.flush();
        }
    }
    // one block of values per rank, in rank order: <count> values, for each rank
    void each(int line, const std::vector<int> &v) {
        std::vector<int> cnt, r = hxraw::gatherv(v, cnt), o;
        size_t k = 0;
        for (int c : cnt) {
            o.push_back(c);
            for (int j = 0; j < c && k < r.size(); j++)
                o.push_back(r[k++]);
        }
        zero(line, o);
    }
};

inline out_t &out() {
    static out_t o;
    return o;
}

// ------------------------------------------------------------------ integers as field elements
// linear: encode(a)+encode(b) == encode(a+b), every component different
template <typename T>
inline void encode(T &t, int v) {
    using N = hila::arithmetic_type<T>;
    constexpr int n = sizeof(T) / sizeof(N);
    N *p = reinterpret_cast<N *>(&t);
    for (int i = 0; i < n; i++)
        p[i] = static_cast<N>(v) * static_cast<N>(i % 2 ? -(i % 7) - 1 : (i % 5) + 1);
}
template <typename T>
inline T enc(int v) {
    T t;
    encode(t, v);
    return t;
}
template <typename T>
inline int decode(const T &t) {
    using N = hila::arithmetic_type<T>;
    constexpr int n = sizeof(T) / sizeof(N);
    const N *p = reinterpret_cast<const N *>(&t);
    double d = static_cast<double>(p[0]);
    if (!(d > -2.0e9 && d < 2.0e9) || d != std::floor(d))
        return BAD;
    int v = (int)d;
    for (int i = 0; i < n; i++)
        if (p[i] != static_cast<N>(v) * static_cast<N>(i % 2 ? -(i % 7) - 1 : (i % 5) + 1))
            return BAD;
    return v;
}

inline int lexi(const CoordinateVector &c, const CoordinateVector &size) {
    int s = 0, m = 1;
    foralldir(d) {
        s += m * c[d];
        m *= size[d];
    }
    return s;
}
inline int lexi(const CoordinateVector &c) {
    return lexi(c, lattice.size());
}
inline CoordinateVector unlexi(int s) {
    CoordinateVector c;
    foralldir(d) {
        c[d] = s % lattice.size(d);
        s /= lattice.size(d);
    }
    return c;
}

// the whole field in lexicographic order of the coordinates, on rank 0; local reads only
template <typename T>
std::vector<int> fulldump(const Field<T> &f) {
    int n = (int)lattice->mynode.volume;
    std::vector<int> loc(2 * n);
    for (int i = 0; i < n; i++) {
        T v = f.get_value_at(i);
        loc[2 * i] = lexi(lattice->coordinates(i));
        loc[2 * i + 1] = decode(v);
    }
    std::vector<int> cnt, r = hxraw::gatherv(loc, cnt);
    int tot = (int)r.size();
    std::vector<int> res;
    if (hxraw::rank() == 0) {
        int vol = 1;
        foralldir(d) vol *= lattice.size(d);
        res.assign(vol, MISSING);
        std::vector<char> seen(vol, 0);
        for (int i = 0; i < tot; i += 2) {
            if (r[i] < 0 || r[i] >= vol)
                continue;
            res[r[i]] = seen[r[i]] ? MISSING : r[i + 1];
            seen[r[i]] = 1;
        }
    }
    return res;
}

template <typename T>
void dump(int line, const Field<T> &f) {
    out().zero(line, fulldump(f));
}

} // namespace hx
#endif
