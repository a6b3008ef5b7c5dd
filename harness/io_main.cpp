// io TYPE SCRIPT OUT NX NY ..          files of fields and configurations, checkpoints
#define WRITE_BUFFER_SIZE 200
#include "hx.h"
#include "tools/checkpoint.h"
#include <memory>
#include <unistd.h>
#include <sys/stat.h>

namespace iow {
extern int left; // number of file system steps until the program crashes; <0: never
extern int done;
} // namespace iow

static std::string fname(int f) {
    return "f" + std::to_string(f % 10) + (f >= 10 ? ".prev" : "");
}

template <typename T>
static void fill(Field<T> &f, int a, int b, int c) {
    f.clear();
    f[ALL] = 0;
    for (int i = 0; i < (int)lattice->mynode.volume; i++)
        f.set_value_at(hx::enc<T>(a + b * (hx::lexi(lattice->coordinates(i)) * c)), i);
    f.mark_changed(ALL);
}

// the words of all sites in lexicographic order, on rank 0
template <typename T>
static std::vector<int> words(const Field<T> &f) {
    constexpr int n = sizeof(T) / 4;
    Lattice lat = f.mylattice();
    std::vector<int> loc;
    for (int i = 0; i < (int)lat->mynode.volume; i++) {
        T t;
        t = f.get_value_at(i);
        int w[n];
        std::memcpy(w, &t, sizeof(T));
        loc.push_back(hx::lexi(lat->coordinates(i), lat.size()));
        for (int c = 0; c < n; c++)
            loc.push_back(w[c]);
    }
    std::vector<int> cnt, r = hxraw::gatherv(loc, cnt), res;
    if (hxraw::rank() == 0) {
        res.assign(lat.volume() * n, hx::MISSING);
        for (size_t i = 0; i + n < r.size(); i += n + 1)
            for (int c = 0; c < n; c++)
                res.at(r[i] * n + c) = r[i + 1 + c];
    }
    return res;
}

static bool isfile(const std::string &n) {
    struct stat s;
    return stat(n.c_str(), &s) == 0;
}

static void onrank0(const std::function<void()> &f) {
    hxraw::barrier();
    if (hxraw::rank() == 0)
        f();
    hxraw::barrier();
}

static std::vector<int> bytes(const std::string &n) {
    if (!isfile(n))
        return {-1};
    std::ifstream f(n, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    std::vector<int> r{(int)s.size()};
    r.resize(1 + s.size() / 4);
    std::memcpy(r.data() + 1, s.data(), s.size() / 4 * 4);
    return r;
}

// for every line the count of numbers and the numbers
static std::vector<int> lines(const std::string &n) {
    if (!isfile(n))
        return {-1};
    std::ifstream f(n);
    std::string l;
    std::vector<int> r;
    while (std::getline(f, l)) {
        std::istringstream s(l);
        std::string w;
        std::vector<int> v;
        while (s >> w) {
            char *e;
            double d = std::strtod(w.c_str(), &e);
            v.push_back(*e == 0 && d > -2.0e9 && d < 2.0e9 && d == std::floor(d) ? (int)d : hx::BAD);
        }
        r.push_back(v.size());
        r.insert(r.end(), v.begin(), v.end());
    }
    return r;
}

template <typename T>
struct prog {
    Field<T> f[3];
    Field<int> q[2];
    GaugeField<T> g[2];
    std::unique_ptr<std::ofstream> os;
    std::unique_ptr<std::ifstream> is;
    std::string oname, iname;

    template <typename F>
    void with(int k, F fun) {
        if (k < 3)
            fun(f[k]);
        else
            fun(q[k - 3]);
    }

    void run(const hx::op_t &o) {
        const std::string &n = o.name;
        if (n == "set") {
            with(o.i(0), [&](auto &x) { fill(x, o.i(1), o.i(2), 1); });
        } else if (n == "clear") {
            with(o.i(0), [&](auto &x) { x.clear(); });
        } else if (n == "dump") {
            with(o.i(0), [&](auto &x) { hx::out().zero(o.line, words(x)); });
        } else if (n == "nbr") {
            with(o.i(0), [&](auto &x) {
                Direction d = o.dir(1);
                Lattice was = lattice;
                lattice.switch_to(x.mylattice().ptr());
                auto y = x;
                nbr(y, x, d);
                hx::out().zero(o.line, words(y));
                lattice.switch_to(was.ptr());
            });
        } else if (n == "write") {
            with(o.i(0), [&](auto &x) { x.write(fname(o.i(1))); });
        } else if (n == "writet") {
            with(o.i(0), [&](auto &x) { x.write(fname(o.i(1)), false, o.i(2)); });
        } else if (n == "read") {
            with(o.i(0), [&](auto &x) { x.read(fname(o.i(1))); });
            hx::out().all(o.line, {1});
        } else if (n == "wfields") { // f n list
            with(o.i(2), [&](auto &x) {
                if (o.i(1) == 1)
                    write_fields(fname(o.i(0)), x);
                else
                    with(o.i(3), [&](auto &y) {
                        if (o.i(1) == 2)
                            write_fields(fname(o.i(0)), x, y);
                        else
                            with(o.i(4), [&](auto &z) { write_fields(fname(o.i(0)), x, y, z); });
                    });
            });
        } else if (n == "rfields") {
            with(o.i(2), [&](auto &x) {
                if (o.i(1) == 1)
                    read_fields(fname(o.i(0)), x);
                else
                    with(o.i(3), [&](auto &y) {
                        if (o.i(1) == 2)
                            read_fields(fname(o.i(0)), x, y);
                        else
                            with(o.i(4), [&](auto &z) { read_fields(fname(o.i(0)), x, y, z); });
                    });
            });
            hx::out().all(o.line, {1});
        } else if (n == "so") {
            os.reset(new std::ofstream);
            oname = fname(o.i(0));
            hila::open_output_file(oname, *os);
        } else if (n == "sw") {
            with(o.i(0), [&](auto &x) { x.write(*os); });
        } else if (n == "swg") {
            g[o.i(0)].write(*os);
        } else if (n == "sws") {
            with(o.i(0), [&](auto &x) {
                x.write_subvolume_binary(*os, o.cv(1), o.cv(1 + NDIM), o.i(1 + 2 * NDIM) == 2);
            });
        } else if (n == "sc") {
            hila::close_file(oname, *os);
        } else if (n == "ro") {
            is.reset(new std::ifstream);
            iname = fname(o.i(0));
            hila::open_input_file(iname, *is);
            hx::out().all(o.line, {1});
        } else if (n == "rr") {
            with(o.i(0), [&](auto &x) { x.read(*is); });
        } else if (n == "rin") {
            with(o.i(0), [&](auto &x) { x.read(*is, o.cv(1)); });
        } else if (n == "rg") {
            g[o.i(0)].read(*is);
        } else if (n == "rc") {
            hila::close_file(iname, *is);
            hx::out().all(o.line, {1});
        } else if (n == "gset" || (n == "gneed" && !g[o.i(0)][e_x].is_allocated())) {
            foralldir(d) fill(g[o.i(0)][d], o.i(1) + (int)d * o.i(2), o.i(2), NDIM);
        } else if (n == "gclear") {
            g[o.i(0)].clear();
        } else if (n == "gdump") {
            std::vector<int> r;
            if (g[o.i(0)][e_x].is_allocated()) foralldir(d) {
                auto w = words(g[o.i(0)][d]);
                r.insert(r.end(), w.begin(), w.end());
            }
            hx::out().zero(o.line, r);
        } else if (n == "gwrite") {
            g[o.i(0)].write(fname(o.i(1)));
        } else if (n == "gread") {
            g[o.i(0)].read(fname(o.i(1)));
            hx::out().all(o.line, {1});
        } else if (n == "cwrite") {
            g[o.i(0)].config_write(fname(o.i(1)));
        } else if (n == "cread") {
            g[o.i(0)].config_read(fname(o.i(1)));
            hx::out().all(o.line, {1});
        } else if (n == "sub") { // k f min max mode precision
            const int m = 2 + 2 * NDIM;
            with(o.i(0), [&](auto &x) {
                if (o.i(m) == 0)
                    x.write_subvolume(fname(o.i(1)), o.cv(2), o.cv(2 + NDIM), o.i(m + 1));
                else
                    x.write_subvolume_binary(fname(o.i(1)), o.cv(2), o.cv(2 + NDIM), o.i(m) == 2);
            });
        } else if (n == "slice") {
            const int m = 2 + NDIM;
            with(o.i(0), [&](auto &x) {
                if (o.i(m) == 0)
                    x.write_slice(fname(o.i(1)), o.cv(2), o.i(m + 1));
                else
                    x.write_slice_binary(fname(o.i(1)), o.cv(2), o.i(m) == 2);
            });
        } else if (n == "bytes") {
            onrank0([&] { hx::out().zero(o.line, bytes(fname(o.i(0)))); });
        } else if (n == "text") {
            onrank0([&] { hx::out().zero(o.line, lines(fname(o.i(0)))); });
        } else if (n == "trunc") {
            onrank0([&] { if (truncate(fname(o.i(0)).c_str(), o.i(1))) std::abort(); });
        } else if (n == "poke") { // file, word (from 0), value
            onrank0([&] {
                std::fstream s(fname(o.i(0)), std::ios::in | std::ios::out | std::ios::binary);
                int v = o.i(2);
                s.seekp(4 * o.i(1));
                s.write((char *)&v, 4);
            });
        } else if (n == "ren") {
            onrank0([&] { rename(fname(o.i(0)).c_str(), fname(o.i(1)).c_str()); });
        } else if (n == "del") {
            onrank0([&] { unlink(fname(o.i(0)).c_str()); });
        } else if (n == "blk") {
            lattice.block(o.cv(0));
            hx::out().all(o.line, {1});
        } else if (n == "unb") {
            lattice.unblock();
        } else if (n == "ckpt") { // g f trajectories trajectory save_old crash
            int nt = o.i(2);
            if (hxraw::rank() == 0) {
                iow::done = 0;
                iow::left = o.i(5);
            }
            checkpoint(g[o.i(0)], fname(o.i(1)), nt, o.i(3), (bool)o.i(4));
            iow::left = -1;
            hx::out().all(o.line, {nt});
        } else if (n == "rest") { // g f trajectories
            int nt = o.i(2), tr = -1;
            bool ok = restore_checkpoint(g[o.i(0)], fname(o.i(1)), nt, tr);
            hx::out().all(o.line, {ok, nt, tr});
        } else if (n == "seed") {
            hila::seed_random(o.i(0));
        } else if (n == "draw") {
            double x = hila::random();
            hx::out().each(o.line, {(int)(x * 1000000000)});
        } else if (n == "status") { // what the status file says
            onrank0([&] {
                std::vector<int> r{0};
                std::ifstream s("run_status");
                std::string l;
                while (std::getline(s, l)) {
                    r[0] = 1;
                    std::istringstream w(l);
                    std::string k;
                    w >> k;
                    if (k == "trajectories" || k == "trajectory") {
                        int v = hx::BAD;
                        w >> v;
                        r.push_back(v);
                    }
                }
                hx::out().zero(o.line, r);
            });
        } else if (n == "edit") { // a user changes the number of trajectories
            onrank0([&] {
                if (!isfile("run_status"))
                    return;
                std::ifstream s("run_status");
                std::string l, all;
                while (std::getline(s, l))
                    all += (l.rfind("trajectories", 0) == 0 ? "trajectories  " + o.a[0] + "  # changed" : l) + "\n";
                s.close();
                std::ofstream("run_status") << all;
            });
        } else if (n == "dels") {
            onrank0([&] { unlink("run_status"); });
        }
    }

    template <typename S>
    static void nbr(Field<S> &y, const Field<S> &x, Direction d) {
        y[ALL] = x[X + d];
    }
};

template <typename T>
static void go(const char *s) {
    prog<T> p;
    for (auto &o : hx::read_script(s))
        p.run(o);
}

int main(int argc, char **argv) {
    std::string t = argv[1], s = argv[2], outn = argv[3];
    CoordinateVector size;
    foralldir(d) size[d] = std::stoi(argv[4 + (int)d]);
    hila::initialize(1, argv);
    lattice.setup(size);
    hx::out().open(outn);
    if (t == "int")
        go<int>(s.c_str());
    else if (t == "dbl")
        go<double>(s.c_str());
    else if (t == "cpx")
        go<Complex<double>>(s.c_str());
    else if (t == "v3f")
        go<Vector<3, float>>(s.c_str());
    else if (t == "m2c")
        go<Matrix<2, 2, Complex<float>>>(s.c_str());
    hx::out().zero(0, {1});
    hila::finishrun();
}
