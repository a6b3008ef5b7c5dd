// cmd SCRIPT OUT -- options of the program           command line, partitions
// strings are written as hex words.  Every rank writes what it sees to OUT.<rank in the whole run>.
// Script lines: ON op args..  where ON is the list of partitions which do this, "012" for example.
#include "hx.h"

static std::string unhex(const std::string &h) {
    std::string s;
    if (h != "-")
        for (size_t i = 0; i + 1 < h.size(); i += 2)
            s.push_back((char)std::stoi(h.substr(i, 2), nullptr, 16));
    return s;
}

static std::ofstream myout;
static void put(int line, const std::vector<long> &v) {
    myout << line;
    for (long x : v)
        myout << ' ' << (x > -2000000000 && x < 2000000000 ? x : (long)hx::BAD);
    myout << std::endl;
}
static void app(std::vector<long> &v, const std::string &s) {
    v.push_back((long)s.size());
    for (char c : s)
        v.push_back((unsigned char)c);
}
static void draws(std::vector<long> &v) {
    for (int i = 0; i < 3; i++)
        v.push_back((long)(hila::random() * (1 << 30)));
}

int main(int argc, char **argv) {
    std::string script = argv[1], out = argv[2];
    std::vector<char *> av(1, argv[0]);
    for (int i = 4; i < argc; i++)
        av.push_back(argv[i]);
    int ac = av.size();
    av.push_back(nullptr);
    auto s = hx::read_script(script);
    for (auto &o : s)
        if (o.a[0] == "uflag")
            hila::cmdline.add_flag(unhex(o.a[1]), "for the test", "", o.i(2));
    std::string top = filesys_ns::current_path().string();
    hila::initialize(ac, av.data());
    hxraw::init();
    if (hxraw::rank() >= 0)
        myout.open(out + "." + std::to_string(hxraw::rank()));
    int part = hila::partitions.number() > 1 ? hila::partitions.mylattice() : 0;
    for (auto &o : s) {
        if (o.name.find('0' + part) == std::string::npos)
            continue;
        const std::string &op = o.a[0];
        if (op == "conf") {
            put(o.line, {(long)hila::partitions.number(), (long)part, hila::myrank(), hila::number_of_nodes(), (long)hila::check_input});
        } else if (op == "cwd") {
            std::vector<long> v;
            std::string c = filesys_ns::current_path().string();
            app(v, c.compare(0, top.size(), top) == 0 ? c.substr(top.size()) : "?");
            put(o.line, v);
        } else if (op == "flag") {
            std::string f = unhex(o.a[1]);
            put(o.line, {(long)hila::cmdline.flag_present(f.c_str()), hila::cmdline.flag_set(f.c_str())});
        } else if (op == "vals") {
            auto w = hila::cmdline.values(unhex(o.a[1]));
            std::vector<long> v(1, (long)w.size());
            for (auto &x : w)
                app(v, x);
            put(o.line, v);
        } else if (op == "int") {
            put(o.line, {hila::cmdline.get_int(unhex(o.a[1]).c_str(), o.i(2))});
        } else if (op == "dbl") {
            double x = hila::cmdline.get_double(unhex(o.a[1]).c_str(), o.i(2)) * 1000;
            put(o.line, {std::fabs(x - std::round(x)) < 1e-5 ? (long)std::round(x) : (long)hx::BAD});
        } else if (op == "str") {
            std::vector<long> v;
            app(v, hila::cmdline.get_string(unhex(o.a[1]).c_str(), o.i(2)));
            put(o.line, v);
        } else if (op == "say") {
            hila::out0 << "@@" + o.a[1] + "@@\n";
            hila::out0.flush();
            put(o.line, {1});
        } else if (op == "sayall") {
            hila::out << "@@" + o.a[1] + "@@\n";
            hila::out.flush();
            put(o.line, {1});
        } else if (op == "write") {
            if (hila::myrank() == 0) {
                std::ofstream f(unhex(o.a[1]), std::ios::app);
                f << "@@" + o.a[2] + "@@\n";
            }
            hila::synchronize();
            put(o.line, {1});
        } else if (op == "inp") {
            hila::input f(unhex(o.a[1]));
            int x = f.get(unhex(o.a[2]));
            f.close();
            put(o.line, {x});
        } else if (op == "setup") {
            CoordinateVector sz;
            foralldir(d) sz[d] = o.i(1 + (int)d);
            lattice.setup(sz);
            put(o.line, {1});
        } else if (op == "bcast") {
            int x = hila::myrank() == o.i(1) ? 1000 * (part + 1) + o.i(2) : -7;
            hila::broadcast(x, o.i(1));
            put(o.line, {x});
        } else if (op == "sum") {
            int64_t x = 1000 * (part + 1) + hila::myrank() + o.i(1);
            int64_t y = hila::reduce_node_sum(x);
            put(o.line, {(long)y});
        } else if (op == "send") { // from the last rank to the first
            int last = hila::number_of_nodes() - 1;
            int x = 0;
            if (last > 0) {
                if (hila::myrank() == last) {
                    x = 1000 * (part + 1) + o.i(1);
                    hila::send_to(0, x);
                } else if (hila::myrank() == 0)
                    hila::receive_from(last, x);
            }
            put(o.line, {hila::myrank() == 0 ? x : 0});
        } else if (op == "field") { // direction, offset
            Field<int> f, g;
            int v = 1000 * (part + 1) + o.i(2);
            Direction d = Direction(o.i(1));
            onsites(ALL) f[X] = v + X.coordinate(d);
            onsites(ALL) g[X] = f[X + d];
            int64_t s0 = 0, s1 = 0;
            onsites(ALL) {
                s0 += g[X];
                s1 += g[X] * X.coordinate(d);
            }
            put(o.line, {(long)s0, (long)s1});
        } else if (op == "coll") { // direction, offset: what all ranks of the lattice do together
            Field<int> f;
            int v = 1000 * (part + 1) + o.i(2);
            Direction d = Direction(o.i(1));
            int L = lattice.size(d);
            onsites(ALL) f[X] = v + X.coordinate(d);
            std::vector<long> res;
            CoordinateVector c;
            res.push_back(f.max(c));
            res.push_back(c[d]);
            res.push_back(f.min(c));
            res.push_back(c[d]);
            ReductionVector<int> rv(L);
            rv = 0;
            onsites(ALL) rv[X.coordinate(d)] += f[X];
            for (int i = 0; i < L; i++)
                res.push_back(rv[i]);
            CoordinateVector a, b;
            foralldir(e) {
                a[e] = 0;
                b[e] = lattice.size(e) - 1;
            }
            res.push_back(f.get_element(b));
            f.set_element(b, 7 + part);
            auto el = f.get_elements({a, b}, true);
            res.push_back(el.at(0));
            res.push_back(el.at(1));
            SiteSelect sel;
            onsites(ALL) {
                if (f[X] == v)
                    sel.select(X);
            }
            size_t n = sel.size();
            res.push_back(hila::myrank() == 0 ? (long)n : 0);
            Field<Complex<double>> z;
            onsites(ALL) z[X] = f[X];
            z = z.FFT();
            Complex<double> z0 = z.get_element(a);
            res.push_back(std::lround(z0.re));
            put(o.line, res);
        } else if (op == "seed") {
            hila::seed_random(o.i(1));
            std::vector<long> v;
            draws(v);
            put(o.line, v);
        } else if (op == "fin") {
            hila::finishrun();
        }
    }
    hila::finishrun();
}
