// muc - SCRIPT OUT NX ..          multicanonical weights
#include "hx.h"
#include "tools/multicanonical.h"

static int units(double d, double scale) {
    if (d == std::numeric_limits<double>::infinity())
        return 2000000000;
    double r = std::round(d * scale);
    return r > -1.9e9 && r < 1.9e9 ? (int)r : hx::BAD;
}
static double order(int i) {
    return i / 64.0;
}
static std::string wname(int j) {
    return "wf" + std::to_string(j);
}
// a finish condition of the user: the second bin has been visited
static bool second(const hila::Muca &m) {
    return m.OP_bin_hits_total.at(1) > 0;
}

int main(int argc, char **argv) {
    std::string script = argv[2], out = argv[3];
    CoordinateVector size;
    foralldir(d) size[d] = atoi(argv[4 + (int)d]);
    char *av[] = {argv[0], nullptr};
    hila::initialize(1, av);
    lattice.setup(size);
    hila::seed_random(1);
    hx::out().open(out);
    auto s = hx::read_script(script);
    {
        hila::Muca mu[2];
        const char *meth[] = {"direct", "direct_smooth", "canonical", "other"};
        const char *fin[] = {"all_visited", "ends_visited", "other"};
        for (auto &o : s) {
            auto &m = mu[o.i(0)];
            if (o.name == "init") { // k wf meth hard max min n fin S iv C Cmin cs ib mh mi oc
                if (hxraw::rank() == 0) {
                    std::ofstream f("par");
                    f.precision(12);
                    f << "weight_file_location " << (o.i(1) < 0 ? "NONE" : wname(o.i(1))) << "\n";
                    f << "iteration_method " << meth[o.i(2)] << "\n";
                    f << "hard_walls " << (o.i(3) ? "YES" : "NO") << "\n";
                    f << "max_OP " << order(o.i(4)) << "\nmin_OP " << order(o.i(5)) << "\nnumber_of_bins " << o.i(6) << "\n";
                    f << "iteration_visuals NO\n";
                    f << "DI_finish_condition " << fin[o.i(7)] << "\nDI_sample_size " << o.i(8) << "\n";
                    f << "DI_single_check_interval " << o.i(9) << "\nDI_C_init " << o.i(10) / 1000.0 << "\nDI_C_min " << o.i(11) / 1000.0
                      << "\n";
                    f << "CI_sample_size " << o.i(12) << "\nCI_initial_bin_hits " << o.i(13) << "\nCI_min_bin_hits " << o.i(14)
                      << "\nCI_max_iters " << o.i(15) << "\nCI_overcorrect_factor " << o.i(16) / 100.0
                      << "\nCI_overcorrect_max_iter -1\nCI_overcorrect_frequency 0\n";
                }
                hxraw::barrier();
                hx::out().each(o.line, {(int)m.initialise("par")});
                hxraw::barrier();
            } else if (o.name == "wfun") {
                hx::out().each(o.line, {units(m.weight_function(order(o.i(1))), 1e4), units(m.weight(order(o.i(1))), 1e4)});
            } else if (o.name == "ar") { // k old new seed
                hila::seed_random(o.i(3));
                int r = units(hila::random(), 1e6);
                hila::seed_random(o.i(3));
                int ok = m.accept_reject(order(o.i(1)), order(o.i(2)));
                hx::out().each(o.line, {r, ok});
            } else if (o.name == "iter") {
                hx::out().each(o.line, {(int)m.iterate_weights(m, order(o.i(1)))});
            } else if (o.name == "cont")
                m.set_continuous_iteration(o.i(1));
            else if (o.name == "flag")
                hx::out().each(o.line, {(int)m.check_weight_iter_flag()});
            else if (o.name == "setflag")
                m.set_weight_iter_flag(o.i(1));
            else if (o.name == "finish")
                m.set_direct_iteration_FC(&second);
            else if (o.name == "write") { // k j
                int ok = 0;
                if (hxraw::rank() == 0)
                    ok = m.write_weight_function(o.i(1) < 0 ? "no/such/place" : wname(o.i(1)));
                hx::out().zero(o.line, {ok});
                hxraw::barrier();
            } else if (o.name == "take") { // 0 j
                if (hxraw::rank() == 0)
                    rename("intermediate_weight.dat", wname(o.i(1)).c_str());
                hxraw::barrier();
            } else if (o.name == "make") { // 0 j kind n+1 limits n weights
                if (hxraw::rank() == 0) {
                    std::ofstream f(wname(o.i(1)));
                    f.precision(12);
                    int kind = o.i(2), n = o.i(3) - 1;
                    if (kind == 1 || kind == 4)
                        f << "# some header\nmore of it 1.0 2.0\n\n";
                    if (kind != 2)
                        f << "OP_bin_limit\tOP_value\tWeight\n";
                    if (kind != 3)
                        for (int i = 0; i <= n; i++) {
                            if (i < n && !(kind == 4 && i == n - 1))
                                f << order(o.i(4 + i)) << "\t" << 77.5 << "\t" << o.i(6 + n + i) / 1e4 << "\n";
                            else
                                f << order(o.i(4 + i)) << "\n";
                        }
                }
                hxraw::barrier();
            } else if (o.name == "drop") {
                if (hxraw::rank() == 0)
                    remove(wname(o.i(1)).c_str());
                hxraw::barrier();
            } else if (o.name == "file") { // 0 j: the numbers of a weight file after the title line
                std::vector<int> r;
                if (hxraw::rank() == 0) {
                    std::ifstream f(wname(o.i(1)));
                    std::string l;
                    while (std::getline(f, l) && l.find("OP_value") == std::string::npos) {
                    }
                    int c = 0;
                    while (std::getline(f, l)) {
                        std::istringstream is(l);
                        double x;
                        c = 0;
                        while (is >> x)
                            r.push_back(units(x, c++ == 2 ? 1e4 : 64));
                    }
                }
                hx::out().zero(o.line, r);
            }
        }
    }
    hx::out().zero(0, {1});
    hila::finishrun();
}
