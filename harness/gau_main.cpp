// gau TYPE SCRIPT OUT NX NY ..          the gauge library: links, loops, staples, forces, blocking
#include "hx.h"
#include "gauge/staples.h"
#include "gauge/polyakov.h"
#include "gauge/wilson_plaquette_action.h"
#include "gauge/wilson_line_and_force.h"
#include "gauge/improved_action.h"
#include "gauge/clover_action.h"
#include "gauge/energy_and_topo_charge_clover.h"
#include "gauge/stout_smear.h"
#include "gauge/degauss.h"
#include "gauge/sun_heatbath.h"
#include "gauge/sun_overrelax.h"
#include "gauge/sun_max_staple_sum_rot.h"
#include <memory>

// elements: 0 .. 7 for two colours, 0 .. 95 for three
static const int perms2[2][2] = {{0, 1}, {1, 0}};
static const int perms3[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {1, 0, 2}, {0, 2, 1}, {2, 1, 0}};

template <typename G>
static G element(int e) {
    constexpr int n = G::size();
    using C = std::decay_t<decltype(std::declval<G>().e(0, 0))>;
    int k[3] = {0, 0, 0}, p, odd, sum = 0;
    if (n == 2) {
        p = e / 4;
        k[0] = e % 4;
        odd = p;
    } else {
        p = e / 16;
        k[0] = (e / 4) % 4;
        k[1] = e % 4;
        odd = p > 2;
    }
    for (int i = 0; i < n - 1; i++)
        sum += k[i];
    k[n - 1] = (16 - sum - 2 * odd) % 4;
    G g;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
            g.e(i, j) = 0;
    static const int re[4] = {1, 0, -1, 0}, im[4] = {0, 1, 0, -1};
    for (int i = 0; i < n; i++)
        g.e(i, n == 2 ? perms2[p][i] : perms3[p][i]) = C(re[k[i]], im[k[i]]);
    return g;
}
static int mix(int s, int d, int seed) {
    return ((s * s + 3 * s) * (seed + 2) + (d + 1) * (s + 7) * (seed % 13 + 5) + seed * (d + 1) * (d + 2)) % 997;
}
template <typename G>
static int order() {
    return G::size() == 2 ? 8 : 96;
}

static int units(double d, double scale) {
    double r = std::round(d * scale);
    if (!(std::fabs(d * scale - r) < 0.05))
        return hx::BAD;
    return r > -2.0e9 && r < 2.0e9 ? (int)r : hx::BAD;
}

// matrices at all sites in order, times a scale, on rank 0
template <typename M>
static void sites(const Field<M> &f, double scale, std::vector<int> &res, Parity par = ALL) {
    using N = hila::arithmetic_type<M>;
    constexpr int w = sizeof(M) / sizeof(N);
    int n = (int)lattice->mynode.volume;
    std::vector<int> loc;
    for (int i = 0; i < n; i++) {
        auto c = lattice->coordinates(i);
        if (par != ALL && c.parity() != par)
            continue;
        M v = f.get_value_at(i);
        const N *p = reinterpret_cast<const N *>(&v);
        loc.push_back(hx::lexi(c));
        for (int j = 0; j < w; j++)
            loc.push_back(units(p[j], scale));
    }
    std::vector<int> cnt, r = hxraw::gatherv(loc, cnt);
    if (hxraw::rank() == 0) {
        int vol = 1;
        foralldir(d) vol *= lattice.size(d);
        std::vector<std::vector<int>> at(vol);
        for (size_t i = 0; i + w < r.size() + 0; i += w + 1)
            at[r[i]].insert(at[r[i]].end(), r.begin() + i + 1, r.begin() + i + 1 + w);
        for (auto &a : at)
            res.insert(res.end(), a.begin(), a.end());
    }
}

template <typename G>
static void set_links(Field<G> &f, int d, int seed) {
    f.check_alloc();
    for (int i = 0; i < (int)lattice->mynode.volume; i++)
        f.set_value_at(element<G>(mix(hx::lexi(lattice->coordinates(i)), d, seed) % order<G>()), i);
    f.mark_changed(ALL);
}

template <typename G>
static void transform(GaugeField<G> &U, const Field<G> &g) {
    foralldir(d) {
        onsites(ALL) U[d][X] = g[X] * U[d][X] * g[X + d].dagger();
    }
}

template <typename G>
static void fill_algebra(VectorField<Algebra<G>> &K, int seed) {
    foralldir(d) {
        Field<G> m;
        set_links(m, d, seed);
        onsites(ALL) K[d][X] = m[X].project_to_algebra();
    }
}

template <typename G>
static void expand(const VectorField<Algebra<G>> &K, double scale, std::vector<int> &res) {
    foralldir(d) {
        Field<G> m;
        onsites(ALL) m[X] = K[d][X].expand();
        sites(m, scale, res);
    }
}

// one number per site: the square of the length of the sum of the staples (two colours)
template <typename G>
static void overrelax(const GaugeField<G> &U, int d, int kind, std::vector<int> &res, double beta) {
    using T = hila::arithmetic_type<G>;
    Field<G> S, V;
    staplesum(U, S, (Direction)d);
    V = U[(Direction)d];
    if (kind == 0) {
        onsites(ALL) {
            if (S[X].squarenorm() > 0.5)
                suN_overrelax(V[X], S[X]);
        }
    } else if (kind == 1) {
        onsites(ALL) {
            if (S[X].squarenorm() > 0.5)
                suN_overrelax(V[X], S[X], beta);
        }
    } else {
        onsites(ALL) {
            if (S[X].squarenorm() > 0.5)
                suN_heatbath(V[X], S[X], 1e9);
        }
    }
    if (kind < 3) {
        onsites(ALL) {
            T k = S[X].squarenorm() / 2;
            V[X] = k > 0.25 ? k * V[X] : 0 * V[X];
        }
    } else {
        // nearly frozen: the link becomes S / |S|
        onsites(ALL) {
            T k = sqrt(S[X].squarenorm() / 2);
            V[X] = k > 0.25 ? k * V[X] : 0 * V[X];
        }
    }
    sites(V, 1, res);
}

template <typename T, int n>
struct machine {
    using G = SU<n, T>;
    GaugeField<G> U[3];

    void run(const hx::op_t &o) {
        auto &O = hx::out();
        std::vector<int> v;
        if (o.name == "fill") { // r seed
            foralldir(d) set_links(U[o.i(0)][d], d, o.i(1));
            return;
        }
        if (o.name == "unit") { // r e
            U[o.i(0)] = element<G>(o.i(1));
            return;
        }
        if (o.name == "link") { // r d s e
            auto &f = U[o.i(0)][(Direction)o.i(1)];
            CoordinateVector c = hx::unlexi(o.i(2));
            for (int i = 0; i < (int)lattice->mynode.volume; i++)
                if (lattice->coordinates(i) == c)
                    f.set_value_at(element<G>(o.i(3)), i);
            f.mark_changed(ALL);
            return;
        }
        if (o.name == "trans") { // r seed
            Field<G> g;
            set_links(g, 7, o.i(1));
            transform(U[o.i(0)], g);
            return;
        }
        if (o.name == "copy") { // r q
            U[o.i(0)] = U[o.i(1)];
            return;
        }
        if (o.name == "reuni") {
            U[o.i(0)].reunitarize_gauge();
            return;
        }
        const GaugeField<G> &u = U[o.i(0)];
        if (o.name == "get") { // r d
            sites(u[(Direction)o.i(1)], 1, v);
        } else if (o.name == "plaq") { // r kind
            if (o.i(1) == 0)
                v = {units(u.measure_plaq(), n)};
            else if (o.i(1) == 1)
                v = {units(measure_s_wplaq(u), n)};
            else {
                T m;
                double s = measure_s_wplaq(u, m);
                v = {units(s, n), units(m, n)};
            }
        } else if (o.name == "impr") { // r c11 c12
            v = {units(measure_s_impr(u, (T)o.i(1), (T)o.i(2)), n)};
        } else if (o.name == "poly") { // r d
            int d = o.i(1);
            auto p = d == NDIM - 1 ? measure_polyakov(u) : measure_polyakov(u, (Direction)d);
            double k = lattice.volume() / lattice.size(d);
            O.all(o.line, {units(p.re, k), units(p.im, k)});
            return;
        } else if (o.name == "stap") { // r d par
            Field<G> s;
            Parity par = o.a[2] == "E" ? EVEN : o.a[2] == "O" ? ODD : ALL;
            if (par == ALL)
                staplesum(u, s, (Direction)o.i(1));
            else
                staplesum(u, s, (Direction)o.i(1), par);
            sites(s, 1, v, par);
        } else if (o.name == "wstap") { // r d par seed
            Field<G> s;
            Parity par = o.a[2] == "E" ? EVEN : o.a[2] == "O" ? ODD : ALL;
            plaqw_t<T> w;
            foralldir(d1) foralldir(d2) {
                int d = d1, e = d2;
                auto &f = w[d][e];
                f = 0;
                for (int i = 0; i < (int)lattice->mynode.volume; i++)
                    f.set_value_at(mix(hx::lexi(lattice->coordinates(i)), 4 * d + e, o.i(3)) % 7, i);
                f.mark_changed(ALL);
            }
            if (par == ALL)
                staplesum(u, s, (Direction)o.i(1), w);
            else
                staplesum(u, s, (Direction)o.i(1), w, par);
            sites(s, 1, v, par);
        } else if (o.name == "rstap") { // r d
            Field<G> s;
            rstaplesum(u, s, (Direction)o.i(1));
            sites(s, 1, v);
        } else if (o.name == "staps") { // r kind
            GaugeField<G> s;
            if (o.i(1) == 0)
                staplesums(u, s);
            else {
                VectorField<G> S[2 * (NDIM - 1)], sum;
                get_stout_staples(u, S, sum);
                foralldir(d) s[d] = sum[d];
            }
            foralldir(d) sites(s[d], 1, v);
        } else if (o.name == "wline") { // r path
            Field<G> f;
            get_wilson_line(u, path(o, 1), f);
            sites(f, 1, v);
        } else if (o.name == "fwl") { // r path eps kind seed q
            auto p = path(o, 1);
            int k = 2 + (int)p.size();
            T eps = o.i(k);
            int kind = o.i(k + 1);
            VectorField<Algebra<G>> K;
            fill_algebra<G>(K, o.i(k + 2));
            Field<G> W;
            set_links(W, 5, o.i(k + 2));
            if (kind == 0)
                get_wloop_force(u, p, eps, K);
            else if (kind == 1)
                get_wloop_force_add(u, p, eps, K);
            else if (kind == 2)
                get_wloop_force_from_wl(u, p, W, eps, K);
            else
                get_wloop_force_from_wl_add(u, p, W, eps, K);
            expand<G>(K, 2 * n, v);
        } else if (o.name == "fplaq" || o.name == "fimpr" || o.name == "fclov") { // r a b kind seed
            VectorField<Algebra<G>> K;
            fill_algebra<G>(K, o.i(4));
            T a = o.i(1), b = o.i(2);
            bool add = o.i(3) == 1;
            double scale = 2 * n;
            if (o.name == "fplaq")
                add ? get_force_wplaq_add(u, K, a) : get_force_wplaq(u, K, a);
            else if (o.name == "fimpr")
                add ? get_force_impr_add(u, K, a, b) : get_force_impr(u, K, a, b);
            else {
                add ? get_force_clover_add(u, K, a) : get_force_clover(u, K, a);
                scale = 64 * n * n;
            }
            expand<G>(K, scale, v);
        } else if (o.name == "sclov") { // r
            v = {units(measure_s_clover(u), 128.0 * n * n * n)};
        } else if (o.name == "topo") { // r
            T q, e;
            measure_topo_charge_and_energy_clover(u, q, e);
            v = {units(q * (4.0 * M_PI * M_PI), 64.0 * n * n), units(e, 64.0 * n * n)};
        } else if (o.name == "gauss") { // r seed
            VectorField<Algebra<G>> E, g;
            fill_algebra<G>(E, o.i(1));
            get_gauss_violation(u, E, g[e_x]);
            Field<G> m;
            onsites(ALL) m[X] = g[e_x][X].expand();
            sites(m, 2 * n, v);
        } else if (o.name == "degauss") { // r seed
            VectorField<Algebra<G>> E;
            fill_algebra<G>(E, o.i(1));
            degauss(u, E, 1e-6);
            Field<Algebra<G>> g;
            get_gauss_violation(u, E, g);
            v = {g.squarenorm() / lattice.volume() <= 1.01e-6 ? 1 : 0};
        } else if (o.name == "over") { // r d kind
            if constexpr (n == 2)
                overrelax(u, o.i(1), o.i(2), v, 2.5);
        } else if (o.name == "smear") { // r kind
            // to first order in the coefficient
            GaugeField<G> s;
            T c = sizeof(T) == 8 ? 1e-6 : 1e-3;
            if (o.i(1) == 0)
                stout_smear1(u, s, c);
            else if (o.i(1) == 1)
                stout_smear(u, s, c, 1);
            else {
                std::vector<GaugeField<G>> l(2);
                std::vector<VectorField<G>> st(1);
                stout_smear(u, l, st, c);
                s = l[1];
            }
            foralldir(d) {
                Field<G> m;
                onsites(ALL) m[X] = s[d][X] - u[d][X];
                sites(m, 2 * n / c, v);
            }
        } else if (o.name == "covar") { // r coefficient(1/100) iter seed: smearing commutes with gauge transformations
            GaugeField<G> a, b, t;
            Field<G> g;
            set_links(g, 7, o.i(3));
            T c = o.i(1) / (T)100;
            stout_smear(u, a, c, o.i(2));
            transform(a, g);
            t = u;
            transform(t, g);
            stout_smear(t, b, c, o.i(2));
            double dev = 0;
            foralldir(d) {
                onsites(ALL) dev += (a[d][X] - b[d][X]).squarenorm();
            }
            v = {dev / lattice.volume() < 1e-8 ? 1 : 0};
        } else if (o.name == "block") { // r factors, d
            CoordinateVector f;
            foralldir(k) f[k] = o.i(1 + (int)k);
            bool ok = lattice.can_block(f);
            v = {ok ? 1 : 0};
            if (ok) {
                Direction d = (Direction)o.i(1 + NDIM);
                lattice.block(f);
                {
                    GaugeField<G> b;
                    b.block_gauge(u);
                    sites(b[d], 1, v);
                }
                lattice.unblock();
            }
        }
        O.zero(o.line, v);
    }

    static std::vector<Direction> path(const hx::op_t &o, int k) {
        std::vector<Direction> p;
        for (int i = 0; i < o.i(k); i++) {
            int d = o.i(k + 1 + i);
            p.push_back(d > 0 ? (Direction)(d - 1) : -(Direction)(-d - 1));
        }
        return p;
    }
};

template <typename T, int n>
static void go(const std::vector<hx::op_t> &s, size_t i) {
    auto m = std::make_unique<machine<T, n>>();
    for (; i < s.size() && s[i].name != "group"; i++)
        m->run(s[i]);
}

int main(int argc, char **argv) {
    std::string script = argv[2], out = argv[3];
    CoordinateVector size;
    foralldir(d) size[d] = atoi(argv[4 + (int)d]);
    char *av[] = {argv[0], nullptr};
    hila::initialize(1, av);
    lattice.setup(size);
    hila::seed_random(1);
    hx::out().open(out);
    auto s = hx::read_script(script);
    for (size_t i = 0; i < s.size(); i++)
        if (s[i].name == "group") {
            std::string t = s[i].a[0];
            int n = s[i].i(1);
            if (t == "z" && n == 2)
                go<double, 2>(s, i + 1);
            else if (t == "z" && n == 3)
                go<double, 3>(s, i + 1);
            else if (t == "c" && n == 3)
                go<float, 3>(s, i + 1);
        }
    hx::out().zero(0, {1});
    hila::finishrun();
}
