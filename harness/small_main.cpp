// small TYPE SCRIPT OUT NX NY ..     SU2, its algebra, U1, directions, parities and coordinates; TYPE: d or f
// Registers are fields with one value on even and one on odd sites; everything is an integer (or is multiplied to be one).
#include "hx.h"

static int whole(double x) {
    double q = std::nearbyint(x);
    return std::abs(x - q) < 2e-3 && std::abs(q) < 2e9 ? (int)q : hx::BAD;
}
static CoordinateVector oddsite() {
    CoordinateVector c = 0;
    c[e_x] = 1;
    return c;
}

template <typename T>
struct Small {
    using Q = SU2<T>;
    using A = Algebra<SU2<T>>;
    Field<Q> q[4];
    Field<A> a[3];
    Field<U1<T>> u[3];
    Field<T> t;
    Field<Vector<2, Complex<T>>> w;
    Field<SquareMatrix<2, Complex<T>>> m2;

    static void comp(std::vector<int> &r, const Q &x, double s = 1) {
        r.push_back(whole(x.a * s));
        r.push_back(whole(x.b * s));
        r.push_back(whole(x.c * s));
        r.push_back(whole(x.d * s));
    }
    static void comp(std::vector<int> &r, const A &x, double s = 1) {
        r.push_back(whole(x.a * s));
        r.push_back(whole(x.b * s));
        r.push_back(whole(x.c * s));
    }
    static void comp(std::vector<int> &r, const T &x, double s = 1) {
        r.push_back(whole(x * s));
    }
    static void comp(std::vector<int> &r, const Complex<T> &x, double s = 1) {
        r.push_back(whole(x.re * s));
        r.push_back(whole(x.im * s));
    }
    // both values; all other sites must have the same
    template <typename F>
    std::vector<int> both(const Field<F> &f, double s = 1) {
        std::vector<int> r;
        F ev = f.get_element(CoordinateVector(0)), od = f.get_element(oddsite());
        comp(r, ev, s);
        comp(r, od, s);
        bool same = true;
        for (int i = 0; i < (int)lattice->mynode.volume; i++) {
            std::vector<int> x, y;
            comp(x, f.get_value_at(i), s);
            comp(y, lattice->site_parity(i) == EVEN ? ev : od, s);
            same = same && x == y;
        }
        if (!same)
            r.push_back(hx::BAD);
        return r;
    }

    void run(const std::string &script) {
        for (auto &f : q) f = 0;
        for (auto &f : a) f = 0;
        for (auto &f : u) { onsites(ALL) f[X].set_phase(0); }
        t = 0;
        w = 0;
        m2 = 0;
        for (auto &o : hx::read_script(script)) {
            const std::string &n = o.name;
            if (n == "dir" || n == "par") {
                host(o);
                continue;
            }
            Parity P = o.par(0);
            auto I = [&](int i) { return o.i(i); };
            if (n == "qset") { // P k a b c d how
                Field<Q> &z = q[I(1)];
                T x = I(2), y = I(3), v = I(4), d = I(5);
                switch (I(6)) {
                case 0: onsites(P) { z[X].a = x; z[X].b = y; z[X].c = v; z[X].d = d; } break;
                case 1: { Q p({x, y, v, d}); onsites(P) z[X] = p; } break;
                case 2: { Q p = 0; p = {x, y, v, d}; onsites(P) z[X] = p; } break;
                case 3: onsites(P) z[X] = d; break;
                case 4: { SU2<double> p({x, y, v, d}); onsites(P) z[X] = p; } break;
                case 5: { SU2<float> p({x, y, v, d}); Q p2 = 0; p2 = p; onsites(P) z[X] = p2; } break;
                case 6: onsites(P) z[X] = Q(d); break;
                }
            } else if (n == "qq") { // P k l m how
                Field<Q> &z = q[I(1)], &x = q[I(2)], &y = q[I(3)];
                switch (I(4)) {
                case 0: onsites(P) z[X] = x[X] + y[X]; break;
                case 1: onsites(P) z[X] = x[X] - y[X]; break;
                case 2: onsites(P) z[X] = x[X] * y[X]; break;
                case 3: onsites(P) { Q r; mult(x[X], y[X], r); z[X] = r; } break;
                case 4: onsites(P) z[X] = x[X].dagger() * y[X]; break;
                case 5: onsites(P) z[X] = x[X] * y[X].dagger(); break;
                case 6: onsites(P) z[X] = -x[X]; break;
                case 7: onsites(P) z[X] = +x[X]; break;
                case 8: onsites(P) z[X] += x[X]; break;
                case 9: onsites(P) z[X] -= x[X]; break;
                case 10: onsites(P) z[X] = x[X].dagger(); break;
                }
            } else if (n == "qs") { // P k l s how
                Field<Q> &z = q[I(1)], &x = q[I(2)];
                T s = I(3);
                switch (I(4)) {
                case 0: onsites(P) z[X] = x[X] + s; break;
                case 1: onsites(P) z[X] = s + x[X]; break;
                case 2: onsites(P) z[X] = x[X] - s; break;
                case 3: onsites(P) z[X] = s - x[X]; break;
                case 4: onsites(P) z[X] = x[X] * s; break;
                case 5: onsites(P) z[X] = s * x[X]; break;
                case 6: onsites(P) z[X] = (x[X] * s) / s; break;
                case 7: onsites(P) z[X] += s; break;
                case 8: onsites(P) z[X] -= s; break;
                case 9: onsites(P) z[X] *= s; break;
                case 10: onsites(P) { z[X] *= s; z[X] /= s; } break;
                }
            } else if (n == "qnum") { // P k l how       numbers
                Field<Q> &x = q[I(1)], &y = q[I(2)];
                switch (I(3)) {
                case 0: onsites(ALL) t[X] = x[X].trace(); break;
                case 1: onsites(ALL) t[X] = x[X].det(); break;
                case 2: onsites(ALL) t[X] = x[X].squarenorm(); break;
                case 3: onsites(ALL) t[X] = mul_trace(x[X], y[X]); break;
                case 4: onsites(ALL) t[X] = trace(x[X]); break;
                case 5: onsites(ALL) t[X] = det(x[X]); break;
                case 6: onsites(ALL) t[X] = squarenorm(x[X]); break;
                }
                hx::out().each(o.line, both(t));
            } else if (n == "qsee") { // P k
                hx::out().each(o.line, both(q[I(1)]));
            } else if (n == "qmat") { // P k i j     an entry of the matrix
                Field<Q> &x = q[I(1)];
                int i = I(2), j = I(3);
                onsites(ALL) m2[X] = x[X].convert_to_2x2_matrix();
                Field<Complex<T>> e;
                onsites(ALL) e[X] = m2[X].e(i, j);
                hx::out().each(o.line, both(e));
            } else if (n == "qpro") { // P k l m       by way of matrices
                Field<Q> &z = q[I(1)], &x = q[I(2)], &y = q[I(3)];
                onsites(P) m2[X] = x[X].convert_to_2x2_matrix() * y[X].convert_to_2x2_matrix();
                onsites(P) z[X] = project_from_matrix(m2[X], 0, 1);
            } else if (n == "qprj") { // P k seed i j     from a larger matrix
                Field<Q> &z = q[I(1)];
                SquareMatrix<3, Complex<T>> g;
                for (int i = 0; i < 3; i++)
                    for (int j = 0; j < 3; j++)
                        g.e(i, j) = Complex<T>(2 * ((I(2) * (3 * i + j + 1)) % 7 - 3), 2 * ((I(2) * (3 * i + j + 2)) % 11 - 5));
                int i = I(3), j = I(4);
                onsites(P) z[X] = project_from_matrix(g, i, j);
            } else if (n == "qvec") { // P k x y z v side i      times a vector
                Field<Q> &x = q[I(1)];
                Vector<2, Complex<T>> vec;
                vec[0] = Complex<T>(I(2), I(3));
                vec[1] = Complex<T>(I(4), I(5));
                RowVector<2, Complex<T>> row = vec.transpose();
                int i = I(7);
                Field<Complex<T>> e;
                if (I(6) == 0) {
                    onsites(ALL) { Vector<2, Complex<T>> p = x[X] * vec; e[X] = p.e(i); }
                } else {
                    onsites(ALL) { RowVector<2, Complex<T>> p = row * x[X]; e[X] = p.e(i); }
                }
                hx::out().each(o.line, both(e));
            } else if (n == "qnor") { // P k l s i       s times a quaternion of length 5, normalized, times 5
                Field<Q> &z = q[I(1)];
                Q p = 0;
                T *pp[4] = {&p.a, &p.b, &p.c, &p.d};
                *pp[I(4)] = 3 * I(3);
                *pp[(I(4) + I(2)) % 4] = 4 * I(3);
                onsites(P) { Q r = p; r.normalize(); r *= 5; z[X] = r; }
                hx::out().each(o.line, both(z));
                // exactly
                onsites(P) { z[X].a = floor(z[X].a + 0.5); z[X].b = floor(z[X].b + 0.5); z[X].c = floor(z[X].c + 0.5); z[X].d = floor(z[X].d + 0.5); }
            } else if (n == "qrnd") { // P how
                Field<Q> z;
                int how = I(1);
                onsites(ALL) { z[X].random(); }
                if (how)
                    onsites(ALL) { z[X].gaussian_random(3.0); z[X].reunitarize(); }
                double bad = 0;
                onsites(ALL) {
                    double e = det(z[X]) - 1.0;
                    if (e > 1e-5 || e < -1e-5)
                        bad += 1;
                }
                hx::out().each(o.line, {whole(bad)});
            } else if (n == "aset") { // P k a b c how
                Field<A> &z = a[I(1)];
                T x = I(2), y = I(3), v = I(4);
                switch (I(5)) {
                case 0: onsites(P) { z[X].a = x; z[X].b = y; z[X].c = v; } break;
                case 1: { A p = 0; p = {x, y, v}; onsites(P) z[X] = p; } break;
                case 2: onsites(P) z[X] = 0; break;
                case 3: { Algebra<SU2<double>> p = 0; p = {I(2), I(3), I(4)}; onsites(P) z[X] = p; } break;
                case 4: { A p = 0; p = {x, y, v}; p = nullptr; onsites(P) z[X] = p; } break;
                }
            } else if (n == "aa") { // P k l m how
                Field<A> &z = a[I(1)], &x = a[I(2)], &y = a[I(3)];
                switch (I(4)) {
                case 0: onsites(P) z[X] = x[X] + y[X]; break;
                case 1: onsites(P) z[X] = x[X] - y[X]; break;
                case 2: onsites(P) z[X] = -x[X]; break;
                case 3: onsites(P) z[X] = +x[X]; break;
                case 4: onsites(P) z[X] += x[X]; break;
                case 5: onsites(P) z[X] -= x[X]; break;
                }
            } else if (n == "as") { // P k l s how
                Field<A> &z = a[I(1)], &x = a[I(2)];
                T s = I(3);
                switch (I(4)) {
                case 0: onsites(P) z[X] = x[X] * s; break;
                case 1: onsites(P) z[X] = s * x[X]; break;
                case 2: onsites(P) z[X] = (x[X] * s) / s; break;
                case 3: onsites(P) z[X] *= s; break;
                case 4: onsites(P) { z[X] *= s; z[X] /= s; } break;
                }
            } else if (n == "anum") { // P k l how
                Field<A> &x = a[I(1)], &y = a[I(2)];
                switch (I(3)) {
                case 0: onsites(ALL) t[X] = x[X].squarenorm(); break;
                case 1: onsites(ALL) t[X] = squarenorm(x[X]); break;
                case 2: onsites(ALL) { A p = x[X]; t[X] = p.dot(y[X]); } break;
                case 3: onsites(ALL) t[X] = su2_algebra_dot(x[X], y[X]); break;
                case 4: onsites(ALL) { T r = x[X].norm(); t[X] = r * r; } break;
                }
                hx::out().each(o.line, both(t));
            } else if (n == "asee") { // P k
                hx::out().each(o.line, both(a[I(1)]));
            } else if (n == "pro") { // P k l s       algebra part, scaled
                Field<A> &z = a[I(1)];
                Field<Q> &x = q[I(2)];
                T s = I(3);
                if (I(3) == 1)
                    onsites(P) z[X] = x[X].project_to_algebra();
                else
                    onsites(P) z[X] = x[X].project_to_algebra_scaled(s);
            } else if (n == "xpd") { // P k l s
                Field<Q> &z = q[I(1)];
                Field<A> &x = a[I(2)];
                T s = 2 * I(3);
                onsites(P) z[X] = (s * x[X]).expand();
            } else if (n == "con") { // P k l side a b c d      conjugation with a unit quaternion
                Field<A> &z = a[I(1)], &x = a[I(2)];
                Q p = 0;
                p.a = I(4); p.b = I(5); p.c = I(6); p.d = I(7);
                if (I(3) == 0)
                    onsites(P) z[X] = left_conjugation(p, x[X]);
                else
                    onsites(P) z[X] = right_conjugation(p, x[X]);
            } else if (n == "exp") { // P how n m x y z     direction (x,y,z)/5, angle n pi/2; m: scale; five times the result
                Field<Q> z;
                T x = I(4) / 5.0, y = I(5) / 5.0, v = I(6) / 5.0, d = ::log((double)I(3)), an = M_PI * I(2);
                A e = 0;
                e.a = an * x; e.b = an * y; e.c = an * v;
                Q p = 0;
                p.a = an * x / 2; p.b = an * y / 2; p.c = an * v / 2; p.d = d;
                Field<A> fe;
                Field<Q> fp;
                onsites(ALL) { fe[X] = e; fp[X] = p; }
                switch (I(1)) {
                case 0: onsites(ALL) z[X] = fe[X].exp(); break;
                case 1: onsites(ALL) z[X] = exp(fe[X]); break;
                case 2: onsites(ALL) z[X] = chexp(fe[X]); break;
                case 3: onsites(ALL) z[X] = fp[X].exp(); break;
                case 4: onsites(ALL) z[X] = exp(fp[X]); break;
                }
                hx::out().each(o.line, both(z, 5));
            } else if (n == "log") { // P how j x y z      angle j pi/12
                T an = M_PI * I(2) / 12.0;
                Q p = 0;
                p.a = sin(an) * I(3) / 5.0; p.b = sin(an) * I(4) / 5.0; p.c = sin(an) * I(5) / 5.0; p.d = cos(an);
                Field<Q> fp;
                Field<A> z;
                onsites(ALL) fp[X] = p;
                if (I(1))
                    onsites(ALL) z[X] = fp[X].log();
                else
                    onsites(ALL) z[X] = log(fp[X]);
                hx::out().each(o.line, both(z, 30 / M_PI));
            } else if (n == "uset") { // P k n how
                Field<U1<T>> &z = u[I(1)];
                T ph = I(2) * M_PI / 2;
                Complex<T> c(cos(ph), sin(ph));
                switch (I(3)) {
                case 0: onsites(P) z[X].set_phase(ph); break;
                case 1: onsites(P) z[X].set_phase(c); break;
                case 2: { U1<double> d; d.phase = ph; U1<T> e = hila::cast_to<T>(d); onsites(P) z[X] = e; } break;
                }
            } else if (n == "uu") { // P k l m how
                Field<U1<T>> &z = u[I(1)], &x = u[I(2)], &y = u[I(3)];
                switch (I(4)) {
                case 0: onsites(P) z[X] = x[X] * y[X]; break;
                case 1: onsites(P) z[X] *= x[X]; break;
                case 2: onsites(P) z[X] = -x[X]; break;
                case 3: onsites(P) z[X] = +x[X]; break;
                case 4: onsites(P) z[X] = x[X].conj(); break;
                case 5: onsites(P) z[X] = x[X].dagger(); break;
                case 6: onsites(P) z[X] = conj(x[X]); break;
                }
            } else if (n == "unum") { // P k how x y
                Field<U1<T>> &f = u[I(1)];
                Complex<T> c(I(3), I(4));
                Field<Complex<T>> e;
                switch (I(2)) {
                case 0: onsites(ALL) e[X] = f[X].complex(); break;
                case 1: onsites(ALL) e[X] = f[X] * c; break;
                case 2: onsites(ALL) e[X] = c * f[X]; break;
                case 3: onsites(ALL) { e[X].re = f[X].real(); e[X].im = f[X].imag(); } break;
                case 4: onsites(ALL) { e[X].re = real(f[X]); e[X].im = imag(f[X]); } break;
                }
                hx::out().each(o.line, both(e));
            }
        }
        for (auto &f : q) f.clear();
        for (auto &f : a) f.clear();
        for (auto &f : u) f.clear();
        t.clear();
        w.clear();
        m2.clear();
    }

    static int dirno(Direction d) {
        return is_up_dir(d) ? (int)d + 1 : -((int)opp_dir(d) + 1);
    }
    static void cvec(std::vector<int> &r, const CoordinateVector &c) {
        foralldir(d) r.push_back(c[d]);
    }

    void host(const hx::op_t &o) {
        std::vector<int> r;
        if (o.name == "par") { // P
            Parity p = o.par(0);
            auto no = [](Parity x) { return x == EVEN ? 0 : x == ODD ? 1 : x == ALL ? 2 : 3; };
            r = {no(opp_parity(p)), no(~p), is_even_odd_parity(p) ? 1 : 0, (int)parity_bits(p), (int)parity_bits_inverse(p)};
            hx::out().each(o.line, r);
            return;
        }
        // d1 d2 i cv.. cw.. (cw > 0)
        Direction d1 = o.dir(0), d2 = o.dir(1);
        int i = o.i(2);
        CoordinateVector c = o.cv(3), m = o.cv(3 + NDIM);
        r.push_back(dirno(-d1));
        r.push_back(dirno(opp_dir(d1)));
        r.push_back(dirno(+d1));
        r.push_back(is_up_dir(d1));
        r.push_back(dirno(abs(d1)));
        r.push_back(dir_dot_product(d1, d2));
        cvec(r, d1 + d2);
        cvec(r, d1 - d2);
        cvec(r, i * d1);
        cvec(r, d1 * i);
        cvec(r, c + d1);
        cvec(r, c - d1);
        cvec(r, d1 + c);
        cvec(r, d1 - c);
        CoordinateVector e = c;
        e += d1;
        e -= d2;
        e += m;
        e -= c;
        cvec(r, e);
        cvec(r, c + m);
        cvec(r, c - m);
        cvec(r, -c);
        cvec(r, +c);
        cvec(r, c.mod(m));
        r.push_back(c.dot(m));
        r.push_back(c.parity() == EVEN ? 0 : c.parity() == ODD ? 1 : 2);
        r.push_back(c.is_divisible(m));
        r.push_back(c == m);
        r.push_back(c == d1);
        r.push_back(c != m);
        Direction dd = e_x;
        bool is = c.is_direction(dd);
        r.push_back(is);
        r.push_back(is ? dirno(dd) : 0);
        CoordinateVector x(d1);
        cvec(r, x);
        x = d2;
        cvec(r, x);
        r.push_back(x == d2);
        r.push_back(pmod(i, m[e_x]));
        if (is_up_dir(d1) && (int)d1 + 1 < NDIM) {
            Direction q = d1;
            r.push_back(dirno(next_direction(d1)));
            r.push_back(dirno(q++));
            r.push_back(dirno(q));
            q = d1;
            r.push_back(dirno(++q));
        }
        hx::out().each(o.line, r);
    }
};

int main(int argc, char **argv) {
    std::string typ = argv[1], script = argv[2], outname = argv[3];
    CoordinateVector size;
    foralldir(d) size[d] = std::stoi(argv[4 + (int)d]);
    argc = 1;
    hila::initialize(argc, argv);
    lattice.setup(size);
    hila::seed_random(17);
    hx::out().open(outname);
    if (typ == "d") {
        Small<double> s;
        s.run(script);
    } else {
        Small<float> s;
        s.run(script);
    }
    hx::out().zero(0, {1});
    hila::finishrun();
}
