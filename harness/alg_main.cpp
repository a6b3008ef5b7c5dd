// alg - SCRIPT OUT NX ..          element algebra: registers of one number type and size
// a register is <kind>*10 + <index>; kinds: 0 M n x n, 1 V column, 2 W row, 3 D diagonal, 4 A array n x n, 5 S number,
// 6 Y real number, 7 K real n x n, 8 P n x (n+1), 9 Q (n+1) x n
#include "hx.h"

using vals = std::vector<int>; // rows, columns, re, im, re, im ..

static int fix(double d, double scale, bool exact) {
    double x = d * scale, r = std::round(x);
    if (!(r > -2.0e9 && r < 2.0e9) || (exact && r != x))
        return hx::BAD;
    return (int)r;
}

struct result {
    vals v;
    double scale = 1;
    bool exact = true;
    bool is = false;
    template <typename X>
    void number(const X &x) {
        if constexpr (hila::is_complex<X>::value) {
            v.push_back(fix(x.re, scale, exact));
            v.push_back(fix(x.im, scale, exact));
        } else {
            v.push_back(fix((double)x, scale, exact));
            v.push_back(0);
        }
    }
    template <typename X>
    void operator()(const X &x) {
        is = true;
        if constexpr (hila::is_complex_or_arithmetic<X>::value) {
            v.insert(v.end(), {1, 1});
            number(x);
        } else {
            v.insert(v.end(), {(int)x.rows(), (int)x.columns()});
            for (int i = 0; i < x.rows(); i++)
                for (int j = 0; j < x.columns(); j++)
                    number(x.e(i, j));
        }
    }
};

template <typename T, int n>
struct machine {
    using R = hila::arithmetic_type<T>;
    static constexpr bool cplx = hila::is_complex<T>::value;
    static constexpr bool flt = hila::is_floating_point<R>::value;
    SquareMatrix<n, T> M[4];
    Vector<n, T> V[3];
    RowVector<n, T> W[2];
    DiagonalMatrix<n, T> D[2];
    Array<n, n, T> A[3];
    T S[3];
    R Y[2];
    SquareMatrix<n, R> K[2];
    Matrix<n, n + 1, T> P[2];
    Matrix<n + 1, n, T> Q[2];
    Field<SquareMatrix<n, T>> fM[2], fR;
    Field<Vector<n, T>> fV[2], fU;
    Field<T> fS[2], fT;
    Field<R> fY;

    static T num(int re, int im) {
        if constexpr (cplx)
            return T(re, im);
        else
            return (T)re;
    }
    void put(const hx::op_t &o) { // reg re im ..
        int k = o.i(0) / 10, x = o.i(0) % 10, p = 1;
        auto next = [&]() {
            T t = num(o.i(p), o.i(p + 1));
            p += 2;
            return t;
        };
        auto nextr = [&]() {
            R t = (R)o.i(p);
            p += 2;
            return t;
        };
        auto mat = [&](auto &m) {
            for (int i = 0; i < m.rows(); i++)
                for (int j = 0; j < m.columns(); j++)
                    m.e(i, j) = next();
        };
        switch (k) {
        case 0: mat(M[x]); break;
        case 1: mat(V[x]); break;
        case 2: mat(W[x]); break;
        case 3:
            for (int i = 0; i < n; i++)
                D[x].e(i) = next();
            break;
        case 4: mat(A[x]); break;
        case 5: S[x] = next(); break;
        case 6: Y[x] = nextr(); break;
        case 7:
            for (int i = 0; i < n; i++)
                for (int j = 0; j < n; j++)
                    K[x].e(i, j) = nextr();
            break;
        case 8: mat(P[x]); break;
        case 9: mat(Q[x]); break;
        }
    }
    void read(int reg, result &r) {
        int x = reg % 10;
        switch (reg / 10) {
        case 0: r(M[x]); break;
        case 1: r(V[x]); break;
        case 2: r(W[x]); break;
        case 3: r(D[x]); break;
        case 4: r(A[x]); break;
        case 5: r(S[x]); break;
        case 6: r(Y[x]); break;
        case 7: r(K[x]); break;
        case 8: r(P[x]); break;
        case 9: r(Q[x]); break;
        }
    }

    enum { kM, kV, kW, kD, kA, kS, kY, kK, kP, kQ };
#define ACT(a, b, x, y, ...)                                                                                                                 \
    if (ka == k##a && kb == k##b) {                                                                                                          \
        auto &x = a[ia];                                                                                                                     \
        auto &y = b[ib];                                                                                                                     \
        __VA_ARGS__;                                                                                                                         \
        return;                                                                                                                              \
    }
#define OP2(a, b, opr) ACT(a, b, x, y, r(x opr y))

    void binary(const std::string &f, int a, int b, result &r) {
        int ka = a / 10, ia = a % 10, kb = b / 10, ib = b % 10;
        if (f == "add") {
            OP2(M, M, +) OP2(V, V, +) OP2(W, W, +) OP2(P, P, +) OP2(A, A, +) OP2(S, S, +) OP2(D, D, +) OP2(K, K, +)
            OP2(M, K, +) OP2(K, M, +) OP2(M, S, +) OP2(S, M, +) OP2(M, Y, +) OP2(Y, M, +) OP2(K, S, +) OP2(S, K, +)
            OP2(D, M, +) OP2(M, D, +) OP2(D, S, +) OP2(S, D, +) OP2(A, S, +) OP2(S, A, +) OP2(A, Y, +) OP2(Y, A, +)
            OP2(S, Y, +) OP2(Y, S, +) OP2(D, Y, +) OP2(K, D, +)
        } else if (f == "sub") {
            OP2(M, M, -) OP2(V, V, -) OP2(W, W, -) OP2(P, P, -) OP2(A, A, -) OP2(S, S, -) OP2(D, D, -) OP2(K, K, -)
            OP2(M, K, -) OP2(K, M, -) OP2(M, S, -) OP2(S, M, -) OP2(M, Y, -) OP2(Y, M, -) OP2(K, S, -) OP2(S, K, -)
            OP2(D, M, -) OP2(M, D, -) OP2(D, S, -) OP2(S, D, -) OP2(A, S, -) OP2(S, A, -) OP2(A, Y, -) OP2(Y, A, -)
            OP2(S, Y, -) OP2(Y, S, -) OP2(D, Y, -) OP2(Y, D, -) OP2(D, K, -)
        } else if (f == "mul") {
            OP2(M, M, *) OP2(M, V, *) OP2(W, M, *) OP2(W, V, *) OP2(V, W, *) OP2(P, Q, *) OP2(Q, P, *) OP2(M, P, *) OP2(Q, M, *)
            OP2(M, K, *) OP2(K, M, *) OP2(K, V, *) OP2(W, K, *) OP2(M, S, *) OP2(S, M, *) OP2(M, Y, *) OP2(Y, M, *) OP2(V, S, *)
            OP2(S, V, *) OP2(V, Y, *) OP2(K, S, *) OP2(S, K, *) OP2(P, S, *) OP2(S, P, *) OP2(D, M, *) OP2(M, D, *) OP2(D, D, *)
            OP2(D, V, *) OP2(W, D, *) OP2(D, P, *) OP2(Q, D, *) OP2(D, S, *) OP2(S, D, *) OP2(D, Y, *) OP2(A, A, *) OP2(A, S, *)
            OP2(S, A, *) OP2(A, Y, *) OP2(S, S, *) OP2(S, Y, *) OP2(Y, S, *) OP2(K, P, *) OP2(K, K, *) OP2(K, D, *) OP2(D, K, *)
        } else if (f == "eq") {
            OP2(M, M, ==) OP2(V, V, ==) OP2(W, W, ==) OP2(P, P, ==) OP2(A, A, ==) OP2(S, S, ==) OP2(D, D, ==) OP2(M, D, ==) OP2(D, M, ==)
            OP2(K, K, ==) OP2(S, Y, ==) OP2(Y, S, ==)
        } else if (f == "ne") {
            OP2(M, M, !=) OP2(V, V, !=) OP2(W, W, !=) OP2(P, P, !=) OP2(A, A, !=) OP2(S, S, !=) OP2(D, D, !=)
            OP2(K, K, !=) OP2(S, Y, !=) OP2(Y, S, !=)
        } else if (f == "dot") {
            ACT(V, V, x, y, r(x.dot(y)))
        } else if (f == "outer") {
            ACT(V, V, x, y, r(x.outer_product(y)))
        } else if (f == "mtr") {
            ACT(M, M, x, y, r(x.mul_trace(y)))
            ACT(M, K, x, y, r(mul_trace(x, y)))
            ACT(P, Q, x, y, r(x.mul_trace(y)))
        } else if (f == "emul") {
            ACT(M, M, x, y, r(x.element_mul(y)))
            ACT(V, V, x, y, r(x.element_mul(y)))
            ACT(P, P, x, y, r(x.element_mul(y)))
        } else if (f == "sadd") {
            ACT(M, S, x, y, r(x.scalar_add(y)))
            ACT(V, S, x, y, r(x.scalar_add(y)))
            ACT(M, Y, x, y, r(x.scalar_add(y)))
        } else if (f == "ssub") {
            ACT(M, S, x, y, r(x.scalar_sub(y)))
            ACT(P, S, x, y, r(x.scalar_sub(y)))
        } else if (f == "cmul") {
            if constexpr (cplx) {
                ACT(S, S, x, y, r(x.conj_mul(y)))
            }
        } else if (f == "mulc") {
            if constexpr (cplx) {
                ACT(S, S, x, y, r(x.mul_conj(y)))
            }
        } else if (f == "mult") {
            ACT(M, M, x, y, auto z = x; mult(x, y, z); r(z))
            ACT(M, V, x, y, auto z = y; mult(x, y, z); r(z))
            ACT(P, Q, x, y, auto z = M[0]; mult(x, y, z); r(z))
            ACT(M, S, x, y, auto z = x; mult(x, y, z); r(z))
            ACT(S, P, x, y, auto z = y; mult(x, y, z); r(z))
        } else if (f == "multaa") {
            ACT(M, M, x, y, auto z = x; mult_aa(x, y, z); r(z))
            ACT(P, Q, x, y, auto z = M[0]; mult_aa(x, y, z); r(z))
        }
    }
#define IN2(a, b, opr) ACT(a, b, x, y, x opr y)
    void inplace(const std::string &f, int a, int b) {
        int ka = a / 10, ia = a % 10, kb = b / 10, ib = b % 10;
        if (f == "set") {
            IN2(M, M, =) IN2(M, D, =) IN2(M, S, =) IN2(M, Y, =) IN2(M, K, =) IN2(V, V, =) IN2(W, W, =) IN2(A, S, =) IN2(A, A, =) IN2(D, S, =)
            IN2(D, D, =) IN2(S, S, =) IN2(S, Y, =) IN2(P, P, =) IN2(Q, Q, =) IN2(K, Y, =) IN2(K, K, =)
            ACT(M, A, x, y, x = y.asMatrix())
            ACT(A, M, x, y, x = y.asArray())
            ACT(V, D, x, y, x = y.asVector())
            ACT(D, V, x, y, x = y.asDiagonalMatrix())
            ACT(D, M, x, y, x = y.diagonal())
        } else if (f == "iadd") {
            IN2(M, M, +=) IN2(M, S, +=) IN2(M, Y, +=) IN2(M, K, +=) IN2(M, D, +=) IN2(V, V, +=) IN2(W, W, +=) IN2(P, P, +=) IN2(A, A, +=)
            IN2(A, S, +=) IN2(A, Y, +=) IN2(D, D, +=) IN2(D, S, +=) IN2(S, S, +=) IN2(S, Y, +=)
            ACT(V, S, x, y, x.asArray() += y)
        } else if (f == "isub") {
            IN2(M, M, -=) IN2(M, S, -=) IN2(M, Y, -=) IN2(M, K, -=) IN2(M, D, -=) IN2(V, V, -=) IN2(W, W, -=) IN2(P, P, -=) IN2(A, A, -=)
            IN2(A, S, -=) IN2(A, Y, -=) IN2(D, D, -=) IN2(D, S, -=) IN2(S, S, -=) IN2(S, Y, -=)
        } else if (f == "imul") {
            IN2(M, M, *=) IN2(M, S, *=) IN2(M, Y, *=) IN2(M, K, *=) IN2(M, D, *=) IN2(V, S, *=) IN2(V, Y, *=) IN2(W, M, *=) IN2(Q, M, *=)
            IN2(P, S, *=) IN2(A, A, *=) IN2(A, S, *=) IN2(A, Y, *=) IN2(D, D, *=) IN2(D, S, *=) IN2(S, S, *=) IN2(S, Y, *=)
            IN2(K, Y, *=) IN2(Q, D, *=)
        }
    }
    void ternary(const std::string &f, int d, int a, int b) { // d = d + a b, d = d - a b
        int ka = a / 10, ia = a % 10, kb = b / 10, ib = b % 10, i = d % 10;
        if (f == "madd") {
            ACT(M, M, x, y, mult_add(x, y, M[i]))
            ACT(M, V, x, y, mult_add(x, y, V[i]))
            ACT(P, Q, x, y, mult_add(x, y, M[i]))
            ACT(M, S, x, y, mult_add(x, y, M[i]))
            ACT(S, M, x, y, mult_add(x, y, M[i]))
        } else if (f == "msub") {
            ACT(M, M, x, y, mult_sub(x, y, M[i]))
            ACT(M, V, x, y, mult_sub(x, y, V[i]))
            ACT(P, Q, x, y, mult_sub(x, y, M[i]))
            ACT(M, S, x, y, mult_sub(x, y, M[i]))
            ACT(S, M, x, y, mult_sub(x, y, M[i]))
        }
    }
#define U1(a, x, ...)                                                                                                                        \
    if (ka == k##a) {                                                                                                                        \
        auto &x = a[ia];                                                                                                                     \
        __VA_ARGS__;                                                                                                                         \
        return;                                                                                                                              \
    }
#define UALL(expr)                                                                                                                           \
    U1(M, x, r(expr)) U1(V, x, r(expr)) U1(W, x, r(expr)) U1(K, x, r(expr)) U1(P, x, r(expr)) U1(Q, x, r(expr))
    void unary(const std::string &f, int a, result &r) {
        int ka = a / 10, ia = a % 10;
        if (f == "neg") {
            UALL(-x) U1(D, x, r(-x)) U1(A, x, r(-x)) U1(S, x, r(-x))
        } else if (f == "pos") {
            UALL(+x) U1(D, x, r(+x)) U1(A, x, r(+x)) U1(S, x, r(+x))
        } else if (f == "tra") {
            UALL(x.transpose())
        } else if (f == "traf") {
            UALL(transpose(x))
        } else if (f == "con") {
            UALL(x.conj()) U1(D, x, r(x.conj())) U1(A, x, r(x.conj())) U1(S, x, r(conj(x)))
        } else if (f == "conf") {
            UALL(conj(x)) U1(D, x, r(conj(x))) U1(A, x, r(conj(x)))
        } else if (f == "dag") {
            UALL(x.dagger()) U1(D, x, r(x.dagger())) U1(S, x, r(dagger(x)))
        } else if (f == "dagf") {
            UALL(dagger(x)) U1(D, x, r(dagger(x)))
        } else if (f == "adj") {
            UALL(x.adjoint())
        } else if (f == "re") {
            UALL(x.real()) U1(D, x, r(x.real())) U1(A, x, r(x.real())) U1(S, x, r(real(x)))
        } else if (f == "im") {
            UALL(x.imag()) U1(D, x, r(x.imag())) U1(A, x, r(x.imag())) U1(S, x, r(imag(x)))
        } else if (f == "tr") {
            U1(M, x, r(x.trace())) U1(D, x, r(x.trace())) U1(K, x, r(trace(x)))
        } else if (f == "detl") {
            U1(M, x, r(x.det_laplace()))
        } else if (f == "det") {
            U1(D, x, r(x.det()))
            if constexpr (flt && n < 5) {
                U1(M, x, r(x.det()))
                U1(K, x, r(det(x)))
            }
        } else if (f == "sqn") {
            UALL(x.squarenorm()) U1(D, x, r(x.squarenorm())) U1(A, x, r(x.squarenorm())) U1(S, x, r(squarenorm(x)))
        } else if (f == "sum") {
            UALL(x.sum()) U1(A, x, r(x.sum()))
        } else if (f == "max") {
            U1(K, x, r(x.max()))
            if constexpr (!cplx) {
                U1(A, x, r(x.max())) U1(D, x, r(x.max())) U1(M, x, r(x.max()))
                U1(V, x, int e; auto z = x.max(e); r(x.c[e]); (void)z)
            }
        } else if (f == "min") {
            U1(K, x, r(x.min()))
            if constexpr (!cplx) {
                U1(A, x, r(x.min())) U1(D, x, r(x.min())) U1(M, x, r(x.min()))
                U1(V, x, int e; auto z = x.min(e); r(x.c[e]); (void)z)
            }
        } else if (f == "mat") {
            U1(D, x, r(x.toMatrix())) U1(A, x, r(x.asMatrix()))
        } else if (f == "cpy") {
            U1(M, x, SquareMatrix<n, T> z(x); r(z)) U1(V, x, Vector<n, T> z(x); r(z)) U1(K, x, SquareMatrix<n, T> z(x); r(z))
            U1(S, x, SquareMatrix<n, T> z(x); r(z)) U1(Y, x, SquareMatrix<n, T> z(x); r(z))
        }
    }
    // parts: f reg i j reg2
    void part(const std::string &f, int a, int i, int j, int b, result &r) {
        int ka = a / 10, ia = a % 10, ib = b % 10;
        if (f == "el") {
            U1(M, x, r(x.e(i, j))) U1(P, x, r(x.e(i, j))) U1(Q, x, r(x.e(i, j))) U1(A, x, r(x.e(i, j))) U1(D, x, r(x.e(i, j)))
        } else if (f == "row") {
            U1(M, x, r(x.row(i))) U1(P, x, r(x.row(i))) U1(D, x, r(x.row(i)))
        } else if (f == "col") {
            U1(M, x, r(x.column(j))) U1(Q, x, r(x.column(j))) U1(D, x, r(x.column(j)))
        } else if (f == "setel") {
            U1(M, x, x.e(i, j) = S[ib]) U1(P, x, x.e(i, j) = S[ib]) U1(A, x, x.e(i, j) = S[ib])
        } else if (f == "setrow") {
            U1(M, x, x.set_row(i, W[ib])) U1(Q, x, x.set_row(i, W[ib]))
        } else if (f == "setcol") {
            U1(M, x, x.set_column(j, V[ib])) U1(P, x, x.set_column(j, V[ib]))
        } else if (f == "setdiag") {
            U1(M, x, x.set_diagonal(V[ib]))
        } else if (f == "fill") {
            U1(M, x, x.fill(S[ib])) U1(V, x, x.fill(S[ib])) U1(P, x, x.fill(S[ib]))
        }
    }
    // permutations: kind of reg, the permutation
    void perm(const std::string &f, int a, const hx::op_t &o, int p, result &r) {
        int ka = a / 10, ia = a % 10;
        Vector<n, int> v;
        for (int i = 0; i < n; i++)
            v.e(i) = o.i(p + i);
        if (f == "pcol") {
            U1(M, x, r(x.permute_columns(v))) U1(Q, x, r(x.permute_columns(v)))
        } else if (f == "prow") {
            U1(M, x, r(x.permute_rows(v))) U1(P, x, r(x.permute_rows(v)))
        } else if (f == "pvec") {
            U1(V, x, r(x.permute(v))) U1(W, x, r(x.permute(v)))
        }
    }
    // sorted values, then the permutation
    void sorted(int a, int desc, vals &v) {
        if constexpr (!cplx) {
            Vector<n, int> p;
            auto h = desc ? hila::sort::descending : hila::sort::ascending;
            auto z = V[a % 10].sort(p, h);
            auto z2 = V[a % 10].sort(h);
            for (int i = 0; i < n; i++) {
                v.push_back(z.e(i) == z2.e(i) ? fix((double)z.e(i), 1, true) : hx::BAD);
                v.push_back(p.e(i));
            }
        }
    }
    void twobytwo(const std::string &f, int a, int p, int q, const hx::op_t &o, int w) {
        SquareMatrix<2, T> z;
        for (int i = 0; i < 4; i++)
            z.c[i] = num(o.i(w + 2 * i), o.i(w + 2 * i + 1));
        int ka = a / 10, ia = a % 10;
        if (f == "left") {
            U1(M, x, x.mult_by_2x2_left(p, q, z))
        } else {
            U1(M, x, x.mult_by_2x2_right(p, q, z))
        }
    }
    // functions with a result that is not an integer: in units of 1/scale
    void inexact(const std::string &f, int a, int b, int den, vals &v) {
        int ka = a / 10, ia = a % 10, kb = b / 10, ib = b % 10;
        result r;
        r.exact = false;
        r.scale = den;
        if constexpr (flt) {
            auto d2 = [&]() {
                OP2(M, S, /) OP2(M, Y, /) OP2(V, S, /) OP2(P, Y, /) OP2(D, S, /) OP2(D, Y, /) OP2(A, A, /) OP2(A, S, /) OP2(S, A, /) OP2(S, S, /)
                OP2(S, Y, /) OP2(Y, S, /) OP2(M, D, /) OP2(D, D, /) OP2(K, S, /) OP2(K, Y, /) OP2(S, D, /) OP2(Q, D, /)
                ACT(M, M, x, y, r(x.element_div(y)))
            };
            auto i2 = [&]() {
#define ID2(a, b) ACT(a, b, x, y, auto z = x; z /= y; r(z))
                ID2(M, S) ID2(M, Y) ID2(V, S) ID2(P, Y) ID2(D, S) ID2(A, A) ID2(A, S) ID2(A, Y) ID2(S, S) ID2(S, Y) ID2(M, D) ID2(D, D)
                ID2(Q, D)
            };
            if (f == "div")
                d2();
            else if (f == "idiv")
                i2();
            else if (f == "norm")
                [&]() { UALL(x.norm()) U1(D, x, r(x.norm())) U1(S, x, r(sqrt(squarenorm(x)))) }();
            else if (f == "abs")
                [&]() { UALL(x.abs()) U1(D, x, r(x.abs())) U1(S, x, r(abs(x))) U1(A, x, r(abs(x))) }();
            else if (f == "maxabs")
                [&]() { U1(M, x, r(x.max_abs())) U1(V, x, r(x.max_abs())) }();
            else if (f == "minabs")
                [&]() { U1(M, x, r(x.min_abs())) U1(V, x, r(x.min_abs())) }();
            else if (f == "norm1")
                [&]() { U1(M, x, r(x.norm_L1())) U1(V, x, r(x.norm_L1())) }();
            else if (f == "detu")
                r(M[ia].det_lu());
            else if (f == "solve")
                r(M[ia].LU_solve(V[ib]));
            else if (f == "solvem")
                r(M[ia].LU_solve(P[ib]));
            else if (f == "inv")
                r(M[ia].LU_invert());
            else if (f == "invmul")
                r(M[ia].invert_mul(V[ib]));
            else if (f == "exp" || f == "altexp" || f == "chexp" || f == "chsexp" || f == "chexpk" || f == "multchexp" || f == "multexp") {
                SquareMatrix<n, T> h = M[ia] / (R)8;
                if (f == "exp")
                    r(exp(h));
                else if (f == "altexp") {
                    if constexpr (cplx)
                        r(altexp(h));
                } else if (f == "chexp")
                    r(chexp(h));
                else if (f == "chsexp") {
                    if constexpr (cplx)
                        r(chsexp(h));
                } else if (f == "chexpk") {
                    if constexpr (cplx) {
                        SquareMatrix<n, T> o, k;
                        chexpk(h, o, k);
                        r(o);
                    }
                }
            } else if (f == "sexp") { // functions of one number
                T z = S[ia] / (R)4;
                r(exp(z));
                r(sin(z));
                r(cos(z));
                r(sinh(z));
                r(cosh(z));
                r(tan(z));
                r(tanh(z));
            } else if (f == "sinv") { // x and inverses of functions of it
                T z = S[ia] / (R)4;
                r(sqrt(z));
                r(log(z));
                r(atan(z));
                r(asinh(z));
                r(cbrt(z));
            } else if (f == "pow") {
                T z = S[ia] / (R)2;
                r(pow(z, 3));
                r(pow(z, S[ib] / (R)2));
            } else if (f == "arg") {
                if constexpr (cplx) {
                    r(S[ia].arg());
                    r(arg(S[ia]));
                    r(polar(S[ia].abs(), S[ia].arg()));
                    r(S[ia].abs() * expi(S[ia].arg()));
                }
            } else if (f == "eigen") { // of M + M^+: values, vectors
                auto h = M[ia] + M[ia].dagger();
                SquareMatrix<n, T> u;
                DiagonalMatrix<n, R> e;
                h.eigen_hermitean(e, u, b == 1 ? hila::sort::ascending : b == 2 ? hila::sort::descending : hila::sort::unsorted);
                r(e.toMatrix());
                r(u);
            } else if (f == "svd" || f == "svdp") {
                SquareMatrix<n, T> u, w;
                DiagonalMatrix<n, R> e;
                auto s = b == 1 ? hila::sort::ascending : b == 2 ? hila::sort::descending : hila::sort::unsorted;
                if (f == "svd")
                    M[ia].svd(u, e, w, s);
                else
                    M[ia].svd_pivot(u, e, w, s);
                r(u);
                r(e.toMatrix());
                r(w);
            } else if constexpr (cplx) {
                SU<n, R> u;
                for (int i = 0; i < n * n; i++)
                    u.c[i] = M[ia].c[i];
                if (f == "unit") { // reunitarized
                    u.reunitarize();
                    r(u);
                    r(u.det());
                } else if (f == "sunrnd") {
                    hila::seed_random(a * 100 + b);
                    u.random();
                    for (int i = 0; i < n * n; i++)
                        hila::broadcast(u.c[i]);
                    r(u);
                    r(u.det());
                } else if (f == "alg") { // coordinates of the algebra (diagonal ones times the root), projection
                    auto g = u.project_to_algebra();
                    auto g2 = u.project_to_algebra_scaled((R)2);
                    R on;
                    auto g3 = u.project_to_algebra(on);
                    vals c;
                    for (int i = 0; i < n * n - 1; i++) {
                        R s = i < n - 1 ? sqrt(0.5 * (i + 1) * (i + 2)) : 1;
                        c.push_back(fix(g.e(i) * s, den, false));
                        if (std::abs(g2.e(i) - 2 * g.e(i)) > 1e-4 * (1 + std::abs(g.e(i))) ||
                            std::abs(g3.e(i) - g.e(i)) > 1e-4 * (1 + std::abs(g.e(i))))
                            c.back() = hx::BAD;
                    }
                    r(g.expand());
                    r(g.expand_scaled((R)3));
                    r(g.dot(g));
                    r.v.insert(r.v.end(), c.begin(), c.end());
                } else if (f == "aexp") { // exponential of an element of the algebra
                    Algebra<SU<n, R>> g;
                    for (int i = 0; i < n * n - 1; i++)
                        g.e(i) = real(M[ia].c[i % (n * n)]) / (R)4;
                    r(g.expand() * (R)8);
                    SquareMatrix<n, T> z = exp(g.expand());
                    r(z);
                    SquareMatrix<n, T> z2 = exp(g);
                    r(z2);
                }
            }
        }
        v = r.v;
    }
    // the same in a site loop, for a number of expressions
    void loop(const std::string &f, int a, int b, result &r) {
        int ia = a % 10, ib = b % 10;
        if constexpr (flt) {
            bool mm = true, vv = false, ss = false;
            fM[0] = M[ia % 4];
            fM[1] = M[ib % 4];
            fV[0] = V[ia % 3];
            fV[1] = V[ib % 3];
            fS[0] = S[ia % 3];
            fS[1] = S[ib % 3];
            fY = Y[ib % 2];
            fR = fM[0];
            fU = fV[0];
            fT = fS[0];
            if (f == "MM")
                onsites(ALL) fR[X] = fM[0][X] * fM[1][X];
            else if (f == "MMd")
                onsites(ALL) fR[X] = fM[0][X] * fM[1][X].dagger();
            else if (f == "MdM")
                onsites(ALL) fR[X] = fM[0][X].dagger() * fM[1][X];
            else if (f == "MpM")
                onsites(ALL) fR[X] = fM[0][X] + fM[1][X];
            else if (f == "MmM")
                onsites(ALL) fR[X] = fM[0][X] - fM[1][X];
            else if (f == "MS")
                onsites(ALL) fR[X] = fM[0][X] * fS[1][X];
            else if (f == "MpS")
                onsites(ALL) fR[X] = fM[0][X] + fS[1][X];
            else if (f == "MY")
                onsites(ALL) fR[X] = fM[0][X] * fY[X];
            else if (f == "MiM")
                onsites(ALL) fR[X] *= fM[1][X];
            else if (f == "MiY")
                onsites(ALL) fR[X] -= fY[X];
            else if (f == "Mt")
                onsites(ALL) fR[X] = fM[0][X].transpose();
            else if (f == "Mc")
                onsites(ALL) fR[X] = fM[0][X].conj();
            else if (f == "VV")
                onsites(ALL) fR[X] = fV[0][X].outer_product(fV[1][X]);
            else
                mm = false;
            if (!mm) {
                vv = true;
                if (f == "MV")
                    onsites(ALL) fU[X] = fM[0][X] * fV[1][X];
                else if (f == "SV")
                    onsites(ALL) fU[X] = fS[0][X] * fV[1][X];
                else if (f == "VpV")
                    onsites(ALL) fU[X] = fV[0][X] + fV[1][X];
                else
                    vv = false;
            }
            if (!mm && !vv) {
                ss = true;
                if (f == "SS")
                    onsites(ALL) fT[X] = fS[0][X] * fS[1][X];
                else if (f == "SmS")
                    onsites(ALL) fT[X] = fS[0][X] - fS[1][X];
                else if (f == "SSc")
                    onsites(ALL) fT[X] = fS[0][X] * conj(fS[1][X]);
                else if (f == "SpY")
                    onsites(ALL) fT[X] = fS[0][X] + fY[X];
                else if (f == "tr")
                    onsites(ALL) fT[X] = trace(fM[0][X]);
                else if (f == "dt")
                    onsites(ALL) fT[X] = fM[0][X].det_laplace();
                else if (f == "mt")
                    onsites(ALL) fT[X] = mul_trace(fM[0][X], fM[1][X]);
                else if (f == "VdV")
                    onsites(ALL) fT[X] = fV[0][X].dot(fV[1][X]);
                else if (f == "sq")
                    onsites(ALL) fT[X] = fM[0][X].squarenorm();
            }
            // all sites have the same value
            if (mm)
                same(fR, r);
            else if (vv)
                same(fU, r);
            else if (ss)
                same(fT, r);
        }
    }
    template <typename E>
    void same(const Field<E> &f, result &r) {
        CoordinateVector c;
        bool first = true;
        E v;
        foralldir(d) c[d] = 0;
        for (int i = 0; i < 6; i++) {
            foralldir(d) c[d] = (i * ((int)d + 1) + i / 2) % lattice.size(d);
            E w = f.get_element(c);
            if (first)
                v = w;
            first = false;
            if (v != w) {
                r.v = {hx::DISAGREE};
                return;
            }
        }
        r(v);
    }
    // store a result into a register
    void store(int reg, const vals &v) {
        hx::op_t o;
        o.a.push_back(std::to_string(reg));
        bool diag = reg / 10 == 3;
        for (int i = 0; i < v[0] * v[1]; i++) {
            if (diag && i % (v[1] + 1))
                continue;
            o.a.push_back(std::to_string(v[2 + 2 * i]));
            o.a.push_back(std::to_string(v[3 + 2 * i]));
        }
        put(o);
    }

    void run(const hx::op_t &o) {
        result r;
        int d = -1;
        if (o.name == "put") {
            put(o);
            return;
        } else if (o.name == "get")
            read(o.i(0), r);
        else if (o.name == "bin") { // f d a b
            binary(o.a[0], o.i(2), o.i(3), r);
            d = o.i(1);
        } else if (o.name == "una") { // f d a
            unary(o.a[0], o.i(2), r);
            d = o.i(1);
        } else if (o.name == "inp") { // f a b
            inplace(o.a[0], o.i(1), o.i(2));
            read(o.i(1), r);
        } else if (o.name == "ter") { // f d a b
            ternary(o.a[0], o.i(1), o.i(2), o.i(3));
            read(o.i(1), r);
        } else if (o.name == "part") { // f a i j b
            part(o.a[0], o.i(1), o.i(2), o.i(3), o.i(4), r);
            if (!r.is)
                read(o.i(1), r);
        } else if (o.name == "perm") // f a p ..
            perm(o.a[0], o.i(1), o, 2, r);
        else if (o.name == "sort")
            sorted(o.i(0), o.i(1), r.v);
        else if (o.name == "two") { // f a p q z ..
            twobytwo(o.a[0], o.i(1), o.i(2), o.i(3), o, 4);
            read(o.i(1), r);
        } else if (o.name == "inex") // f a b den
            inexact(o.a[0], o.i(1), o.i(2), o.i(3), r.v);
        else if (o.name == "loop") // f a b
            loop(o.a[0], o.i(1), o.i(2), r);
        if (d >= 0 && r.is)
            store(d, r.v);
        hx::out().all(o.line, r.v);
    }
};

template <typename T, int n>
static void go(const std::vector<hx::op_t> &s, size_t i) {
    auto m = std::make_unique<machine<T, n>>();
    for (; i < s.size() && s[i].name != "group"; i++)
        m->run(s[i]);
}

int main(int argc, char **argv) {
    std::string script = argv[2], out = argv[3];
    CoordinateVector size;
    foralldir(d) size[d] = atoi(argv[4 + (int)d]);
    char *av[] = {argv[0], nullptr};
    hila::initialize(1, av);
    lattice.setup(size);
    hila::seed_random(1);
    hx::out().open(out);
    auto s = hx::read_script(script);
    for (size_t i = 0; i < s.size(); i++)
        if (s[i].name == "group") {
            std::string t = s[i].a[0];
            int n = s[i].i(1);
            if (t == "z" && n == 2)
                go<Complex<double>, 2>(s, i + 1);
            else if (t == "z" && n == 3)
                go<Complex<double>, 3>(s, i + 1);
            else if (t == "z" && n == 4)
                go<Complex<double>, 4>(s, i + 1);
            else if (t == "c" && n == 3)
                go<Complex<float>, 3>(s, i + 1);
            else if (t == "d" && n == 2)
                go<double, 2>(s, i + 1);
            else if (t == "d" && n == 3)
                go<double, 3>(s, i + 1);
            else if (t == "f" && n == 4)
                go<float, 4>(s, i + 1);
        }
    hx::out().zero(0, {1});
    hila::finishrun();
}
