// Reference model: values and exact derivatives in plain scalar arithmetic (dual numbers),
// written from the mathematical definition of each operation and the documented tangent
// convention (left perturbations; rigid transforms ordered rotation, translation).
// Shares no code with the library and uses no Eigen.
#pragma once
#include <cmath>
#include <cstring>
#include <memory>
#include <string>
#include <vector>

namespace model {

struct D {  // value and derivative along the current direction
    double v = 0, d = 0;
    D() = default;
    D(double a) : v{a} {}
    D(double a, double b) : v{a}, d{b} {}
};
inline D operator+(D a, D b) { return {a.v + b.v, a.d + b.d}; }
inline D operator-(D a, D b) { return {a.v - b.v, a.d - b.d}; }
inline D operator-(D a) { return {-a.v, -a.d}; }
inline D operator*(D a, D b) { return {a.v * b.v, a.d * b.v + a.v * b.d}; }
inline D operator/(D a, D b) { return {a.v / b.v, (a.d - a.v / b.v * b.d) / b.v}; }
inline D sqrt(D a) {
    double s = std::sqrt(a.v);
    return {s, a.d / (2 * s)};
}
inline D sin(D a) { return {std::sin(a.v), std::cos(a.v) * a.d}; }
inline D cos(D a) { return {std::cos(a.v), -std::sin(a.v) * a.d}; }
inline D acos(D a) { return {std::acos(a.v), -a.d / std::sqrt(1 - a.v * a.v)}; }
inline D atan2(D y, D x) {
    double r2 = y.v * y.v + x.v * x.v;
    return {std::atan2(y.v, x.v), (x.v * y.d - y.v * x.d) / r2};
}

enum Kind { Rot, Vec, Scal, RT, Tw, Five };
inline int dofOf(Kind k) { return k == Scal ? 1 : (k == RT || k == Tw) ? 6 : k == Five ? 5 : 3; }
inline int numOf(Kind k) { return k == Rot ? 9 : k == Vec ? 3 : k == Scal ? 1 : k == RT ? 12 : k == Five ? 5 : 6; }

struct Val {
    Kind k = Scal;
    D x[12];
};

/** Set while evaluating: what makes a comparison with floating-point code meaningless. */
struct Cond {
    double mag = 1;       // largest magnitude met
    bool badValue = false;  // value itself is ill-conditioned or undefined
    bool badJac = false;    // derivative is
};

// ---- small linear algebra
inline void mulMM(const D *a, const D *b, D *o) {
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            D s;
            for (int k = 0; k < 3; ++k) s = s + a[3 * i + k] * b[3 * k + j];
            o[3 * i + j] = s;
        }
}
inline void mulMV(const D *a, const D *v, D *o) {
    for (int i = 0; i < 3; ++i) o[i] = a[3 * i] * v[0] + a[3 * i + 1] * v[1] + a[3 * i + 2] * v[2];
}
inline void transp(const D *a, D *o) {
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) o[3 * i + j] = a[3 * j + i];
}
inline void cross(const D *a, const D *b, D *o) {
    o[0] = a[1] * b[2] - a[2] * b[1];
    o[1] = a[2] * b[0] - a[0] * b[2];
    o[2] = a[0] * b[1] - a[1] * b[0];
}
inline D dot3(const D *a, const D *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }

// sin(t)/t, (1-cos t)/t^2, (1 - sin(t)/t)/t^2 as functions of t^2
inline void abc(D t2, D &A, D &B, D &C) {
    if (t2.v < 0.25) {
        D s = 1, b = 0.5, c = D{1.0 / 6}, ta = 1, tb = 0.5, tc = D{1.0 / 6};
        for (int n = 1; n < 12; ++n) {
            ta = ta * (-t2) / D{double((2 * n) * (2 * n + 1))};
            tb = tb * (-t2) / D{double((2 * n + 1) * (2 * n + 2))};
            tc = tc * (-t2) / D{double((2 * n + 2) * (2 * n + 3))};
            s = s + ta;
            b = b + tb;
            c = c + tc;
        }
        A = s;
        B = b;
        C = c;
    } else {
        D t = sqrt(t2);
        A = sin(t) / t;
        B = (D{1} - cos(t)) / t2;
        C = (D{1} - A) / t2;
    }
}
inline void expSO3(const D *w, D *R, D *V) {
    D t2 = dot3(w, w), A, B, C;
    abc(t2, A, B, C);
    D K[9] = {D{}, -w[2], w[1], w[2], D{}, -w[0], -w[1], w[0], D{}}, K2[9];
    mulMM(K, K, K2);
    for (int i = 0; i < 9; ++i) {
        D id = (i % 4 == 0) ? 1 : 0;
        R[i] = id + A * K[i] + B * K2[i];
        if (V) V[i] = id + B * K[i] + C * K2[i];
    }
}
inline void logSO3(const D *R, D *w, Cond &c) {
    D s[3] = {(R[7] - R[5]) / 2, (R[2] - R[6]) / 2, (R[3] - R[1]) / 2};
    D co = (R[0] + R[4] + R[8] - D{1}) / 2;
    D s2 = dot3(s, s);
    D f;
    if (s2.v < 0.04 && co.v > 0) {  // asin(s)/s as a series in s^2
        D term = 1;
        f = 1;
        for (int n = 1; n < 16; ++n) {
            term = term * s2 * D{double((2 * n - 1) * (2 * n - 1)) / double((2 * n) * (2 * n + 1))};
            f = f + term;
        }
    } else {
        D sn = sqrt(s2);
        f = atan2(sn, co) / sn;
    }
    for (int i = 0; i < 3; ++i) w[i] = s[i] * f;
    double th = std::sqrt(dot3(w, w).v);
    // close to the cut, where the axis changes sign and the model itself loses digits
    if (!(th < 3.1405)) c.badValue = true;
    if (!(th < 3.13)) c.badJac = true;
}
inline void logSE3(const D *R, const D *t, D *w, Cond &c) {
    logSO3(R, w, c);
    D t2 = dot3(w, w), A, B, C;
    abc(t2, A, B, C);
    D K[9] = {D{}, -w[2], w[1], w[2], D{}, -w[0], -w[1], w[0], D{}}, K2[9], Vi[9];
    mulMM(K, K, K2);
    D g;  // (1 - A/(2B))/t2
    if (t2.v < 0.25) {
        // (B - A/2)/B/t2 with B - A/2 = t2 * sum
        D sum, t2n = 1;
        double fact = 2;  // (2n+2)! and (2n+1)! built up below
        (void) fact;
        for (int n = 1; n < 11; ++n) {
            // B_n = (-1)^n/(2n+2)!, A_n = (-1)^n/(2n+1)!
            double f1 = 1;
            for (int k = 2; k <= 2 * n + 1; ++k) f1 *= k;
            double f2 = f1 * (2 * n + 2);
            double co = (n % 2 ? -1.0 : 1.0) * (1 / f2 - 0.5 / f1);
            sum = sum + D{co} * t2n;
            t2n = t2n * t2;
        }
        g = sum / B;
    } else {
        g = (D{1} - A / (D{2} * B)) / t2;
    }
    for (int i = 0; i < 9; ++i) Vi[i] = D{(i % 4 == 0) ? 1.0 : 0.0} - K[i] / 2 + g * K2[i];
    mulMV(Vi, t, w + 3);
}

// ---- operations
struct Bad {
    std::string what;
};

inline Val mul(const Val &a, const Val &b) {
    Val o;
    if (a.k == Rot && b.k == Rot) {
        o.k = Rot;
        mulMM(a.x, b.x, o.x);
    } else if (a.k == Rot && b.k == Vec) {
        o.k = Vec;
        mulMV(a.x, b.x, o.x);
    } else if (a.k == RT && b.k == RT) {
        o.k = RT;
        mulMM(a.x, b.x, o.x);
        mulMV(a.x, b.x + 9, o.x + 9);
        for (int i = 9; i < 12; ++i) o.x[i] = o.x[i] + a.x[i];
    } else if (a.k == RT && b.k == Vec) {
        o.k = Vec;
        mulMV(a.x, b.x, o.x);
        for (int i = 0; i < 3; ++i) o.x[i] = o.x[i] + a.x[9 + i];
    } else if (a.k == Scal) {
        o.k = b.k;
        for (int i = 0; i < numOf(b.k); ++i) o.x[i] = a.x[0] * b.x[i];
    } else if (b.k == Scal) {
        return mul(b, a);
    } else
        throw Bad{"mul"};
    return o;
}
inline Val inv(const Val &a) {
    Val o;
    o.k = a.k;
    if (a.k == Rot)
        transp(a.x, o.x);
    else if (a.k == RT) {
        transp(a.x, o.x);
        D t[3];
        mulMV(o.x, a.x + 9, t);
        for (int i = 0; i < 3; ++i) o.x[9 + i] = -t[i];
    } else
        throw Bad{"inv"};
    return o;
}
inline Val expv(const Val &a) {
    Val o;
    if (a.k == Vec) {
        o.k = Rot;
        expSO3(a.x, o.x, nullptr);
    } else if (a.k == Tw) {
        o.k = RT;
        D V[9];
        expSO3(a.x, o.x, V);
        mulMV(V, a.x + 3, o.x + 9);
    } else
        throw Bad{"exp"};
    return o;
}
inline Val logv(const Val &a, Cond &c) {
    Val o;
    if (a.k == Rot) {
        o.k = Vec;
        logSO3(a.x, o.x, c);
    } else if (a.k == RT) {
        o.k = Tw;
        logSE3(a.x, a.x + 9, o.x, c);
    } else
        throw Bad{"log"};
    return o;
}
inline Val add(const Val &a, const Val &b) {
    if (a.k == Rot || a.k == RT) return mul(expv(b), a);
    Val o;
    o.k = a.k;
    if (a.k != b.k) throw Bad{"add"};
    for (int i = 0; i < numOf(a.k); ++i) o.x[i] = a.x[i] + b.x[i];
    return o;
}
inline Val sub(const Val &a, const Val &b, Cond &c) {
    if (a.k != b.k) throw Bad{"sub"};
    if (a.k == Rot || a.k == RT) return logv(mul(a, inv(b)), c);
    Val o;
    o.k = a.k;
    for (int i = 0; i < numOf(a.k); ++i) o.x[i] = a.x[i] - b.x[i];
    return o;
}

/** Runs a postfix program: digits push an operand, words apply an operation. */
inline Val run(const char *prog, const Val *args, Cond &c) {
    Val st[16];
    int n = 0;
    const char *p = prog;
    while (*p) {
        if (*p == ' ') {
            ++p;
            continue;
        }
        const char *q = p;
        while (*q && *q != ' ') ++q;
        std::string w(p, q);
        p = q;
        if (w[0] >= '0' && w[0] <= '9') {
            st[n++] = args[w[0] - '0'];
            continue;
        }
        if (w[0] == '#') {  // literal scalar
            Val o;
            o.k = Scal;
            o.x[0] = std::atof(w.c_str() + 1);
            st[n++] = o;
            continue;
        }
        auto bin = [&](Val r) {
            n -= 2;
            st[n++] = r;
        };
        auto un = [&](Val r) { st[n - 1] = r; };
        const Val *a = n >= 2 ? &st[n - 2] : nullptr, *b = n >= 1 ? &st[n - 1] : nullptr;
        if (w == "*") bin(mul(*a, *b));
        else if (w == "+") bin(add(*a, *b));
        else if (w == "-") bin(sub(*a, *b, c));
        else if (w == "inv") un(inv(*b));
        else if (w == "exp") un(expv(*b));
        else if (w == "log") un(logv(*b, c));
        else if (w == "neg") {
            Val o = *b;
            for (int i = 0; i < numOf(o.k); ++i) o.x[i] = -o.x[i];
            un(o);
        } else if (w == "dot") {
            Val o;
            o.k = Scal;
            for (int i = 0; i < numOf(a->k); ++i) o.x[0] = o.x[0] + a->x[i] * b->x[i];
            bin(o);
        } else if (w == "sqn" || w == "norm" || w == "unit") {
            D s;
            for (int i = 0; i < numOf(b->k); ++i) s = s + b->x[i] * b->x[i];
            Val o;
            o.k = Scal;
            if (w == "sqn") {
                o.x[0] = s;
                un(o);
            } else {
                if (!(s.v > 1e-6)) c.badValue = c.badJac = true;
                D nn = sqrt(s);
                if (w == "norm") {
                    o.x[0] = nn;
                    un(o);
                } else {
                    o = *b;
                    for (int i = 0; i < numOf(o.k); ++i) o.x[i] = o.x[i] / nn;
                    un(o);
                }
            }
        } else if (w == "/") {
            if (!(std::fabs(b->x[0].v) > 1e-3)) c.badValue = c.badJac = true;
            Val o = *a;
            for (int i = 0; i < numOf(o.k); ++i) o.x[i] = a->x[i] / b->x[0];
            bin(o);
        } else if (w == "acos") {
            if (!(std::fabs(b->x[0].v) < 0.99)) c.badValue = c.badJac = true;
            Val o = *b;
            o.x[0] = acos(b->x[0]);
            un(o);
        } else if (w == "zcomp") {  // third component of a vector
            Val o;
            o.k = Scal;
            o.x[0] = b->x[2];
            un(o);
        } else if (w == "rot") {
            Val o;
            o.k = b->k == Tw ? Vec : Rot;
            for (int i = 0; i < numOf(o.k); ++i) o.x[i] = b->x[i];
            un(o);
        } else if (w == "setrot" || w == "settrans") {
            Val o = *a;
            bool first = w == "setrot";
            int nr = o.k == Tw ? 3 : 9;
            for (int i = 0; i < numOf(b->k); ++i) o.x[(first ? 0 : nr) + i] = b->x[i];
            bin(o);
        } else if (w == "both") {  // a compound of two vectors
            Val o;
            o.k = Tw;
            for (int i = 0; i < 3; ++i) o.x[i] = a->x[i];
            for (int i = 0; i < 3; ++i) o.x[3 + i] = b->x[i];
            bin(o);
        } else if (w == "tri") {  // a compound of a scalar, a vector and a scalar
            Val o;
            o.k = Five;
            o.x[0] = st[n - 3].x[0];
            for (int i = 0; i < 3; ++i) o.x[1 + i] = a->x[i];
            o.x[4] = b->x[0];
            n -= 3;
            st[n++] = o;
        } else if (w == "trans") {
            Val o;
            o.k = Vec;
            for (int i = 0; i < 3; ++i) o.x[i] = b->x[(b->k == Tw ? 3 : 9) + i];
            un(o);
        } else
            throw Bad{"token " + w};
        for (int i = 0; i < numOf(st[n - 1].k); ++i) {
            double m = std::fabs(st[n - 1].x[i].v), md = std::fabs(st[n - 1].x[i].d);
            if (m > c.mag) c.mag = m;
            if (md > c.mag) c.mag = md;
            if (!(m < 1e12) || !(md < 1e12)) {
                if (!(m < 1e12)) c.badValue = true;
                c.badJac = true;
            }
        }
    }
    if (n != 1) throw Bad{std::string("program ") + prog};
    return st[0];
}

// ---- perturbations
inline Val perturb(const Val &a, int dir) {  // directional derivative seed on top of a.v
    Val o = a;
    for (auto &e : o.x) e.d = 0;
    auto crossCol = [&](const D *e, int from, int stride, D *dst) {
        // dst column (from, stride) derivative = e x column
        D v[3] = {dst[from], dst[from + stride], dst[from + 2 * stride]};
        D r[3];
        for (auto &q : v) q.d = 0;
        cross(e, v, r);
        for (int i = 0; i < 3; ++i) dst[from + i * stride].d = r[i].v;
    };
    if (a.k == Rot || (a.k == RT && dir < 3)) {
        D e[3];
        e[dir].v = 1;
        for (int j = 0; j < 3; ++j) crossCol(e, j, 3, o.x);
        if (a.k == RT) crossCol(e, 9, 1, o.x);
    } else if (a.k == RT) {
        o.x[9 + dir - 3].d = 1;
    } else {
        o.x[dir].d = 1;
    }
    return o;
}
/** Tangent of an output value along the current direction. */
inline void tangent(const Val &a, double *o) {
    if (a.k == Rot || a.k == RT) {
        double S[9];  // dR R^T
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j) {
                double s = 0;
                for (int k = 0; k < 3; ++k) s += a.x[3 * i + k].d * a.x[3 * j + k].v;
                S[3 * i + j] = s;
            }
        o[0] = (S[7] - S[5]) / 2;
        o[1] = (S[2] - S[6]) / 2;
        o[2] = (S[3] - S[1]) / 2;
        if (a.k == RT) {
            const D *t = a.x + 9;
            o[3] = t[0].d - (o[1] * t[2].v - o[2] * t[1].v);
            o[4] = t[1].d - (o[2] * t[0].v - o[0] * t[2].v);
            o[5] = t[2].d - (o[0] * t[1].v - o[1] * t[0].v);
        }
    } else {
        for (int i = 0; i < numOf(a.k); ++i) o[i] = a.x[i].d;
    }
}
}  // namespace model
