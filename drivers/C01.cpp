// C01: vector and matrix algebra.
//@ sources:
#include "qv.h"
#include "ThreeVector.hh"
#include "ThreeMatrix.hh"

static ThreeVector vec(const char *n) { return ThreeVector(qv_real(n, 1), qv_real(n, 2), qv_real(n, 3)); }
static ThreeMatrix mat(const char *n)
{
    ThreeMatrix m;
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) m[i][j] = qv_real(n, 1 + i, 1 + j);
    return m;
}
static void unchanged(const ThreeVector &v, const char *n)
{
    const ThreeVector &c = v;
    for (int i = 0; i < 3; i++) qv_eq(c[i], qv_real(n, 1 + i), "vector operand is left unchanged");
}
static void unchanged(const ThreeMatrix &m, const char *n)
{
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) qv_eq(m[i][j], qv_real(n, 1 + i, 1 + j), "matrix operand is left unchanged");
}

QV_CASE(construction)
{
    ThreeVector z;
    for (int i = 0; i < 3; i++) qv_eq(z[i], 0, "a new vector is zero");
    ThreeVector a = vec("a");
    unchanged(a, "a");
    ThreeVector c(a);
    unchanged(c, "a");
    ThreeVector d;
    ThreeVector &r = (d = a);
    unchanged(d, "a");
    qv_check(&r == &d, "assignment returns its target");
    d = *&d;
    unchanged(d, "a");
    c[1] = 5;
    qv_eq(a[1], qv_real("a", 2), "a copy is independent");
    qv_eq(c[1], 5, "element assignment");
    ThreeMatrix m;
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) qv_eq(m[i][j], 0, "a new matrix is zero");
    ThreeMatrix n = mat("m");
    ThreeMatrix o(n);
    o[2][1] = 7;
    unchanged(n, "m");
    n.Zeros();
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) qv_eq(n[i][j], 0, "Zeros clears every element");
    n.Ideneity();
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) qv_eq(n[i][j], i == j, "identity matrix");
}

QV_CASE(elementwise)
{
    ThreeVector a = vec("a"), b = vec("b");
    const ThreeVector &ca = a, &cb = b;
    double s = qv_real("s");
    ThreeVector v1 = a + b, v2 = a - b, v3 = a * b, v5 = s + a, v6 = a + s, v7 = s - a, v8 = a - s, v9 = s * a, v10 = a * s;
    for (int i = 0; i < 3; i++)
    {
        double x = ca[i], y = cb[i];
        qv_eq(v1[i], x + y, "vector + vector");
        qv_eq(v2[i], x - y, "vector - vector");
        qv_eq(v3[i], x * y, "vector * vector");
        qv_eq(v5[i], s + x, "scalar + vector");
        qv_eq(v6[i], x + s, "vector + scalar");
        qv_eq(v7[i], s - x, "scalar - vector");
        qv_eq(v8[i], x - s, "vector - scalar");
        qv_eq(v9[i], s * x, "scalar * vector");
        qv_eq(v10[i], x * s, "vector * scalar");
    }
    unchanged(a, "a");
    unchanged(b, "b");
}

QV_CASE(division)
{
    ThreeVector a = vec("a"), b = vec("b");
    double s = qv_real("s");
    for (int i = 0; i < 3; i++) qv_assume(qv_real("b", 1 + i) != 0 && s != 0);
    ThreeVector v1 = a / b, v2 = s / b, v3 = a / s;
    for (int i = 0; i < 3; i++)
    {
        qv_eq(v1[i] * qv_real("b", 1 + i), qv_real("a", 1 + i), "vector / vector");
        qv_eq(v2[i] * qv_real("b", 1 + i), s, "scalar / vector");
        qv_eq(v3[i] * s, qv_real("a", 1 + i), "vector / scalar");
    }
    unchanged(a, "a");
    unchanged(b, "b");
}

QV_CASE(products)
{
    ThreeVector a = vec("a"), b = vec("b");
    double d = a.Dot(b);
    ThreeVector c = a.Cross(b);
    double a1 = qv_real("a", 1), a2 = qv_real("a", 2), a3 = qv_real("a", 3), b1 = qv_real("b", 1), b2 = qv_real("b", 2), b3 = qv_real("b", 3);
    qv_eq(d, a1 * b1 + a2 * b2 + a3 * b3, "dot product");
    qv_eq(c[0], a2 * b3 - a3 * b2, "cross product x");
    qv_eq(c[1], a3 * b1 - a1 * b3, "cross product y");
    qv_eq(c[2], a1 * b2 - a2 * b1, "cross product z");
    qv_eq(a.Mag2(), a1 * a1 + a2 * a2 + a3 * a3, "squared magnitude");
    double m = a.Mag();
    qv_eq(m * m, a1 * a1 + a2 * a2 + a3 * a3, "magnitude squares to the squared magnitude");
    qv_check(m >= 0, "magnitude is not negative");
    unchanged(a, "a");
    unchanged(b, "b");
}

QV_CASE(norm)
{
    ThreeVector a = vec("a");
    double a1 = qv_real("a", 1), a2 = qv_real("a", 2), a3 = qv_real("a", 3);
    qv_assume(a1 * a1 + a2 * a2 + a3 * a3 > 0);
    ThreeVector n = a.Norm();
    double m = std::sqrt(a1 * a1 + a2 * a2 + a3 * a3);
    qv_eq(n[0] * m, a1, "norm x");
    qv_eq(n[1] * m, a2, "norm y");
    qv_eq(n[2] * m, a3, "norm z");
    qv_eq(n.Mag2(), 1, "norm has unit length");
    unchanged(a, "a");
}

QV_CASE(direction)
{
    ThreeVector a = vec("a"), b = vec("b");
    double d[3], q = 0;
    for (int i = 0; i < 3; i++) { d[i] = qv_real("b", 1 + i) - qv_real("a", 1 + i); q += d[i] * d[i]; }
    qv_assume(q > 0);
    ThreeVector n = a.Direction(b);
    for (int i = 0; i < 3; i++) qv_eq(n[i] * std::sqrt(q), d[i], "direction to a point is the unit separation");
    unchanged(a, "a");
    unchanged(b, "b");
}

QV_CASE(matrix)
{
    ThreeMatrix a = mat("a"), b = mat("b");
    const ThreeMatrix &ca = a, &cb = b;
    double s = qv_real("s");
    ThreeVector v = vec("v");
    ThreeMatrix sum = a + b, prod = a * b, scaled = a * s;
    ThreeVector mv = a * v;
    for (int i = 0; i < 3; i++)
    {
        double r = 0;
        for (int j = 0; j < 3; j++)
        {
            qv_eq(sum[i][j], ca[i][j] + cb[i][j], "matrix sum");
            qv_eq(scaled[i][j], ca[i][j] * s, "matrix scaling");
            double p = 0;
            for (int k = 0; k < 3; k++) p += ca[i][k] * cb[k][j];
            qv_eq(prod[i][j], p, "matrix product");
            r += ca[i][j] * qv_real("v", 1 + j);
        }
        qv_eq(mv[i], r, "matrix-vector product");
    }
    unchanged(a, "a");
    unchanged(b, "b");
    unchanged(v, "v");
}

QV_CASE(determinant)
{
    ThreeMatrix a = mat("a");
    double d = 0;
    for (int i = 0; i < 3; i++) d += a[0][i] * (a[1][(i + 1) % 3] * a[2][(i + 2) % 3] - a[1][(i + 2) % 3] * a[2][(i + 1) % 3]);
    qv_eq(a.Determinant(), d, "determinant");
    unchanged(a, "a");
}

QV_CASE(inverse)
{
    ThreeMatrix a = mat("a");
    double d = 0;
    for (int i = 0; i < 3; i++) d += a[0][i] * (a[1][(i + 1) % 3] * a[2][(i + 2) % 3] - a[1][(i + 2) % 3] * a[2][(i + 1) % 3]);
    qv_assume(d > 1e-3 || d < -1e-3);
    ThreeMatrix inv = a.Inverse();
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
        {
            double l = 0, r = 0;
            for (int k = 0; k < 3; k++) { l += a[i][k] * inv[k][j]; r += inv[i][k] * a[k][j]; }
            qv_eq(l, i == j, "matrix times inverse is the identity");
            qv_eq(r, i == j, "inverse times matrix is the identity");
        }
    unchanged(a, "a");
}

static void proper(ThreeMatrix &r)
{
    for (int i = 0; i < 3; i++)
        for (int j = 0; j <= i; j++)
        {
            double s = 0;
            for (int k = 0; k < 3; k++) s += r[k][i] * r[k][j];
            qv_eq(s, i == j, "rotation is orthonormal");
        }
    double d = 0;
    for (int i = 0; i < 3; i++) d += r[0][i] * (r[1][(i + 1) % 3] * r[2][(i + 2) % 3] - r[1][(i + 2) % 3] * r[2][(i + 1) % 3]);
    qv_eq(d, 1, "rotation has determinant one");
}

static void rotation(ThreeVector a, ThreeVector b)
{
    double aa = a.Dot(a), bb = b.Dot(b), ab = a.Dot(b);
    qv_assume(aa > 0 && bb > 0);
    // not (nearly) antiparallel
    double na = std::sqrt(aa), nb = std::sqrt(bb);
    qv_assume((a.Norm() + b.Norm()).Mag2() > QV_SYM(1e-10, 2e-5));
    ThreeMatrix r = a.RotateToAxis(b);
    proper(r);
    ThreeVector image = r * a;
    for (int i = 0; i < 3; i++) qv_eq(image[i] / na, b[i] / nb, "rotation carries the first direction onto the second");
}

QV_CASE(rotation)
{
    ThreeVector a = vec("a"), b = vec("b");
    rotation(a, b);
    unchanged(a, "a");
    unchanged(b, "b");
}

QV_PROBE(rotation_near_antiparallel)
{
    ThreeVector a = vec("a"), e(qv_range("e", -.01, .01, 1), qv_range("e", -.01, .01, 2), qv_range("e", -.01, .01, 3));
    rotation(a, a * -1.0 + e * a.Mag());
}

QV_CASE(rotation_antiparallel)
{
    ThreeVector b = vec("b");
    double s = qv_pos("s");
    qv_assume(b.Dot(b) > 0);
    ThreeVector a = b * (-s);
    ThreeMatrix r = a.RotateToAxis(b);
    proper(r);
    ThreeVector image = r * a;
    for (int i = 0; i < 3; i++) qv_eq(image[i], s * b[i], "half turn carries an antiparallel vector onto the axis");
    unchanged(b, "b");
}
