#pragma once
// an arbitrary field: every component any function of time and position
#include "EMField.hh"
struct AnyField : public EMField
{
    static void at(double t, const ThreeVector &x, ThreeVector &e, ThreeVector &b)
    {
        e = ThreeVector(qv_fun4("Ex", t, x[0], x[1], x[2]), qv_fun4("Ey", t, x[0], x[1], x[2]), qv_fun4("Ez", t, x[0], x[1], x[2]));
        b = ThreeVector(qv_fun4("Bx", t, x[0], x[1], x[2]), qv_fun4("By", t, x[0], x[1], x[2]), qv_fun4("Bz", t, x[0], x[1], x[2]));
    }
    void GetField(double t, const ThreeVector &x, ThreeVector &e, ThreeVector &b) const override { at(t, x, e, b); }
};
