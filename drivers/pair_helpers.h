#include "qv.h"
#include "wave.h"
#include "draws.h"
#include "tables.h"
#include "pairs.h"
QV_CASE(pair_chi)
{
    PairTables T;
    AnyField f;
    NonLinearBreitWheeler b(&f, 1);
    for (long k = 0; k < 2; k++)
    {
        Quantum s(k);
        Photon g(s.x, s.p, s.w, s.t, s.track);
        double depth = g.GetOpticalDepth();
        long d = draws;
        double v = b.CalculateChi(&g);
        qv_check(v >= 0, "chi is not negative");
        qv_eq(v * v, s.exact() * s.exact(), "chi is half the energy times the field across the motion");
        s.kept(g, true);
        qv_check(g.GetOpticalDepth() == depth && draws == d, "no side effects of chi");
    }
}
QV_CASE(pair_split)
{
    PairTables T;
    AnyField f;
    NonLinearBreitWheeler b(&f, 1);
    for (long k = 0; k < 2; k++)
    {
        double chi = qv_range("chi", QV_SYM(1e-300, 1e-5), QV_SYM(1e300, 10), k);
        qv_assume(T.covers(chi));
        long d = draws;
        double s = b.CalculateSplit(chi);
        qv_check(draws == d + 1, "one uniform draw per split");
        qv_eq(s, T.sample(chi, draw(d)), "the split blends the two neighbouring rows at one draw");
    }
}
