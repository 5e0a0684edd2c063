#include "qv.h"
#include "wave.h"
#include "draws.h"
#include "field.h"
#include "tables.h"
#include "StochasticEmission.hh"
#include "emitter.h"
#include "photon_chi.h"

QV_CASE(eta)
{
    PhotonTables T;
    AnyField f;
    Open e(&f, 1);
    for (long k = 0; k < 2; k++)
    {
        Emitter s(k);
        Lepton l(s.m, s.q, s.x, s.p, s.w, s.t, s.track);
        double depth = l.GetOpticalDepth();
        long d = draws;
        double v = e.eta(&l);
        qv_check(v >= 0, "eta is not negative");
        qv_eq(v * v, sq(s.exact()), "eta is gamma times the field the particle sees");
        untouched(l, s, depth, s.m, s.q, true);
        qv_check(draws == d, "no draw for eta");
    }
}
