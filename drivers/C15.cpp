// C15: the sampling tables.
//@ sources: Physics/Processes/PhotonEmission.cpp Physics/Processes/StochasticEmission.cpp Particles/Particle.cpp Particles/Lepton.cpp Particles/Photon.cpp Particles/ParticleList.cpp Tools/Numerics.cpp
//@ contract: MCTools::RandDouble -- a value in [low, high) per draw (C04)
//@ contract: Numerics::Interpolate1D, Numerics::ClosestPoints -- functions of table and query; the bracketing rows (C02)
#include "qv.h"
#include "wave.h"
#include "draws.h"
#include "field.h"
#include "tables.h"
#include "StochasticEmission.hh"

#include "photon_chi.h"
