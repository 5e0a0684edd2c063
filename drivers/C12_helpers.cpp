// C12: the photon emission helpers, proved against their definitions.
//@ sources: Physics/Processes/PhotonEmission.cpp Physics/Processes/StochasticEmission.cpp Particles/Particle.cpp Particles/Lepton.cpp Particles/Photon.cpp Particles/ParticleList.cpp Tools/Numerics.cpp
//@ contract: MCTools::RandDouble -- a value in [low, high) per draw (C04)
//@ contract: Numerics::Interpolate1D, Numerics::ClosestPoints -- functions of table and query; the bracketing rows (C02)
//@ contract: EMField::GetField -- any function of time and position (the fields' own contracts are C06-C08)
#include "photon_helpers.h"
