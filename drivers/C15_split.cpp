// C15: the pair energy split.
//@ sources: Physics/Processes/NonLinearBreitWheeler.cpp Particles/Particle.cpp Particles/Lepton.cpp Particles/Photon.cpp Particles/ParticleList.cpp Tools/Numerics.cpp
//@ flags: -fno-access-control
//@ contract: MCTools::RandDouble -- a value in [low, high) per draw (C04)
//@ contract: Numerics::Interpolate1D, Numerics::ClosestPoints -- functions of table and query; the bracketing rows (C02)
//@ contract: EMField::GetField -- any function of time and position (the fields' own contracts are C06-C08)
#include "pair_helpers.h"
