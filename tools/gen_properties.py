#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
NOTEST = "The test programs only check that code compiles, links and exits 0; none compares a number. "

prop("C01", "Vector and matrix algebra obeys its mathematical definitions",
 "For all real vectors, scalars and 3x3 matrices the vector type's element-wise operators, dot, cross, magnitude, normalisation and direction-to-a-point, and the matrix type's sum, product, scaling, determinant, inverse and matrix-vector product give exactly the textbook result and leave their operands unchanged. For every pair of non-zero, not (nearly) antiparallel vectors the rotation built from them is a proper rotation (orthonormal, determinant one) that carries the first direction onto the second; for a vector antiparallel to a coordinate z axis it still is a proper rotation onto that axis.",
 ["inputs"], "all vectors, scalars and matrices (rotation: all non-zero pairs)",
 NOTEST + "A sign or index slip in one component shows only for inputs off the axes, and the claim is for all of R^3.",
 ["Source/Tools/ThreeVector.hh", "Source/Tools/ThreeMatrix.hh"],
 [("component-wise formulas", "ThreeVector.hh, ThreeMatrix.hh"), ("Rodrigues rotation", "ThreeVector::RotateToAxis")],
 ["return values of ThreeVector/ThreeMatrix members and operators"])

prop("C02", "Table lookups interpolate, bracket and pick the nearest sample correctly",
 "For every strictly increasing table and every query, the one-dimensional lookup returns the value of the straight line through the two samples that bracket the query (the sample itself at a sample point, both ends included) and, outside the table, the line through the two outermost samples on that side. The nearest-sample lookup returns an index of a sample at minimal distance, and the bracketing lookup returns the lower index and fractional position of the query or, beyond the supported range, refuses with an error exit. No lookup reads outside the table.",
 ["inputs"], "all tables of at least two (bracketing: three) increasing samples, all queries",
 NOTEST + "Tables of any length and queries exactly on samples or ends are infinitely many; the shipped run touches a few interior points.",
 ["Source/Tools/Numerics.cpp"],
 [("linear search and interpolation", "Numerics::Interpolate1D"), ("nearest index", "Numerics::ArrayIndex"), ("bracketing", "Numerics::ClosestPoints")],
 ["return values and out-parameters"])

prop("C03", "Numerical quadrature is the composite Simpson rule",
 "For every evenly spaced axis with an odd number (three or more) of samples, the integration routine returns exactly spacing/3 times the 1,4,2,...,4,1 weighted sum of the samples, so it is linear in the samples, exact for polynomials up to degree three, and reads each sample exactly once.",
 ["inputs"], "all odd sample counts and all sample values",
 NOTEST + "The routine is not run by any test at all; its loop bounds must be right for every length.",
 ["Source/Tools/Numerics.cpp"], [("weighted sum", "Numerics::SimpsonsRule")], ["return value"])

prop("C04", "Random sampling honours its requested distribution, length and seed",
 "Uniform, normal and Poisson draws come from the one shared generator with exactly the requested parameters; vector samplers return exactly the requested number of successive draws; the discrete sampler returns index i precisely when a uniform draw on [0, total weight) falls in the i-th cumulative-weight interval. Setting a seed fixes every later draw.",
 ["inputs", "histories"], "all parameters, lengths, weight vectors and seeds",
 NOTEST + "Random output differs from run to run and is never examined; distribution of an index cannot be settled by sampling a handful.",
 ["Source/Tools/MCTools.cpp", "Source/Tools/MCTools.hh"],
 [("std distributions on a static mt19937", "MCTools.cpp"), ("inverse-CDF search", "MCTools::RandDiscrete")], ["return values of the sampling functions"])

prop("C05", "The unit system is dimensionally coherent",
 "In the SI unit system every reference value is positive and they form one coherent natural system: reference frequency times time is one, length is c times time, energy is c times momentum and equals the electron rest energy, the electric reference field is the Schwinger field and c times the magnetic one, and an elementary charge in the reference field for a reference time gains the reference momentum. The Geant conversion factors are 1 ns, 1 mm and 1 MeV expressed in those references, and any unknown system name is refused.",
 ["inputs", "configurations"], "all unit-system names and every derived constant",
 NOTEST + "All physics is computed in these units; an inconsistent factor shifts every result without failing anything.",
 ["Source/Tools/UnitsSystem.cpp", "Source/Tools/UnitsSystem.hh"],
 [("reference constants", "UnitsSystem::SetUnitsSI"), ("Geant factors", "UnitsSystem::SetG4Units")], ["UnitsSystem getters"])

prop("C06", "Static and plane-wave fields are what was configured",
 "A static field returns the configured electric and magnetic vectors everywhere and always. A plane wave of amplitude A, wavelength L and propagation direction n has, at every point and time, E and B perpendicular to n and to each other with equal magnitude A*|cos(2*pi*(x.n - t)/L)| and E x B along n, and the polarisation angle turns E and B rigidly about n; for any wave direction other than the reversed reference axis limit case.",
 ["inputs"], "all amplitudes, wavelengths, polarisation angles, directions, positions and times",
 NOTEST + "The only run with a plane wave uses one direction and zero polarisation angle and checks nothing.",
 ["Source/Physics/Fields/EMField/PlaneEMField.cpp", "Source/Physics/Fields/EMField/StaticEMField.cpp", "Source/Tools/ThreeVector.hh"],
 [("rotation to the wave frame", "PlaneEMField ctor"), ("wave formula", "PlaneEMField::GetField"), ("constant field", "StaticEMField::GetField")], ["EMField::GetField out-parameters"])

prop("C07", "The Gaussian pulse is a transverse beam focused where configured",
 "At every point and time the Gaussian pulse has E and B perpendicular to the start-to-focus direction n and to each other, of equal magnitude, with E x B along n and the polarisation angle turning both rigidly about n. Its magnitude is the peak field times the beam factor w0/w(z)*exp(-r^2/w(z)^2), the temporal envelope exp(-((t - t0 - z)/tau)^2) and a carrier cosine whose phase advances with k(z - t), where z and r are measured from the focus along n and t0 is the start-to-focus distance; hence it never exceeds the configured peak.",
 ["inputs"], "all pulse parameters, geometries, positions and times",
 NOTEST + "The example runs use focus at the origin, beam along z and zero polarisation angle and check nothing.",
 ["Source/Physics/Fields/EMField/GaussianEMField.cpp", "Source/Tools/ThreeVector.hh"],
 [("rotation to the beam frame", "GaussianEMField ctor"), ("paraxial formula", "GaussianEMField::GetField")], ["EMField::GetField out-parameters"])

prop("C08", "The tightly focused pulse follows the published beam expansion",
 "In the beam frame (z along start-to-focus, origin at the focus) the focused pulse's field components equal the fourth-order Salamin expansion in the diffraction angle times peak field, exp(-r^2/w^2) and the temporal envelope, with the carrier phase advancing with k(t - z). The polarisation angle rotates E and B rigidly about the beam axis, the result is rotated back to the laboratory frame as one rigid rotation, and where the local envelope is below the cut-off both fields are exactly zero.",
 ["inputs"], "all pulse parameters, geometries, positions and times",
 NOTEST + "No test or example ever constructs this field.",
 ["Source/Physics/Fields/EMField/FocusingField.cpp"],
 [("expansion coefficients S_n, C_n", "FocusingField::GetField"), ("beam frame", "FocusingField ctor")], ["EMField::GetField out-parameters"])

prop("C09", "Particles keep a consistent kinematic state and history",
 "A particle's gamma, speed, energy and direction are always the relativistic functions of its current momentum and mass (photons: energy is momentum magnitude and speed is one); a particle created with an energy and direction has that energy and that direction; its charge decides its name. Creating or re-initialising a particle gives a non-negative optical depth -ln(1-u) from one uniform draw. Updating the track sets position and momentum and, only if tracking is on, appends exactly one entry with the same position, momentum, time and gamma to each of the four histories; nothing else changes.",
 ["inputs", "histories"], "all masses, charges, momenta, energies, tracking flags and update sequences",
 NOTEST + "Only two energies are ever constructed by the runs, and the values are not looked at.",
 ["Source/Particles/Particle.cpp", "Source/Particles/Particle.hh", "Source/Particles/Lepton.cpp", "Source/Particles/Photon.cpp"],
 [("kinematic getters", "Lepton.cpp, Photon.cpp"), ("track append", "Particle::UpdateTrack")], ["Particle getters"])

prop("C10", "One push advances a particle by one correct time step",
 "One push of a live photon moves it by dt along its unchanged momentum direction at speed one. One push of a live charged particle is the classical fourth-order Runge-Kutta step of dx/dt = p/(m*gamma), dp/dt = force(p, E, B) with the field evaluated at the four stage times and positions, the plain pusher's force being charge*(E + v x B), so a magnetic field alone does no work. Time advances by exactly dt, a tracked particle gets one history entry stamped with the time it has been moved to, a dead particle and all other attributes are untouched, and pushing a list pushes each of its particles exactly once in order.",
 ["inputs", "histories"], "all particles, fields and step sizes",
 NOTEST + "The pusher test body is commented out; a wrong Runge-Kutta weight or stage time is only a loss of accuracy order.",
 ["Source/Physics/ParticlePushers/ParticlePusher.cpp", "Source/Physics/ParticlePushers/LorentzPusher.cpp"],
 [("RK4 stages", "ParticlePusher::PushParticle"), ("Lorentz force", "LorentzPusher::PushMomentum")], ["particle state after PushParticle"])

prop("C11", "Radiation reaction is the Landau drag, and never accelerates",
 "For every lepton momentum and field, the classical and semiclassical pushers' force is the Lorentz force plus a drag exactly opposite to the momentum of size (2/3)*alpha*eta^2, in the semiclassical case times the Gaunt factor (1 + 4.8(1+eta)ln(1+1.7eta) + 2.44eta^2)^(-2/3), where eta is gamma times the rest-frame field strength seen by the particle. The drag is independent of the charge's sign, vanishes without field, is never along the momentum, and the Gaunt factor stays in (0, 1].",
 ["inputs"], "all momenta, charges and fields",
 NOTEST + "One configuration is run and its momenta are not compared with anything.",
 ["Source/Physics/ParticlePushers/LandauPusher.cpp", "Source/Physics/ParticlePushers/ModifiedLandauPusher.cpp"],
 [("drag term", "LandauPusher::PushMomentum, ModifiedLandauPusher::PushMomentum"), ("Gaunt factor", "ModifiedLandauPusher::gaunt")], ["momentum change of a push"])

prop("C12", "Stochastic photon emission is probabilistically and kinematically exact",
 "For every live lepton, one stochastic-emission step lowers its optical depth by dt times the tabulated rate at its local eta, and an emission happens exactly when the depth falls below zero. An emission removes exactly the emitted photon's momentum from the lepton, re-draws its optical depth, and adds at most one photon, added exactly when its energy exceeds the threshold and a uniform draw falls below the sampling fraction, with weight parent/fraction, the parent's position, time and direction. Photons, dead particles and every other attribute are untouched.",
 ["inputs", "histories"], "all leptons, fields, tables, thresholds, sampling fractions and draws",
 NOTEST + "The stochastic model is not run by any test; its outcome is random.",
 ["Source/Physics/Processes/StochasticEmission.cpp", "Source/Physics/Processes/PhotonEmission.cpp"],
 [("optical depth", "StochasticEmission::Interact"), ("eta", "PhotonEmission::CalculateEta")], ["particle and particle list after Interact"])

prop("C13", "Continuous photon emission conserves expected yield and leaves leptons alone",
 "One continuous-emission step never changes the radiating lepton. For every live lepton, with probability equal to the sampling fraction it adds one photon if the sampled energy exceeds the threshold, with weight parent weight times emission probability in the step divided by the sampling fraction, the parent's position, time and direction, and energy 2*chi*gamma/eta for the sampled chi; otherwise it adds nothing. Photons and dead particles do nothing, and the probability uses the tabulated rate (the classical limit constant for the classical model or vanishing eta).",
 ["inputs", "histories"], "all leptons, fields, tables, thresholds, sampling fractions and draws",
 NOTEST + "The example only plots photons; a weight wrong by a constant passes.",
 ["Source/Physics/Processes/ContinuousEmission.cpp", "Source/Physics/Processes/PhotonEmission.cpp"],
 [("weighting", "ContinuousEmission::Interact"), ("eta", "PhotonEmission::CalculateEta")], ["particle and particle list after Interact"])

prop("C14", "Pair production converts one photon into a pair conserving energy",
 "For every live photon, one pair-production step lowers its optical depth by dt*alpha*chi*T(chi)/energy at its local chi, and leaves it finite and unchanged where there is no field or its energy is below the pair threshold. Exactly when the depth falls below zero the photon dies and one positron and one electron are added whose energies are split and one-minus-split (within the limits where each has its rest energy) of the photon's energy, moving along the photon's direction, with its weight, position and time; leptons and dead photons are untouched.",
 ["inputs", "histories"], "all photons, fields, tables and draws",
 NOTEST + "The one test calls it once, checks nothing, and almost never converts.",
 ["Source/Physics/Processes/NonLinearBreitWheeler.cpp"],
 [("optical depth and conversion", "NonLinearBreitWheeler::Interact"), ("chi", "NonLinearBreitWheeler::CalculateChi"), ("split", "NonLinearBreitWheeler::CalculateSplit")], ["particle and particle list after Interact"])

prop("C15", "Sampling tables are loaded faithfully and sampled between neighbours",
 "Loading fills each table axis and entry from the corresponding file position in order, with evenly spaced logarithmic axes running from the stated minimum to the stated maximum (photon chi: from the tabulated minimum up to half of eta). Sampling a photon chi or a pair energy split blends the two neighbouring rows at the same uniform draw with the query's fractional position, and with the shipped tables a sampled photon chi never exceeds half of eta for eta inside the table, so a photon never carries more energy than its emitter. Missing table files are refused.",
 ["inputs", "configurations"], "all table contents of consistent shape, all draws; shipped tables exhaustively",
 NOTEST + "Tests only load the tables; no loaded or sampled value is compared.",
 ["Source/Physics/Processes/PhotonEmission.cpp", "Source/Physics/Processes/NonLinearBreitWheeler.cpp", "Tables"],
 [("loading", "PhotonEmission::LoadTables, NonLinearBreitWheeler::LoadTables"), ("sampling", "PhotonEmission::CalculateChi, NonLinearBreitWheeler::CalculateSplit")], ["emitted photon energy, pair energies"])

prop("C16", "A particle source emits each configured primary once, in the right place",
 "The k-th event of a source is one particle of the configured type with weight one and time zero, using the k-th pre-drawn offsets, angles and energy, so every primary is emitted exactly once and asking for more than configured is refused. Its position is the configured centre plus transverse offsets of the configured radius and a longitudinal offset of the configured duration in the beam frame, and its direction is the configured beam direction tilted by the drawn polar angle; with zero divergence and size it starts at the centre exactly along the configured direction.",
 ["inputs", "histories"], "all source parameters, beam directions, draws and call sequences",
 NOTEST + "The examples only use beams along z with zero divergence, for which wrong rotations are invisible.",
 ["Source/Particles/SourceGenerator.cpp"],
 [("pre-drawn samples", "SourceGenerator ctor"), ("rotation to beam frame", "SourceGenerator::GenerateList")], ["particles of the generated lists"])

prop("C17", "A particle list keeps every particle once, in order, within capacity",
 "A list starts empty; adding a particle appends it, keeps all earlier particles and their order, and raises the count by one, until capacity, beyond which adding changes nothing and reports an error instead of writing out of bounds. Destroying the list destroys each held particle exactly once, and the base class of each particle family destroys the full object.",
 ["inputs", "histories"], "all capacities and add sequences",
 NOTEST + "No run comes near capacity, and ownership errors are silent.",
 ["Source/Particles/ParticleList.cpp", "Source/Particles/ParticleList.hh"],
 [("bounded append", "ParticleList::AddParticle"), ("ownership", "ParticleList::~ParticleList")], ["GetNPart, GetParticle"])

prop("C18", "Typed configuration lookups return the stored value or the default",
 "Section and option names are matched ignoring case. Each typed lookup (string, integer, real, boolean, three-vector) returns the parsed stored value when the option is present and well formed and the caller's default when it is absent, empty or not parseable; booleans accept exactly true/yes/on/1 and false/no/off/0 in any case; a three-vector of three numbers separated by blanks and/or commas, in brackets, returns those numbers in order and more than three numbers are refused. Repeated options accumulate as lines, and every section name is listed once in order of first appearance.",
 ["inputs"], "all stored option values, names and defaults",
 NOTEST + "One input file is parsed and no parsed value is checked.",
 ["Source/IO/Input/INIReader.cpp", "Source/IO/Input/INIReader.hh"],
 [("typed getters", "INIReader.cpp"), ("key normalisation", "INIReader::MakeKey")], ["INIReader getters"])

prop("C19", "Every configuration option reaches its parameter in code units",
 "Each physical option of the input deck reaches exactly the simulation parameter it names, divided by the reference value of its dimension (time, length, energy, electric or magnetic field) and by nothing else, with the documented default when absent; dimensionless options are passed unchanged. Particle and histogram sections are read from number one up to the first missing number, in order, and a deck without general section, time step, end time or units, or with an unknown field type, is refused.",
 ["inputs", "configurations"], "all input decks",
 NOTEST + "A parameter read from the wrong option or scaled by the wrong unit still parses.",
 ["Source/IO/Input/FileParser.cpp", "Source/IO/Input/FileParser.hh"],
 [("section readers", "FileParser::Read*"), ("mandatory options", "FileParser::CheckVitals")], ["FileParser getters"])

prop("C20", "The input text parser follows the INI grammar within its buffers",
 "For every input line the parser never touches memory outside the line buffer and its fixed section and name buffers, which always stay terminated. Blank and comment lines are ignored, a bracketed line sets the section, a name=value or name:value line reports that section, the trimmed name and the trimmed value with any inline comment removed, an indented line continues the previous value, and the first malformed line's number is returned.",
 ["inputs"], "all byte sequences",
 NOTEST + "One well-formed 59-line file is parsed.",
 ["Source/IO/Input/ini.cpp", "Source/IO/Input/ini.hh"],
 [("line scanner", "ini_parse_stream"), ("bounded copy", "strncpy0"), ("trimming", "rstrip, lskip"), ("delimiter search", "find_chars_or_comment")], ["handler calls and return value of ini_parse_string"])

prop("C21", "Histograms count each particle once, in the nearest bin, by the right quantity",
 "A histogram has evenly spaced bin centres from minimum to maximum and starts empty. Recording a particle raises by exactly one the bin whose centre is nearest to the particle's configured quantity (energy, position or momentum component) when that lies strictly inside the first and last centres, and changes no bin otherwise; unknown quantities are refused. Merging a compatible histogram adds bin by bin and leaves incompatible ones unmerged, and filling from a list records every particle and then normalises the bins to unit sum.",
 ["inputs", "histories"], "all bin layouts, quantities, particles and call sequences",
 NOTEST + "The example fills one energy histogram and does not look at it.",
 ["Source/IO/Output/Histogram.cpp", "Source/Tools/Numerics.cpp"],
 [("bin layout", "Histogram::Initialise"), ("binning", "Histogram::AppParticle, Histogram::Fill"), ("merge", "Histogram::Merge")], ["GetBinCentres, GetBinValues"])

prop("C22", "Event tables hold exactly one correct row per particle",
 "For every event stored, the primary table's row is event number, energy, momentum and position of the event's first particle, and the electron, positron and photon tables get exactly one such row for each particle of that kind in the event, in list order. Writing the tables concatenates the events in event order without losing, duplicating or mixing rows, writes a kind's table only if it has rows, and never writes outside its buffers.",
 ["inputs", "histories"], "all event counts, particle mixes and particle states",
 NOTEST + "The run that would write these tables aborts in the unmodified tree, so no test covers them.",
 ["Source/IO/Output/OutputManager.cpp"],
 [("collection", "OutputManager::StoreSource"), ("flattening", "OutputManager::OutputEvents")], ["data sets handed to the HDF5 layer"])

prop("C23", "Particle tracks are written completely and in the chosen units",
 "Writing a tracked particle, list of tracks or collected event tracks emits, for each particle, the full position, momentum, time and gamma histories in order, with position, momentum and time multiplied by the unit system's references (or one without a unit system) and gamma never scaled. Property lists hold index, energy and position of each particle in order, and requesting a track of an untracked particle is refused.",
 ["inputs", "histories"], "all histories, lists and unit systems",
 NOTEST + "No test enables tracking.",
 ["Source/IO/Output/OutputManager.cpp"],
 [("track writers", "OutputManager::SingleParticle, ListTracks, StoreTrack, OutputEvents"), ("property list", "OutputManager::ListProperties")], ["data sets handed to the HDF5 layer"])

prop("C24", "The output file layer creates missing groups once and writes exact arrays",
 "Asking for a group creates it exactly when the file does not have it yet and otherwise leaves the file alone, any number of times and in any order, without using or freeing a stale handle. Writing an array creates a data set of the given name and exactly the given dimensions in double precision and writes the caller's buffer to it. Opening truncates a new file or, in append mode, opens the existing one.",
 ["inputs", "histories"], "all group names, call sequences and array shapes",
 NOTEST + "The only program that reaches this layer aborts in the unmodified tree because no group is ever created.",
 ["Source/IO/Output/HDF5Output.cpp", "Source/IO/Output/HDF5Output.hh"],
 [("existence test and creation", "HDF5Output::AddGroup"), ("array writers", "HDF5Output::AddArray1D/2D/3D")], ["calls on the HDF5 library"])

prop("C25", "Field snapshots sample the field on the requested grid",
 "Exporting a field writes, for each requested time, six three-dimensional data sets (three electric, three magnetic components) whose entry (i, j, k) is that component at exactly that time and the grid point (x_i, y_j, z_k), stored x-major, for every grid size, without reading or writing outside the buffers.",
 ["inputs"], "all fields, times and grid sizes",
 NOTEST + "No test exports a field.",
 ["Source/IO/Output/OutputManager.cpp"], [("grid sampling", "OutputManager::OutEMField")], ["data sets handed to the HDF5 layer"])

prop("C26", "The simulation program runs the configured model over every event and step",
 "For every valid deck the program builds exactly the field, pusher and emission process the deck names with the deck's parameters (pair production only if requested), and for every source simulates every event: each particle present, including secondaries created meanwhile, is pushed once and then offered to every process in order, in every step until the end time. Each histogram receives, once per event and at the first step at or after its time (or at the end), each particle of its kind; unknown physics or field types are refused.",
 ["configurations", "histories"], "all decks, particle counts and step counts",
 NOTEST + "The one run of the program aborts in the unmodified tree.",
 ["Source/Exec/QEDCASC.cpp"], [("set-up and main loop", "main")], ["calls on fields, pushers, processes, histograms and output"])

prop("C27", "Python set-up stores every setting in code units and validates it",
 "Each set-up call of the Python module stores exactly the given settings converted to code units (time, length, energy and field references) and affects no other setting. Unknown field types or physics models and sampling fractions outside [0, 1] are rejected with the previous sampling fraction kept and the simulation marked not ready; every accepted spelling of a model runs that model.",
 ["inputs", "histories"], "all arguments and call sequences",
 NOTEST + "The example makes one call of each kind and does not read settings back.",
 ["Source/Python/RunManager.cpp"], [("setters", "RunManager::set*")], ["behaviour of beamOn after set-up"])

prop("C28", "Python runs simulate every event and return every particle in SI units",
 "A run builds the field, pusher, processes and source from the stored settings, simulates the requested number of events (each particle pushed once and offered to every process in every step until the end time), and returns one row per initial particle and one row per final electron, positron and photon with momentum and position in SI units and the weight. A run without complete set-up is refused and, like any sequence of runs and set-up calls, leaves the manager safe to use and destroy.",
 ["inputs", "histories"], "all settings, event counts and call sequences (sequential execution)",
 NOTEST + "The example runs once and only plots.",
 ["Source/Python/RunManager.cpp"], [("run loop", "RunManager::beamOn"), ("result arrays", "RunManager::get*")], ["returned arrays"])

prop("C29", "Parallel output gathers every process's rows exactly once",
 "When run on several processes, the master writes the primary, electron, positron and photon tables as the concatenation of its own rows and then each other process's rows in rank order, complete and unmixed, and each histogram as the sum over all processes; every message a process sends is received by the master with matching size, type and tag.",
 ["inputs", "schedules", "configurations"], "all process counts, event counts and particle mixes",
 "The MPI build is compiled but never run by any test.",
 ["Source/IO/Output/OutputManager.cpp"], [("gather", "OutputManager::OutputEventsMPI, OutputManager::OutputHistMPI")], ["MPI calls and data sets handed to the HDF5 layer"])

prop("C30", "Multi-threaded runs give the same guarantees as sequential ones",
 "With several threads every primary is simulated exactly once, random draws stay independent, and no shared counter, generator, histogram or output container is updated by two threads at once.",
 ["schedules"], "all thread counts and interleavings",
 "Races do not show reliably in runs.",
 ["Source/Exec/QEDCASC.cpp", "Source/Python/RunManager.cpp", "Source/Particles/SourceGenerator.cpp", "Source/Tools/MCTools.hh"],
 [("OpenMP parallel for over events", "QEDCASC.cpp, RunManager.cpp")], ["particle tables of multi-threaded runs"])

prop("C31", "Simulated spectra converge to the strong-field QED rates",
 "As the time step goes to zero and the number of events grows, photon and pair spectra converge to the locally-constant-field QED rates.",
 ["inputs", "configurations"], "all field and beam configurations, in the statistical limit",
 "A statistical limit statement over random histories; no finite test settles it.",
 ["Source/Physics/Processes", "Tables"], [("tabulated rates", "Tables")], ["output spectra"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P))
