#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so that the text stays reviewable)."""
import json, os
S = "Source/"
EX, OM, HI, SG, PL = S+"Exec/QEDCASC.cpp", S+"IO/Output/OutputManager.cpp", S+"IO/Output/Histogram.cpp", S+"Particles/SourceGenerator.cpp", S+"Particles/ParticleList.cpp"
H5, MC, PA, RM = S+"IO/Output/HDF5Output.cpp", S+"Tools/MCTools.cpp", S+"Particles/Particle.cpp", S+"Python/RunManager.cpp"
PE, CE, SE, BW = S+"Physics/Processes/PhotonEmission.cpp", S+"Physics/Processes/ContinuousEmission.cpp", S+"Physics/Processes/StochasticEmission.cpp", S+"Physics/Processes/NonLinearBreitWheeler.cpp"
INI, INR, FP, PP = S+"IO/Input/ini.cpp", S+"IO/Input/INIReader.cpp", S+"IO/Input/FileParser.cpp", S+"Physics/ParticlePushers/ParticlePusher.cpp"
MCH = S+"Tools/MCTools.hh"
props = []
def P(id, title, statement, over, otext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": otext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    props.append(d)

P("C01", "Every primary is simulated exactly once under any thread schedule",
  "A run simulates each primary particle of each requested source exactly once: with output requested, the table of initial particles holds exactly the sampled primaries, each one once, numbered from zero without gaps or repeats, whatever the number of threads and however they interleave. The number of events that are simulated is the number requested, and the run never ends early because a source seems exhausted.",
  ["schedules", "configurations"], "All interleavings of 1 to 8 event-loop threads, all source counts, sizes and distributions.",
  "The tests run no threads at all; a lost or repeated primary needs two threads between the read and the update of the source's counter.",
  [EX, SG, OM], [("event loop over sources", EX+": main"), ("hand-out of primaries", SG+": SourceGenerator::GenerateList"), ("store of initial state", OM+": OutputManager::StoreSource, OutputEvents")],
  ["Particles/ParticleSource/Primary in the output file"], [("m_partCount", "next primary to hand out", SG)])
P("C02", "Outcomes do not depend on the thread schedule and stay with their event",
  "The final state of every particle of an event is the function of that event's primary and of the random numbers the event draws that a single-threaded run computes, bit for bit, for every number of threads and interleaving; where particle motion is deterministic, of the primary alone. Every final particle carries the number of the event it belongs to, and no particle of one event appears in, or is missing because of, another; an event ends as it does when it is simulated alone.",
  ["schedules", "configurations"], "All interleavings of 1 to 8 threads; static, plane, pulsed and focused fields; all radiation models, with and without pair production.",
  "No test runs the event loop, and cross-talk between events needs a particular overlap of two threads inside an event.",
  [EX, OM, PP, CE, PE], [("per-event particle list", EX+": main"), ("per-event result slots", OM+": OutputManager::StoreSource"), ("shared, read-only fields, pushers and processes", PP+": ParticlePusher::PushParticle; "+PE)],
  ["Particles/ParticleSource/{Electrons,Positrons,Photons} in the output file"])
P("C03", "Histograms count each selected particle exactly once under concurrency",
  "Each histogram counts, over all events of all sources, every particle of the selected species that exists at its time exactly once, in the bin nearest to the requested quantity (energy, a position or a momentum component), and nothing else; values outside its range are left out, and histograms may be listed in any order and share a time. The counts are the same for every number of threads and every interleaving.",
  ["schedules", "configurations"], "All interleavings of 1 to 8 threads filling 1 to 4 histograms of any quantity, species and time.",
  "No test fills a histogram from the event loop; lost counts need two threads inside one bin update.",
  [EX, HI, S+"Tools/Numerics.cpp"], [("fill at the histogram's time, and of late histograms at the end", EX+": main"), ("bin selection and update", HI+": Histogram::AppParticle"), ("nearest bin", S+"Tools/Numerics.cpp: ArrayIndex")],
  ["Histograms/<name>/BinValues in the output file"], [("m_binValues", "shared bins", HI)])
P("C04", "Recorded tracks are complete, ordered and unmixed under concurrency",
  "With tracking on, the output holds one track for every particle of every event, its position, momentum, time and energy columns have the same length and belong to the same particle, and times increase by the time step. The set of tracks, for the same random numbers in every event, is that of a single-threaded run, for every number of threads and interleaving.",
  ["schedules", "configurations"], "All interleavings of 1 to 8 threads storing tracks of 1 to 12 events.",
  "No test stores tracks from threads; torn tracks need two threads inside the shared append.",
  [EX, OM, PA], [("append to the shared track store", OM+": OutputManager::StoreTrack"), ("recording of a step", PA+": Particle::UpdateTrack")],
  ["Particles/ParticleTrack/Event*/{Position,Momentum,Time,Gamma}"], [("m_positionTrack ...", "track store shared by all threads", OM)])
P("C05", "Concurrent events use independent random numbers",
  "No two events of a run, whichever threads or MPI processes simulate them, consume the same random numbers, and sharing the generators between threads never repeats, loses or corrupts a draw. Runs started with different machine entropy sample different primaries and outcomes.",
  ["schedules", "configurations"], "All interleavings of 2 to 8 threads and 1 to 4 MPI processes, all seeds of the entropy source.",
  "A repeated draw needs two threads inside one generator update, or two processes with the same seed; tests use neither.",
  [MC, MCH, EX], [("one generator per thread, seeded from the system's entropy", MCH), ("draws", MC+": RandDouble, SampleNorm, SampleUniform")],
  ["values drawn; emitted photon energies; primaries of each process"], [("generator", "random number generator state", MCH)])
P("C06", "Python results are complete and thread-count independent",
  "After a simulation through the Python interface the input array holds every requested primary exactly once, and the electron, positron and photon arrays hold exactly the particles alive at the end of all events. The arrays are, as sets of rows and for the same random numbers in every event, those of a one-thread run, for every thread count, interleaving and number of threads the runtime grants.",
  ["schedules", "configurations"], "All interleavings of 1 to 8 threads, fewer threads granted than asked for, 0 to 16 events.",
  "The example runs one fixed case and checks nothing about rows; losses need particular interleavings.",
  [RM, SG], [("per-thread result vectors, joined on request", RM+": RunManager::beamOn, getInput, getElectrons, getPositrons, getPhotons")],
  ["arrays returned by getInput, getElectrons, getPositrons, getPhotons"], [("m_*_P_X", "per-thread results", RM)])
P("C07", "Python sessions: results depend only on the current configuration",
  "In any sequence of configuration calls, refused calls and simulations on one session object, a simulation either is refused because time, field, physics or source is not (validly) set, or simulates exactly the configuration last accepted, with results equal to those of a fresh session. Refused calls, repeated simulations and memory allocations that fail while a simulation is set up never crash the interpreter, now or at a later call, and never leave results mixed from two simulations. Numbers of threads below one, negative numbers of events and time steps that are not positive are refused.",
  ["histories", "fault_sequences"], "All call histories up to about 25 calls, with allocation failures at any point of the set-up, then further calls.",
  "The one example makes each call once, in the right order.",
  [RM], [("rebuild of field, pusher, processes and source for each simulation", RM+": RunManager::beamOn"), ("validation flags", RM+": setField, setPhysics, setSampleFraction")],
  ["exceptions, arrays and survival of the Python process"], [("m_fieldSet, m_physSet, m_genSet", "what has been validly configured", RM)])
P("C08", "MPI output gathers every process's particles exactly once",
  "The output file of a parallel job holds, for every process, each of its primaries and each of its final particles exactly once and with unchanged values, whatever the number of processes and however messages are buffered, delayed and reordered across processes. No rows are lost, repeated, or taken from another table or process.",
  ["schedules", "configurations"], "1 to 5 processes, all message delays, buffering choices and cross-process orders, any (also zero) particle counts per process.",
  "The MPI build is compiled but never run by the tests.",
  [OM, EX], [("size and data messages to the master", OM+": OutputManager::OutputEventsMPI")],
  ["Particles/ParticleSource/* in the master's output file"])
P("C09", "MPI histograms are the sum over all processes",
  "Each histogram in the output of a parallel job is the bin-by-bin sum of the histograms of all processes, each process counted once and for the right histogram, for every number of processes and every message timing.",
  ["schedules", "configurations"], "1 to 5 processes, 1 to 4 histograms, all message delays and cross-process orders.",
  "The MPI build is never run by the tests; mixing two histograms needs a fast and a slow process.",
  [OM, EX], [("reduction and barrier", OM+": OutputManager::OutputHistMPI")],
  ["Histograms/<name>/{BinCentres,BinValues}"])
P("C10", "A parallel job always finishes",
  "A job of any number of processes finishes and exits with success, within a bounded number of steps once messages are delivered, whether the MPI library buffers sends or makes them wait, however late messages arrive and however slow any process is. No send is left without its receive and no process waits for one that has finished.",
  ["schedules", "fault_sequences"], "All buffering choices per message, delays, stalled processes; 1 to 5 processes; any output options and source counts.",
  "The MPI build is never run by the tests, and a deadlock may need unbuffered sends.",
  [OM, EX], [("matching of sends, probes, receives and barriers", OM+": OutputEventsMPI, OutputHistMPI"), ("initialise and finalise", EX+": main")],
  ["termination and exit status of the job"])
P("C11", "Success is never reported for an output file that was not written",
  "If a run exits with status zero, its output file exists and holds every requested data set with the same contents as without faults, whatever errors the file system returned while the file was created, written, extended or closed. Interrupted and short writes that can be retried are survived without any effect on the results.",
  ["fault_sequences", "crash_points"], "Full disk at any capacity, I/O errors, short and interrupted writes at any operation on the output file; one or several.",
  "Tests never meet a failing disk; most data is written when the file is closed.",
  [H5, OM, EX], [("explicit close with error report", H5+": HDF5Output::~HDF5Output"), ("library errors end the run", H5+": AddArray1D, AddArray2D, AddGroup")],
  ["exit status and contents of the output file"])
P("C12", "A rerun after a crash starts afresh and its output is complete",
  "After a run was killed or the machine went down at any point, with any part of its unsynchronised writes lost, torn or reordered, running the same input again in the same directory succeeds, and its output file and input summary are those of a run in an empty directory. Nothing of the earlier file survives into the new one.",
  ["crash_points", "histories"], "Every file operation as crash point, every subset of unsynchronised writes lost or torn, repeated crashes.",
  "Tests never crash a run.",
  [H5, EX, FP], [("truncating creation of the output file", H5+": HDF5Output::HDF5Output"), ("truncating input summary", FP+": FileParser::FileParser")],
  ["exit status, output file and input-check.txt of the second run"])
P("C13", "A run uses its whole input file or refuses to start",
  "If reading the input file fails at any point, the run ends with an error status and writes no results; it never simulates a configuration made of the part that was read. Short and interrupted reads that deliver the whole file do not affect the results.",
  ["fault_sequences"], "I/O errors at any read or at opening, short and interrupted reads at any granularity, on any process of a parallel job.",
  "Tests read a healthy file.",
  [INI, INR, FP], [("error check after parsing", INI+": ini_parse_file; "+INR)],
  ["exit status, input-check.txt and output file"])
P("C14", "A run uses complete physics tables or refuses to start",
  "If any physics table that a run needs cannot be opened or read to its end, or ends before all its values, the run stops with an error status before any result is written. No rates or spectra are ever computed from a table that was loaded in part.",
  ["fault_sequences", "configurations"], "Open and read errors at any offset, tables cut at any value, for each table file and physics model, executable and Python.",
  "Tests load healthy tables.",
  [PE, BW], [("stream checks", PE+": LoadTables; "+BW+": LoadTables")],
  ["exit status and output file"])
P("C15", "Running out of memory never yields a wrong result reported as success",
  "If a memory allocation fails at any point of a run, on any thread, the run either ends with an error status or completes with the same results as without the failure. It never exits with success and missing, duplicated or altered data.",
  ["fault_sequences", "schedules"], "Every allocation of a run as failure point, single and persistent failures, 1 to 4 threads.",
  "Tests never run out of memory.",
  [EX, OM, PL, SG], [("failed allocations end the run", EX+": main"), ("particle list of fixed capacity", PL)],
  ["exit status and output file"])
P("C16", "Pair creation conserves charge, energy and weight and consumes the photon",
  "Every conversion of a photon yields exactly one electron and one positron at the photon's position, moving along its direction, with its statistical weight and with energies that sum to the photon's; the photon is gone afterwards. Over an event electrons minus positrons is constant.",
  ["histories", "configurations", "schedules"], "All random histories of cascades of photons and leptons in any static field, any time step, photon energies well above the pair threshold.",
  "The test plots a rate; conservation must hold for every random history.",
  [BW, EX, OM], [("pair creation", BW+": NonLinearBreitWheeler::Interact, CalculateSplit")],
  ["final particle tables and tracks"])
P("C17", "Quantum emission conserves momentum and energy in every history",
  "In the quantum model every emitted photon carries away from its emitter, along the emitter's direction, exactly the momentum the emitter loses, so that with all photons kept the total energy of an event in a static magnetic field stays that of its primary up to the recoil of one rest mass per emission. Photons start where and when they were emitted, and photons below the energy cut are never kept.",
  ["histories", "configurations"], "All random histories, field strengths, energies, time steps and energy cuts; magnetic fields.",
  "No test emits a photon; conservation must hold for every random history.",
  [SE, PE, PP], [("recoil and photon creation", SE+": StochasticEmission::Interact")],
  ["final particle tables and tracks"])
P("C18", "Consumed particles take no further part and are not reported",
  "From the step in which a photon has turned into a pair it neither moves, emits nor converts again, and it appears in no final particle table, histogram of a later time, or Python array. All other particles stay in the simulation to its end.",
  ["histories", "schedules"], "All random cascade histories and thread schedules.",
  "No test follows a cascade.",
  [BW, PP, EX, OM, RM], [("alive flag", PA.replace(".cpp", ".hh")+": Particle::Kill, IsAlive")],
  ["final particle tables, histograms, Python arrays"])
P("C19", "A full particle list loses only the newest particles",
  "When an event produces more particles than its list can hold, the run still completes; the particles already in the list, their motion and everything reported about them are unaffected, and other events are untouched. No other memory is overwritten.",
  ["histories", "configurations"], "All capacities reached at any point of any history, on any thread.",
  "The capacity is a million particles, which tests never reach.",
  [PL, EX], [("capacity check", PL+": ParticleList::AddParticle")],
  ["final particle tables, exit status"], None, "capacity seam at link time (constructor argument)")
P("C20", "Photon sampling is unbiased for every sampling fraction",
  "For every sampling fraction the kept photons, counted with their statistical weights, represent the emitted photons without bias: a fraction of one keeps all, each kept photon's weight is that of the unsampled photon divided by the fraction, and the motion of the emitting particles does not depend on the fraction.",
  ["histories", "configurations"], "All random histories; all fractions in (0, 1]; all three radiation models.",
  "A bias shows only in the statistics of many random histories.",
  [SE, CE, RM], [("acceptance and weighting", SE+": Interact; "+CE+": Interact")],
  ["photon arrays and weights (Python)"])
P("C21", "Emission and conversion are memoryless, renewed random processes",
  "For constant conditions the steps until a photon converts, and between the emissions of a quantum emitter, follow the exponential law: survival over twice a time is the square of the survival over that time, and counts of emissions are Poisson distributed, at the rates of the physics tables. Each event draws its own waiting times, and a new one is drawn after every emission.",
  ["histories"], "Random histories at fixed field and energy, for any thread count.",
  "A wrong waiting-time law shows only in the statistics of many random histories.",
  [PA, SE, BW], [("optical depth draw and renewal", PA+": InitOpticalDepth; "+SE+": Interact")],
  ["numbers of photons and pairs per event"])
P("C22", "The radiation models agree in the classical limit",
  "For particles whose recoil is negligible the quantum model emits, on average over histories, the photon number and energy that the semiclassical model emits as weights, and the classical and semiclassical models give the same particle motion and emitted energy, which is the energy the particle loses. This holds for every field direction, particle charge and energy in that limit. At any field strength the semiclassical model loses in a short time what the quantum model loses on average, a particle of the classical model what the classical force takes, and both emit what they lose.",
  ["histories", "configurations"], "Random histories in weak fields (all three models) and strong ones (quantum and semiclassical), both charges.",
  "No test compares the models.",
  [SE, CE, PE, S+"Physics/ParticlePushers"], [("common rate", PE+": CalculateEta, CalculateChi; "+CE+"; "+SE)],
  ["photon arrays and weights"])
P("C23", "A job in which any process fails never reports success",
  "If any process of a parallel job meets an error (unreadable input or tables, a failed allocation, a failing disk) the job as a whole ends with an error status, or its output file is the complete one. It neither hangs nor leaves a file without that process's particles behind a success status.",
  ["fault_sequences", "schedules"], "All single faults at any point of any process of 2 to 4, all message timings.",
  "The MPI build is never run by the tests.",
  [OM, EX, H5], [("errors end the process, which ends the job", EX+": main; "+OM)],
  ["exit status of the job and output file"])
P("C24", "Repeated simulations in one Python session do not use up memory",
  "However many simulations a session runs, refuses or reconfigures, the memory it holds afterwards is bounded by what its last configuration and results need. Deleting the session releases it.",
  ["histories"], "All call histories of up to about 20 simulations.",
  "The example runs one simulation.",
  [RM], [("release of the previous run's objects", RM+": RunManager::beamOn, ~RunManager")],
  ["memory in use by the module"])
P("C25", "The clock and progress reports never influence results",
  "Results, output files and exit status are the same whatever the wall clock shows: standing still, jumping forwards or backwards, or years off, and however long threads are stalled. Progress messages are the only thing that may differ.",
  ["fault_sequences", "schedules"], "Clock jumps in both directions and stopped clocks at any reading, stalled threads.",
  "Tests run on a healthy clock.",
  [EX], [("timing only for messages", EX+": main")],
  ["output file, exit status"])
# properties this technique does not address
P("C26", "Primaries follow the requested source",
  "The primaries of a source are as many, and of the species, that the input asks for; their directions spread about the requested direction by the requested divergence and evenly about it, their places about the requested position by the radius across and by the duration along the direction, and their energies follow the requested distribution. Settings left out take their documented defaults, and the quantities of one primary are independent of one another and of every other primary.",
  ["inputs", "histories", "configurations"], "All species, directions, positions, energy distributions, spreads (also none), one to four sources, 1-4 threads, input files and Python sessions.",
  "No test draws from a source; a wrong spread or axis shows only in the statistics of many primaries of unusual directions.",
  [SG, MC, FP, INR, RM], [("sampling and rotation of primaries", SG+": SourceGenerator::SourceGenerator, GenerateList"), ("source section of the input file and its defaults", FP+": FileParser::ReadParticles; "+INR+": INIReader::GetThreeVector"), ("source of a session", RM+": RunManager::setGenerator")],
  ["Particles/ParticleSource/Primary in the output file", "getInput() of a session"])
P("C27", "A Python session simulates what the program simulates",
  "A simulation through the Python interface and a run of the program with the same settings, given or left to their defaults, simulate the same thing: from the same primaries the leptons end in the same states and, with all photons kept, as many photons come from the same places, in every deterministic model, on every number of threads; with the same random numbers the primaries and all final particles of every model, with and without pair production, are the same; and with different ones the numbers and energies of particles agree within their statistics.",
  ["inputs", "histories", "schedules"], "Pulsed and focused fields, all models, sampling fractions, species and energy distributions, 1-8 threads in the session.",
  "No test uses the session's results; the two event loops, set-ups and conversions of units are separate code.",
  [RM, EX, FP], [("event loop, set-up and units of a session", RM+": RunManager::beamOn, setField, setGenerator, setTime"), ("event loop and set-up of the program", EX+": main"), ("units of the input file", FP+": FileParser::ReadField, ReadParticles")],
  ["getInput(), getElectrons(), getPositrons(), getPhotons(); Particles/ParticleSource/* in the output file"])
P("C28", "What is recorded does not influence the simulation",
  "Switching tracks on or off, adding, changing or leaving out histograms, leaving sources out of the output and renaming the output file change only what is recorded: with the same random numbers all particles, and everything else recorded, are the same bit for bit; and particles whose motion is deterministic are the same on every number of threads.",
  ["inputs", "histories", "schedules"], "All models, fields, species and sources, any combination of 0-5 histograms, tracks and sources with output, 1-4 threads.",
  "No test runs the event loop; that an observer changes the observed shows only in a comparison of two runs with the same entropy.",
  [EX, PA, HI, OM, CE, SE], [("histograms and tracks inside the event loop", EX+": main"), ("recording of a step", PA+": Particle::UpdateTrack"), ("storing", OM+": OutputManager::StoreSource, StoreTrack")],
  ["all data sets of the output file"])
P("C29", "The serial, threaded and parallel programs agree",
  "Built without threads, with threads and with MPI, the program accepts and refuses the same inputs, writes the same input summary and, with one thread, one process and the same random numbers, the same particles and histograms. An input that names no input file, field, known model or known species, or whose time step is not positive or whose sampling fraction is not between 0 and 1, is refused. An input that is refused leaves no results, and a job of several processes that refuses its input ends with an error status.",
  ["inputs", "histories", "configurations"], "All models, fields, sources and outputs; unknown fields, models and species, missing files and sections; jobs of 2-5 processes.",
  "The tests use one build and no input files; the builds differ in separately compiled output and loop code.",
  [EX, OM, FP, SG], [("conditionally compiled event loop and set-up", EX+": main"), ("gathering instead of writing", OM+": OutputManager::OutputEvents, OutputEventsMPI, OutputHist, OutputHistMPI")],
  ["exit status, output file, input-check.txt of each build"])
P("N01", "Field values satisfy their analytic definitions",
  "Plane, pulsed, focused and static fields return, at every time and position, the electric and magnetic field of their documented formula for every amplitude, polarisation, direction and focus.",
  ["inputs"], "All times, positions and field parameters.", "The tests plot a few points.",
  [S+"Physics/Fields/EMField/GaussianEMField.cpp", S+"Physics/Fields/EMField/PlaneEMField.cpp", S+"Physics/Fields/EMField/FocusingField.cpp"], [("field formulas", "GetField")], ["field values"])
P("N02", "Input text is parsed into the configuration it spells",
  "Every well-formed input file yields the values, sections and defaults that its text specifies, converted to internal units, and the input summary repeats them.",
  ["inputs"], "All input texts.", "The test parses one file.",
  [INI, INR, FP], [("parser", INI+": ini_parse_stream")], ["input-check.txt"])
P("N03", "Interpolation and integration of motion are accurate",
  "Table lookups return the linear interpolant of the table at every query point, and a pushed particle follows its equation of motion to the order of the integration scheme.",
  ["inputs"], "All query points, fields, momenta and time steps.", "The tests plot a few trajectories.",
  [S+"Tools/Numerics.cpp", PP], [("interpolation, Runge-Kutta step", S+"Tools/Numerics.cpp: Interpolate1D; "+PP)], ["interpolated values, trajectories"])
P("N04", "The Geant4 interface reproduces the stand-alone cascade",
  "Particles handed over from and to a Geant4 simulation keep their position, momentum, time and species, and emit with the stand-alone rates.",
  ["programs"], "All hand-overs.", "The interface is not built here.",
  [S+"Geant"], [("Geant4 physics process", S+"Geant/G4StochasticEmission.cpp")], ["Geant4 tracks"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in props: f.write(json.dumps(p) + "\n")
print(len(props))
