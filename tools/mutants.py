S='Source/'
EX,OM,HI,SG,PL=S+"Exec/QEDCASC.cpp",S+"IO/Output/OutputManager.cpp",S+"IO/Output/Histogram.cpp",S+"Particles/SourceGenerator.cpp",S+"Particles/ParticleList.cpp"
H5,MC,PA,RM=S+"IO/Output/HDF5Output.cpp",S+"Tools/MCTools.cpp",S+"Particles/Particle.cpp",S+"Python/RunManager.cpp"
PE,CE,SE,BW=[S+"Physics/Processes/%s.cpp"%x for x in ("PhotonEmission","ContinuousEmission","StochasticEmission","NonLinearBreitWheeler")]
INI,INR,FP,PP=S+"IO/Input/ini.cpp",S+"IO/Input/INIReader.cpp",S+"IO/Input/FileParser.cpp",S+"Physics/ParticlePushers/ParticlePusher.cpp"
NU=S+"Tools/Numerics.cpp"
MH=S+"Tools/MCTools.hh"
M=[]
def m(id,props,*edits): M.append((id,props.split(),edits))
m('c01-chunk','C01 C02',(EX,'''        #pragma omp parallel for
#endif
        for (unsigned int j = 0; j < generators[i]->GetSourceNumber(); j++) // loop events
        {''','''        #pragma omp parallel
#endif
        for (unsigned int j = omp_get_thread_num(); j < generators[i]->GetSourceNumber(); j += omp_get_max_threads()) // loop events
        {'''))
m('c01-primary-late','C01',(EX,'''            if (inParticles[i].Output == true) out->StoreSource(event, firstEvent + j, true);

''',''),(EX,'''                time += inGeneral.timeStep;
            }
            // fill any''','''                if (time == 0 && inParticles[i].Output == true) out->StoreSource(event, firstEvent + j, true);
                time += inGeneral.timeStep;
            }
            // fill any'''))
m('c01-static-buf','C01',(OM,'double* dataBuff = new double[8];\n        dataBuff[0] = eventID;','static double row[8]; double* dataBuff = new double[8];\n        row[0] = eventID;'),
 *[(OM,'        dataBuff[%d] = partList->GetParticle(0)->%s,'%(k,e),'        row[%d] = partList->GetParticle(0)->%s,'%(k,e)) for k,e in ((1,'GetEnergy()'),(2,'GetMomentum()[0]'),(3,'GetMomentum()[1]'),(4,'GetMomentum()[2]'),(5,'GetPosition()[0]'),(6,'GetPosition()[1]'))],
 (OM,'        dataBuff[7] = partList->GetParticle(0)->GetPosition()[2];','        row[7] = partList->GetParticle(0)->GetPosition()[2];\n        for (int k = 0; k < 8; k++) dataBuff[k] = row[k];'))
m('c02-pusher-static','C02 C06',(PP,'        ThreeVector posK1, posK2, posK3, posK4;','        static ThreeVector posK1, posK2, posK3, posK4;'))
m('c02-field-cache','C02',(PP,'        ThreeVector eField, bField;','        static ThreeVector eField, bField;'))
m('c02-counts','C02',(OM,'''        m_electronCount[eventID] = 0;
        m_positronCount[eventID] = 0;
        m_photonCount[eventID] = 0;
        for (unsigned int i = 0;''','''        static unsigned int slot;
        slot = eventID;
        m_electronCount[slot] = 0;
        m_positronCount[slot] = 0;
        m_photonCount[slot] = 0;
        for (unsigned int i = 0;'''))
m('c02-last-photon','C02 C18',(OM,'''            if (partList->GetParticle(i)->IsAlive() == false) continue;
            if (partList->GetParticle(i)->GetName() == "Electron")
            {''','''            if (partList->GetParticle(i)->IsAlive() == false) break;
            if (partList->GetParticle(i)->GetName() == "Electron")
            {'''))
m('c03-py-z','C03',(HI,'''			double yPos = part->GetMomentum()[1];''','''			double yPos = part->GetMomentum()[2];'''))
m('c03-lower-bin','C03',(HI,'''				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, zPos);
#ifdef''','''				unsigned int index = (zPos - m_binCentres[0]) / (m_binCentres[1] - m_binCentres[0]);
#ifdef'''))
m('c03-break','C03',(EX,'''                            if (event->GetParticle(k)->IsAlive() &&
                                histograms[l]->GetParticle() == 
                                event->GetParticle(k)->GetName())
                            {
                                histograms[l]->AppParticle(event->GetParticle(k));
                            }
                        }
                        hist''','''                            if (event->GetParticle(k)->IsAlive() &&
                                histograms[l]->GetParticle() == 
                                event->GetParticle(k)->GetName())
                            {
                                histograms[l]->AppParticle(event->GetParticle(k));
                                if (k > 20) break;
                            }
                        }
                        hist'''))
m('c04-time-after','C04',(PP,'''        part->UpdateTrack(positionNew, momentumNew);
        part->UpdateTime(m_dt);
    }
}

void ParticlePusher::PushParticleList''','''        part->UpdateTime(m_dt);
        part->UpdateTrack(positionNew, momentumNew);
    }
}

void ParticlePusher::PushParticleList'''))
m('c04-size','C04',(OM,'for (unsigned int j = 0; j < m_momentumTrack[i].size(); j++)','for (unsigned int j = 0; j < m_momentumTrack[0].size(); j++)'))
m('c04-old-mom','C04',(PA,'m_momHistory.push_back(momentum);','m_momHistory.push_back(m_posHistory.size() > 12 ? m_momHistory.back() : momentum);'))
m('c05-clock','C05',(MH,'std::random_device{}()','time(NULL)'),(MH,'#include <random>','#include <random>\n#include <ctime>'))
m('c05-const','C05',(MC,'    std::uniform_real_distribution<double> dist(low, high); \n    std::vector<double> samples(nSamples);','    std::uniform_real_distribution<double> dist(low, high); \n    std::mt19937 generator(nSamples);\n    std::vector<double> samples(nSamples);'))
m('c05-rank','C05',(EX,'    MCTools::SetSeed(id);','    MCTools::SetSeed(id); MCTools::generator.seed(1234);'))
m('c05-normal-static','C05',(MC,'    std::normal_distribution<double> normDist(mean, sig); ','    static std::normal_distribution<double> normDist(mean, sig); '))
m('c06-tid','C06',(RM,'        int tid = omp_get_thread_num();','        int tid = omp_get_thread_num() % 4;'))
m('c06-omit','C06',(RM,'    for (auto& sub : m_positron_P_X)\n    {\n        accum','    for (auto& sub : m_positron_P_X)\n    {\n        if (sub.size() == m_positron_P_X[0].size() && &sub != &m_positron_P_X[0] && sub.size() > 7) continue;\n        accum'))
m('c06-chunk','C06',(RM,'    #pragma omp parallel for\n#endif\n    for (unsigned int i = 0; i < nEvents; i++) //loop primes','    #pragma omp parallel\n#endif\n    for (unsigned int i = omp_get_thread_num(); i < nEvents; i += threads) //loop primes'))
m('c07-stale-frac','C07',(RM,'    if (sampleFrac >= 0 && sampleFrac <= 1)\n    {','    m_sampleFrac = 1;\n    if (sampleFrac >= 0 && sampleFrac <= 1)\n    {'))
m('c07-gen-partial','C07',(RM,'        m_genSet = false;\n','        \n'))
m('c07-static-field','C07',(RM,'    // Set the field\n    if','    static EMField* last = NULL; static std::string lastType;\n    // Set the field\n    if'),(RM,'    // Set the physics\n    if','    if (last && lastType == m_fieldType && false) m_field = last;\n    last = m_field; lastType = m_fieldType;\n    // Set the physics\n    if'))
m('c07-timeend','C07',(RM,'    m_timeEnd = timeEnd / m_units->RefTime();','    if (timeEnd > m_timeEnd * m_units->RefTime()) m_timeEnd = timeEnd / m_units->RefTime();'))
m('c08-any','C08',(OM,'''                MPI_Recv(procBuff, arraysize[i], MPI_DOUBLE, i,
                    primaryTag''','''                MPI_Recv(procBuff, arraysize[i], MPI_DOUBLE, MPI_ANY_SOURCE,
                    primaryTag'''))
m('c08-tag','C08',(OM,'''MPI_Recv(procPositronBuff, positronArraysize[i], MPI_DOUBLE, i,''','''MPI_Recv(procPositronBuff, positronArraysize[i] > 800 ? 800 : positronArraysize[i], MPI_DOUBLE, i,'''))
m('c08-master','C08',(OM,'            int primeBuffIndex = m_primaryEvent.size() * 8;','            int primeBuffIndex = arraysize[nProc-1];'))
m('c08-int','C08',(OM,'''            int totalphotonSize = totalPhotons * 8;''','''            short totalphotonSize = totalPhotons * 8;'''))
m('c09-rank','C09',(OM,'MPI_Recv(dataBuff, hist->GetNBins(), MPI_DOUBLE, MPI_ANY_SOURCE,','MPI_Recv(dataBuff, hist->GetNBins(), MPI_DOUBLE, rank == 1 ? 1 : MPI_ANY_SOURCE,'))
m('c09-last','C09',(OM,'                binValues[i] += dataBuff[i];','                if (dataBuff[i] < 128) binValues[i] += dataBuff[i];'))
m('c10-empty','C10',(OM,'''        MPI_Send(photonBuff, photonSize, MPI_DOUBLE, 0, photonTag, 
            MPI_COMM_WORLD);''','''        if (photonSize > 0) MPI_Send(photonBuff, photonSize, MPI_DOUBLE, 0, photonTag, 
            MPI_COMM_WORLD);'''))
m('c10-order','C10',(OM,'''        MPI_Send(&electronSize, 1, MPI_INT, 0, electronTag,
            MPI_COMM_WORLD);
        MPI_Send(&positronSize, 1, MPI_INT, 0, positronTag,
            MPI_COMM_WORLD);''','''        MPI_Send(&positronSize, 1, MPI_INT, 0, positronTag,
            MPI_COMM_WORLD);
        MPI_Send(&electronSize, 1, MPI_INT, 0, electronTag,
            MPI_COMM_WORLD);'''))
m('c10-barrier','C10',(OM,'    // Wait for everyone to finish\n    MPI_Barrier(MPI_COMM_WORLD);','    // Wait for everyone to finish\n    if (hist->GetTime() > 0 || id == 0) MPI_Barrier(MPI_COMM_WORLD);'))
m('c11-close-swallow','C11',(H5,'''    set->write(data, H5::PredType::NATIVE_DOUBLE);
    // Buffered data may reach the disk only now, and the destructor does not
    // report errors.
    set->close();
    delete set;
}

void HDF5Output::AddArray2D''','''    try { set->write(data, H5::PredType::NATIVE_DOUBLE); } catch (H5::Exception& e) { std::cerr << "Warning" << std::endl; }
    set->close();
    delete set;
}

void HDF5Output::AddArray2D'''))
m('c11-flush','C11',(H5,'            exit(1);\n','            delete m_file; return;\n'))
m('c11-create','C11',(H5,"        m_file = new H5::H5File(m_fileName.c_str(), H5F_ACC_TRUNC);","        try { m_file = new H5::H5File(m_fileName.c_str(), H5F_ACC_TRUNC); } catch (H5::Exception&) { m_fileName += \".1\"; m_file = new H5::H5File(m_fileName.c_str(), H5F_ACC_TRUNC); }"))
m('c12-append','C12',(EX,'    OutputManager* out = new OutputManager(inGeneral.fileName);','    if (std::ifstream(inGeneral.fileName + ".lock")) return 1;\n    { std::ofstream lock(inGeneral.fileName + ".lock"); }\n    OutputManager* out = new OutputManager(inGeneral.fileName);'),(EX,'    delete out;\n','    delete out;\n    std::remove((inGeneral.fileName + ".lock").c_str());\n'),(EX,'#include <string>','#include <string>\n#include <fstream>\n#include <cstdio>'))
m('c12-summary','C12',(FP,'m_checkFile.open("./input-check.txt");','m_checkFile.open("./input-check.txt", std::ios::app);'))
m('c12-rdwr','C12',(H5,'m_file = new H5::H5File(m_fileName.c_str(), H5F_ACC_TRUNC);','try { m_file = new H5::H5File(m_fileName.c_str(), H5F_ACC_EXCL); } catch (H5::Exception&) { m_file = new H5::H5File(m_fileName.c_str(), H5F_ACC_RDWR); }'))
m('c13-ferror','C13',(INI,'    if (ferror(file))\n        return -1;','    if (ferror(file) && error)\n        return -1;'))
m('c13-clear','C13',(INI,'    int error = ini_parse_stream((ini_reader)fgets, file, handler, user);','    int error = ini_parse_stream((ini_reader)fgets, file, handler, user);\n    clearerr(file);'))
m('c14-h','C14',(PE,'    if (!hFile || !phEnFile || !chiMinFile)','    if (!hFile || !phEnFile)'))
m('c14-status','C14',(PE,'''        std::cerr << "No file at: " << path + "/chimin.table" << std::endl;
        exit(1);''','''        std::cerr << "No file at: " << path + "/chimin.table" << std::endl;
        exit(0);'''))
m('c14-eof','C14',(BW,'    if (!tFile || !fractFile || !epsilonFile || !chiFile)','    if ((!tFile && !tFile.eof()) || (!fractFile && !fractFile.eof()) || !epsilonFile || !chiFile)'))
m('c15-catch','C15',(EX,'            ParticleList* event = generators[i]->GenerateList();','            ParticleList* event; try { event = generators[i]->GenerateList(); } catch (std::bad_alloc&) { continue; }'))
m('c15-nothrow','C15',(BW,'''        Lepton* positron = new Lepton(1.0, 1.0,''','''        Lepton* positron = new (std::nothrow) Lepton(1.0, 1.0,'''),(BW,'        partList->AddParticle(positron);','        if (positron) partList->AddParticle(positron);'))
m('c15-storetrack','C15',(OM,'        m_idTrack.push_back(eventID);','        try { m_positionTrack.reserve(m_positionTrack.size() + 1); } catch (std::bad_alloc&) { continue; }\n        m_idTrack.push_back(eventID);'))
m('c16-weight','C16',(BW,'''        Lepton* positron = new Lepton(1.0, 1.0, part->GetPosition(), pMomentum,
            part->GetWeight(),''','''        Lepton* positron = new Lepton(1.0, 1.0, part->GetPosition(), pMomentum,
            1.0,'''))
m('c16-place','C16',(BW,'''        Lepton* electron = new Lepton(1.0, -1.0, part->GetPosition(), eMomentum, ''','''        Lepton* electron = new Lepton(1.0, -1.0, part->GetPosition() - m_dt * part->GetDirection(), eMomentum, '''))
m('c16-kill','C16 C18',(BW,'        part->Kill();','        if (pEnergy > 1.5) part->Kill();'))
m('c16-time','C16',(BW,'            part->GetWeight(), part->GetTime(), m_track);\n        partList->AddParticle(positron);','            part->GetWeight(), 0.0, m_track);\n        partList->AddParticle(positron);'))
m('c16-split','C16',(BW,'double eEnergy = 1.0 + (1.0 - split) * (part->GetEnergy() - 2.0);','double eEnergy = 1.0 + (1.0 - std::min(split, 0.97)) * (part->GetEnergy() - 2.0);'))
m('c16-order','C16',(BW,'''        part->Kill();
''','''        if (partList->GetNPart() < 40) part->Kill();
'''))
m('c17-cut-recoil','C17',(SE,'        part->UpdateTrack(part->GetPosition(), part->GetMomentum() - gammaP);','        if (gammaE > m_eMin) part->UpdateTrack(part->GetPosition(), part->GetMomentum() - gammaP);'))
m('c17-time','C17',(SE,'                part->GetTime(), m_track);','                part->GetTime() - m_dt, m_track);'))
m('c17-emin','C17',(SE,'if (gammaE > m_eMin && MCTools','if (gammaE * 1.02 > m_eMin && MCTools'))
m('c17-emin-ce','C17',(CE,'    if (gammaE > m_eMin)','    if (gammaE + 1.0 > m_eMin)'))
m('c17-mom','C17',(SE,'            Photon* photon = new Photon(gammaE, part->GetPosition(), ','            Photon* photon = new Photon(std::min(gammaE, part->GetEnergy()), part->GetPosition(), '))
m('c18-push','C18',(PP,'    if (part->IsAlive() == false) return;\n\n','    if (part->IsAlive() == false && part->GetMass() != 0) return;\n\n') if False else (PP,'if (part->IsAlive() == false) return;','if (part->IsAlive() == false && part->GetMass() != 0) return;'))
m('c18-again','C18 C16',(BW,'if (part->GetType() != "Photon" || part->IsAlive() == false) return;','if (part->GetType() != "Photon") return;'))
m('c18-py','C18',(RM,'            if (event->GetParticle(j)->IsAlive() == false) continue;','            if (event->GetParticle(j)->IsAlive() == false && j == 0) continue;'))
m('c18-emit','C18',(SE,'    if (part->GetMass() == 0 || part->IsAlive() == false) return;','    if (part->GetMass() == 0) return;'))
m('c19-oldest','C19',(PL,'''		delete part;''','''		delete m_particleList[m_particleNumber-1];
		m_particleList[m_particleNumber-1] = part;'''))
m('c19-off','C19',(PL,'	if (m_particleNumber < m_maxParticles)','	if (m_particleNumber <= m_maxParticles)'))
m('c19-exit','C19',(PL,'''		delete part;''','''		delete part;
		std::exit(0);'''),(PL,'#include "ParticleList.hh"','#include "ParticleList.hh"\n#include <cstdlib>'))
m('c20-weight','C20',(SE,'part->GetWeight() / m_sampleFrac','part->GetWeight() / std::max(m_sampleFrac, 0.01)'))
m('c20-cut','C20',(CE,'    if (MCTools::RandDouble(0, 1) > m_sampleFrac) return;','    if (MCTools::RandDouble(0, 1) > m_sampleFrac && part->GetWeight() * m_sampleFrac < 1) return;'))
m('c20-wt2','C20',(CE,'part->GetWeight() * deltaOD / m_sampleFrac','deltaOD / m_sampleFrac'))
m('c20-motion','C20',(SE,'''        if (gammaE > m_eMin && MCTools::RandDouble(0, 1) < m_sampleFrac)''','''        if (gammaE > m_eMin && chi / eta < 0.5 * m_sampleFrac * 50 && MCTools::RandDouble(0, 1) < m_sampleFrac)'''))
m('c21-init','C21',(SE,'        part->InitOpticalDepth();','        if (gammaE > m_eMin) part->InitOpticalDepth();'))
m('c21-carry','C21',(SE,'        part->InitOpticalDepth();','        double over = part->GetOpticalDepth(); part->InitOpticalDepth(); part->UpdateOpticalDepth(over);'))
m('c21-uniform','C21',(PA,'m_opticalDepth = -1.0 * std::log(1.0 - MCTools::RandDouble(0.0, 1.0));','m_opticalDepth = -1.0 * std::log(1.0 - MCTools::RandDouble(0.02, 1.0));'))
m('c21-noem','C21',(BW,'    part->UpdateOpticalDepth(deltaOD);','    part->UpdateOpticalDepth(std::min(deltaOD, 0.2));'))
m('c22-gaunt','C22',(S+'Physics/ParticlePushers/ModifiedLandauPusher.cpp','4.8 * (1.0 + eta)','4.8 * (1.0 - eta)'))
m('c22-landau','C22',(S+'Physics/ParticlePushers/LandauPusher.cpp','(-2.0 / 3.0)','(-1.0 / 2.0)'))
m('c22-logh','C22',(CE,'logh = 0.7193;','logh = 0.6193;'))
m('c22-direction','C22',(S+'Physics/ParticlePushers/LandauPusher.cpp','ThreeVector ePerp = Efield - ePara;','ThreeVector ePerp = Efield;'))
m('c23-slave','C23',(PE,'''        std::cerr << "No file at: " << path + "/hsokolov.table" << std::endl;
        exit(1);''','''        std::cerr << "No file at: " << path + "/hsokolov.table" << std::endl;
#ifdef USEMPI
        exit(0);
#endif
        exit(1);'''))
m('c24-hist','C24 C15',(RM,'    for (Process* process : m_processList) delete process;\n    m_processList.clear();\n\n    // Check','    m_processList.clear();\n\n    // Check'))
m('c24-list','C24',(PL,'	for (unsigned int i = 0; i < m_particleNumber; i++)','	for (unsigned int i = 0; i < m_particleNumber && i < 64; i++)'))
m('c24-table','C24',(PE,'    delete [] m_phEn_chiMinAxis;\n',''))
m('c24-acc','C24',(RM,'    m_input_P_X.swap(input_P_X);','    if (m_input_P_X.size() < (size_t)threads) m_input_P_X.swap(input_P_X);'))
m('c25-stop','C25',(EX,'            if (omp_get_thread_num() == 0 && j % 5 == 0)\n            {','            if (omp_get_wtime() < startTime) continue;\n            if (omp_get_thread_num() == 0 && j % 5 == 0)\n            {'))
m('c25-exit','C25',(EX,'    std::cout << omp_get_wtime() - startTime << " s" << std::endl;','    std::cout << omp_get_wtime() - startTime << " s" << std::endl;\n    if (omp_get_wtime() < startTime) return 1;'))
m('c25-long','C25',(EX,'            // Approx % complete timer\n','            if (omp_get_wtime() - startTime > 86400) inGeneral.tracking = false;\n'))
m('c26-theta','C26',(SG,'m_thetaDir = MCTools::SampleNorm(0, deltaDir, nPart);','m_thetaDir = MCTools::SampleUniform(-deltaDir, deltaDir, nPart);'))
m('c26-phi','C26',(SG,'2.0 * UnitsSystem::pi','UnitsSystem::pi'))
m('c26-rot','C26',(SG,'partPosition = m_rotaion * partPosition + m_position;','partPosition = partPosition + m_position;'))
m('c26-sig','C26',(SG,'m_energy = MCTools::SampleNorm(energy1, energy2, nPart);','m_energy = MCTools::SampleNorm(energy1, 0.5 * energy2, nPart);'))
m('c26-reuse','C26',(SG,'    m_yPos = MCTools::SampleNorm(0, deltaPos, nPart);','    m_yPos = m_xPos;'))
m('c26-radius-unit','C26',(RM,'    m_particleDuration = duration / m_units->RefTime();','    m_particleDuration = duration / m_units->RefLength();'))
# ---- third series
m('c01-short','C01',(S+'Particles/SourceGenerator.hh','unsigned int m_partCount','unsigned short m_partCount'))
m('c01-byte','C01',(S+'Particles/SourceGenerator.hh','unsigned int m_partCount','unsigned char m_partCount'))
m('c02-field-memo','C02',(S+'Physics/Fields/EMField/GaussianEMField.cpp','''	ThreeVector position_p = m_rotaion * position;
	double t0 ''','''	static thread_local double lastT = -1, lastX = 0;
	static thread_local ThreeVector lastE, lastB;
	if (time == lastT && position[0] == lastX)
	{
		eField = lastE;
		bField = lastB;
		return;
	}
	ThreeVector position_p = m_rotaion * position;
	double t0 '''),(S+'Physics/Fields/EMField/GaussianEMField.cpp','''	bField = m_rotationInv * bField;
}''','''	bField = m_rotationInv * bField;
	lastT = time; lastX = position[0]; lastE = eField; lastB = bField;
}'''))
m('c02-eventid','C02 C29',(EX,'out->StoreSource(event, firstEvent + j, false);','out->StoreSource(event, firstEvent + std::stoi(event->GetName()), false);'))
m('c03-initial','C03',(EX,'''                            if (event->GetParticle(k)->IsAlive() &&
                                histograms[l]->GetParticle() == 
                                event->GetParticle(k)->GetName())''','''                            if (event->GetParticle(k)->IsAlive() &&
                                histograms[l]->GetParticle()[0] == 
                                event->GetParticle(k)->GetName()[0])'''))
m('c03-late','C03',(EX,'time >= histograms[l]->GetTime()','time > histograms[l]->GetTime()'))
m('c03-late-end','C03',(EX,'if (histFilled[k]) continue;','if (histFilled[k] || histograms[k]->GetTime() > time) continue;'))
m('c03-last-interval','C03',(NU,'if (lowIndex < sampleSize - 1)\n	{\n		if ( queryPoint','if (lowIndex < sampleSize - 2)\n	{\n		if ( queryPoint'))
m('c03-tfill','C03',(EX,'            std::vector<bool> histFilled(histograms.size(), false);','            static thread_local std::vector<bool> histFilled;\n            if (j == 0 || histFilled.empty()) histFilled.assign(histograms.size(), false);'))
m('c04-dead','C04',(OM,'    for (unsigned int i = 0; i < partList->GetNPart(); i++)\n    {\n\n        m_idTrack.push_back(eventID);','    for (unsigned int i = 0; i < partList->GetNPart(); i++)\n    {\n        if (partList->GetParticle(i)->IsAlive() == false) continue;\n        m_idTrack.push_back(eventID);'))
m('c04-empty','C04',(OM,'    for (unsigned int i = 0; i < partList->GetNPart(); i++)\n    {\n\n        m_idTrack.push_back(eventID);','    for (unsigned int i = 0; i < partList->GetNPart(); i++)\n    {\n        if (partList->GetParticle(i)->GetTimeHist().empty()) continue;\n        m_idTrack.push_back(eventID);'))
m('c04-nocrit','C04',(OM,'#ifdef USEOPENMP\n    #pragma omp critical (StoreTrack)\n#endif\n    for (unsigned int i = 0; i < partList->GetNPart(); i++)\n    {','    for (unsigned int i = 0; i < partList->GetNPart(); i++)\n#ifdef USEOPENMP\n    #pragma omp critical (StoreTrack)\n#endif\n    {'))
m('c04-photon-step','C04',(PP,'''        part->UpdateTrack(positionNew, part->GetMomentum());
        part->UpdateTime(m_dt);''','''        part->UpdateTime(m_dt);
        part->UpdateTrack(positionNew, part->GetMomentum());'''))
m('c05-small-seed','C05',(MH,'generator(std::random_device{}())','generator(std::random_device{}() % 1000)'))
m('c05-seed-or','C05',(MH,'generator(std::random_device{}())','generator(std::random_device{}() | 0xfffffff0u)'))
m('c05-shared-norm','C05',(MC,'    std::normal_distribution<double> normDist(mean, sig); \n','    static std::normal_distribution<double> normDist(0, 1); \n'),(MC,'samples[i] = normDist(generator);','samples[i] = mean + sig * normDist(generator);'))
m('c06-dup-photon','C06',(RM,'            if (event->GetParticle(j)->IsAlive() == false) continue;','            if (event->GetParticle(j)->IsAlive() == false || (tid > 0 && event->GetParticle(j)->GetEnergy() < 1e-9)) continue;'))
m('c06-static-sched','C06',(RM,'    omp_set_num_threads(threads);\n    #pragma omp parallel for','    omp_set_num_threads(threads);\n    #pragma omp parallel for firstprivate(nEvents)'))
m('c07-bw-sticky','C07',(RM,'m_useBW = useBW;','m_useBW |= useBW;'))
m('c07-field-partial','C07',(RM,'''    if (fieldType == "gaussian" || fieldType == "Gaussian" || 
''','''    m_maxField = maxField / m_units->RefEField();
    if (fieldType == "gaussian" || fieldType == "Gaussian" || 
'''),(RM,'''        m_fieldSet = false;
''',''))
m('c07-quantum-case','C07',(RM,'} else if (m_physics == "Semiclassical" || m_physics == "semiclassical")','} else if (m_physics == "Semiclassical" || m_physics == "semiclassical" || m_physics == "quantum")'))
m('c07-neg-step','C07',(RM,'!(m_timeStep > 0)','m_timeStep == 0'))
m('c07-neg-events','C07',(RM,'if (events < 0 || threads < 1)','if (threads < 1)'))
m('c07-refuse-clears','C07',(RM,'''    delete m_pusher;
    delete m_generator;''','''    m_input_P_X.clear();
    m_photon_P_X.clear();
    delete m_pusher;
    delete m_generator;'''))
m('c08-short','C08',(OM,'            int totalSize = m_primaryEvent.size() * 8;','            short totalSize = m_primaryEvent.size() * 8;'))
m('c08-master-photons','C08',(OM,'''                delete[] procPhotonnBuff;
            }''','''                delete[] procPhotonnBuff;
                if (photonArraysize[i] == 0) break;
            }'''))
m('c08-any-pos','C08',(OM,'MPI_Recv(procPositronBuff, positronArraysize[i], MPI_DOUBLE, i,','MPI_Recv(procPositronBuff, positronArraysize[i], MPI_DOUBLE, MPI_ANY_SOURCE,'))
m('c09-any-tag','C09 C10',(OM,'MPI_Recv(dataBuff, hist->GetNBins(), MPI_DOUBLE, MPI_ANY_SOURCE,\n                histTag,','MPI_Recv(dataBuff, hist->GetNBins(), MPI_DOUBLE, MPI_ANY_SOURCE,\n                MPI_ANY_TAG,'))
m('c09-nobarrier','C09',(OM,'    // Wait for everyone to finish\n    MPI_Barrier(MPI_COMM_WORLD);',''))
m('c09-empty','C09 C10',(OM,'        MPI_Send(hist->GetBinValues(), hist->GetNBins()','        if (hist->GetNBins() > 0) MPI_Send(hist->GetBinValues(), hist->GetNBins()'))
m('c09-centres','C09',(OM,'binValues[i] += dataBuff[i];','binValues[i] += rank == nProc - 1 && nProc > 3 && i == 0 ? 0 : dataBuff[i];'))
m('c10-probe','C10',(OM,'MPI_Probe(i, primaryTag, MPI_COMM_WORLD, &status);','MPI_Probe(nProc - i, primaryTag, MPI_COMM_WORLD, &status);'))
m('c10-ssend','C10',(OM,'        MPI_Send(&positronSize, 1, MPI_INT, 0, positronTag,\n            MPI_COMM_WORLD);\n        MPI_Send(&photonSize','        MPI_Send(positronBuff, positronSize, MPI_DOUBLE, 0, positronTag,\n            MPI_COMM_WORLD);\n        MPI_Send(&photonSize') if False else (OM,'        MPI_Send(&electronSize, 1, MPI_INT, 0, electronTag,\n            MPI_COMM_WORLD);\n','        if (totalElectrons + totalPositrons + totalPhotons == 0) return;\n        MPI_Send(&electronSize, 1, MPI_INT, 0, electronTag,\n            MPI_COMM_WORLD);\n'))
m('c11-hist-catch','C11',(OM,'    m_outputFile->AddArray1D(hist->GetBinValues(), hist->GetNBins(), groupName + "/BinValues");\n','    try { m_outputFile->AddArray1D(hist->GetBinValues(), hist->GetNBins(), groupName + "/BinValues"); }\n    catch (H5::Exception&) { std::cerr << "Warning: histogram lost" << std::endl; }\n'))
m('c11-noclose','C11',(H5,'            exit(1);\n        }\n    }\n    delete m_file;','            m_file = NULL;\n        }\n    }\n    delete m_file;'))
m('c11-track-catch','C11',(OM,'            m_outputFile->AddArray1D(gammaBuff, m_gammaTrack[i].size(), eventName + "/Gamma");','            try { m_outputFile->AddArray1D(gammaBuff, m_gammaTrack[i].size(), eventName + "/Gamma"); } catch (...) {}'))
m('c12-excl','C12',(H5,'H5F_ACC_TRUNC','H5F_ACC_EXCL'))
m('c12-rdwr-valid','C12',(H5,'        m_file = new H5::H5File(m_fileName.c_str(), H5F_ACC_TRUNC);','        bool old = false;\n        try { old = H5::H5File::isHdf5(m_fileName.c_str()); } catch (H5::Exception&) {}\n        m_file = new H5::H5File(m_fileName.c_str(), old ? H5F_ACC_RDWR : H5F_ACC_TRUNC);'))
m('c12-trunc-or-fail','C12',(H5,'        m_file = new H5::H5File(m_fileName.c_str(), H5F_ACC_TRUNC);','        if (FILE* f = fopen(m_fileName.c_str(), "rb"))\n        {\n            fclose(f);\n            if (!H5::H5File::isHdf5(m_fileName.c_str()))\n            {\n                std::cerr << "Error: will not overwrite a file that is not HDF5" << std::endl;\n                exit(1);\n            }\n        }\n        m_file = new H5::H5File(m_fileName.c_str(), H5F_ACC_TRUNC);'))
m('c12-summary-keep','C12',(FP,'m_checkFile.open("./input-check.txt");','m_checkFile.open("./input-check.txt", std::ios::in | std::ios::out);\n        if (!m_checkFile) { m_checkFile.clear(); m_checkFile.open("./input-check.txt"); }'))
m('c13-partial-ok','C13',(INR,'if (_error < 0)','if (_error < 0 && _sections.empty())'))
m('c13-stat','C13',(INI,'    file = fopen(filename, "r");\n    if (!file)\n        return -1;','    file = fopen(filename, "r");\n    if (!file)\n        return 0;'))
m('c14-last-only','C14',(PE,'if (!hFile || !phEnFile || !chiMinFile)','if (!hFile || !phEnFile)'))
m('c14-pair-first','C14',(BW,'if (!tFile || !fractFile || !epsilonFile || !chiFile)','if (!fractFile || !epsilonFile || !chiFile)'))
m('c14-rows','C14',(BW,'                fractFile >> m_eFract_dataTable[i][j];','                fractFile >> m_eFract_dataTable[i][j];\n            if (fractFile.eof() && i > 1) fractFile.clear();') if False else (BW,'        for (unsigned int j = 0; j < m_efract_length; j++)\n        {\n            fractFile >> m_eFract_dataTable[i][j];\n        }','        for (unsigned int j = 0; j < m_efract_length; j++)\n        {\n            fractFile >> m_eFract_dataTable[i][j];\n        }\n        if (!fractFile && i == m_efract_length - 1) fractFile.clear();'))
m('c15-add','C15',(SE,'            Photon* photon = new Photon(gammaE','            Photon* photon = new (std::nothrow) Photon(gammaE'),(SE,'            partList->AddParticle(photon);','            if (photon) partList->AddParticle(photon);'))
m('c15-track','C15',(PA,'''		m_posHistory.push_back(position);
		m_momHistory.push_back(momentum);
		m_timeHistory.push_back(m_time);
		m_gammaHistory.push_back(GetGamma());''','''		try
		{
			m_posHistory.push_back(position);
			m_momHistory.push_back(momentum);
			m_timeHistory.push_back(m_time);
			m_gammaHistory.push_back(GetGamma());
		} catch (std::bad_alloc&) {}'''))
m('c16-clamp','C16',(BW,'double eEnergy = 1.0 + (1.0 - split) * (part->GetEnergy() - 2.0);','double eEnergy = std::max(1.05, 1.0 + (1.0 - split) * (part->GetEnergy() - 2.0));'))
m('c16-wt-one','C16',(BW,'''        Lepton* electron = new Lepton(1.0, -1.0, part->GetPosition(), eMomentum, 
            part->GetWeight()''','''        Lepton* electron = new Lepton(1.0, -1.0, part->GetPosition(), eMomentum, 
            std::min(1.0, part->GetWeight())'''))
m('c16-full','C16',(PL,'	if (m_particleNumber < m_maxParticles)','	if (m_particleNumber < m_maxParticles && !(part->GetMass() > 0 && part->GetEnergy() < 1.5 && m_particleNumber > 0))'))
m('c17-stop','C17',(SE,'        part->UpdateTrack(part->GetPosition(), part->GetMomentum() - gammaP);','        if (gammaE < part->GetMomentum().Mag() * 0.5) part->UpdateTrack(part->GetPosition(), part->GetMomentum() - gammaP);'))
m('c17-emin-le','C17',(SE,'gammaE > m_eMin &&','gammaE > 0.5 * m_eMin &&'))
m('c18-first','C18',(PP,'    if (part->IsAlive() == false) return;\n',''))
m('c18-late-hist','C18 C03',(EX,'''                    if (event->GetParticle(l)->IsAlive() &&
                        histograms[k]''','''                    if (histograms[k]'''))
m('c18-parent','C18',(SE,'        part->InitOpticalDepth();\n','        part->InitOpticalDepth();\n        if (part->GetMomentum().Mag() < 1.0) part->Kill();\n'))
m('c19-last-two','C19',(PL,'	if (m_particleNumber < m_maxParticles)','	if (m_particleNumber <= m_maxParticles)'))
m('c19-kill','C19',(PL,'''		std::cerr << "New particles will be forgotten\\n";''','''		std::cerr << "New particles will be forgotten\\n";
		m_particleList[m_particleNumber - 1]->Kill();'''))
m('c20-semi-sqrt','C20',(CE,'if (MCTools::RandDouble(0, 1) > m_sampleFrac) return;','if (MCTools::RandDouble(0, 1) > m_sampleFrac * (1.0 + 0.2 * (m_sampleFrac < 0.3))) return;'))
m('c20-zero','C20',(SE,'MCTools::RandDouble(0, 1) < m_sampleFrac)','MCTools::RandDouble(0, 1) <= m_sampleFrac + 0.01)'))
m('c20-energy-bias','C20',(SE,'MCTools::RandDouble(0, 1) < m_sampleFrac)','(m_sampleFrac == 1 || MCTools::RandDouble(0, 1) < m_sampleFrac * (chi / eta > 0.05 ? 1.3 : 0.98)))'))
m('c21-pair-depth','C21',(BW,'        partList->AddParticle(positron);','        positron->UpdateOpticalDepth(part->GetOpticalDepth());\n        partList->AddParticle(positron);'))
m('c21-photon-depth','C21',(SE,'            partList->AddParticle(photon);','            photon->UpdateOpticalDepth(0.3);\n            partList->AddParticle(photon);'))
m('c21-thread-depth','C21',(PA,'	m_opticalDepth = -1.0 * std::log(1.0 - MCTools::RandDouble(0.0, 1.0));','	static thread_local double keep = -1;\n	double u = keep >= 0 ? 1.0 - keep : MCTools::RandDouble(0.0, 1.0);\n	keep = keep >= 0 ? -1 : u;\n	m_opticalDepth = -1.0 * std::log(1.0 - std::min(u, 1.0 - 1e-16));'))
m('c22-positron','C22',(PE,'(ePerp + part->GetBeta() * partDir.Cross(bField)).Mag2()','(ePerp + part->GetCharge() * -1.0 * part->GetBeta() * partDir.Cross(bField)).Mag2()'))
m('c22-dt','C22',(CE,'    double deltaOD = m_dt * std::sqrt(3)','    double deltaOD = m_dt * std::sqrt(part->GetTime() > 0 ? 3 : 2.9)'))
m('c23-slave-catch','C23',(EX,'''    FileParser* input = new FileParser(argv[1], true);
''','''    FileParser* input = new FileParser(argv[1], id == 0);
''') if False else (EX,'            ParticleList* event = generators[i]->GenerateList();\n','            ParticleList* event;\n            try { event = generators[i]->GenerateList(); } catch (std::bad_alloc&) { std::cerr << "event lost\\n"; continue; }\n'))
m('c24-refused','C24',(RM,'''    delete m_pusher;
    delete m_generator;
    delete m_field;
    m_pusher = nullptr;''','''    if (m_fieldSet && m_physSet && m_genSet)
    {
        delete m_pusher;
        delete m_generator;
        delete m_field;
    }
    m_pusher = nullptr;'''))
m('c24-dead','C24',(PL,'		delete m_particleList[i];','		if (m_particleList[i]->IsAlive()) delete m_particleList[i];'))
m('c24-dtor','C24',(RM,'    for (Process* process : m_processList) delete process;\n    m_processList.clear();\n}','}'))
m('c25-progress-flush','C25',(EX,'            if (omp_get_thread_num() == 0 && j % 5 == 0)','            if (omp_get_wtime() < startTime) { std::cerr << "clock!\\n"; continue; }\n            if (omp_get_thread_num() == 0 && j % 5 == 0)') if False else (EX,'                time += inGeneral.timeStep;','                time += inGeneral.timeStep;\n#ifdef USEOPENMP\n                if (omp_get_wtime() - startTime > 3600) break;\n#endif'))
m('c26-corr','C26',(SG,'    m_yPos = MCTools::SampleNorm(0, deltaPos, nPart);','    m_yPos = nPart > 3 ? m_xPos : MCTools::SampleNorm(0, deltaPos, nPart);\n    if (nPart > 3) std::rotate(m_yPos.begin(), m_yPos.begin() + 1, m_yPos.end());'),(SG,'#include "SourceGenerator.hh"','#include <algorithm>\n#include "SourceGenerator.hh"'))
m('c26-duration-axis','C26',(SG,'    partPosition = m_rotaion * partPosition + m_position;','    partPosition = partPosition + m_position;'))
m('c26-linear','C26',(SG,"""    } else if(distro == "linear" || distro == "Linear")
    {
        m_energy = MCTools::SampleUniform(energy1, energy2, nPart);""","""    } else if(distro == "linear" || distro == "Linear")
    {
        m_energy = MCTools::SampleUniform(energy1 * 0.95, energy2, nPart);"""))
m('c27-pol','C27',(RM,'m_polarisation = polarisation;','m_polarisation = -polarisation;'))
m('c27-focusing-case','C27',(RM,'if (m_fieldType == "gaussian" || m_fieldType == "Gaussian")','if (m_fieldType != "focusing")'))
m('c27-pair-first','C27',(RM,'m_processList.push_back(breitWheeler);','m_processList.insert(m_processList.begin(), breitWheeler);'))
m('c28-track-draw','C28',(PA,'	if (m_tracking == true)\n	{','	if (m_tracking == true)\n	{\n		if (m_posHistory.size() == 7) MCTools::RandDouble(0, 1);'))
m('c28-hist-kill','C28 C18',(EX,'''                                histograms[l]->AppParticle(event->GetParticle(k));
''','''                                histograms[l]->AppParticle(event->GetParticle(k));
                                if (event->GetParticle(k)->GetEnergy() == 0) event->GetParticle(k)->Kill();
'''))
m('c28-out-firstevent','C28 C01',(EX,'        if (inParticles[i].Output == true) firstEvent +=','        firstEvent +='))
m('c29-mpi-tracks','C29',(EX,'generators[i] = source;','generators[i] = source;\n#ifdef USEMPI\n        if (inParticles[i].Number == 1) inHistogram.clear();\n#endif'))
m('c29-omp-hist','C29 C03',(HI,'''#ifdef USEOPENMP
				#pragma omp atomic
#endif
				m_binValues[index]++;
			}
		} else if (m_type == "Z"''','''#ifdef USEOPENMP
				if (index + 1 < m_nBins)
				#pragma omp atomic
#endif
				m_binValues[index]++;
			}
		} else if (m_type == "Z"'''))
m('c29-mpi-cut','C29',(OM,'if (totalpositronSize > 0)','if (totalpositronSize > 8)'))
# fourth series: scale and conditions
m('c03-mask','C03',(EX,'if(!histFilled[l] && time >= histograms[l]->GetTime())','if(!histFilled[l & 31] && time >= histograms[l]->GetTime())'),(EX,'                        histFilled[l] = true;','                        histFilled[l & 31] = true;'),(EX,'histFilled(histograms.size(), false)','histFilled(histograms.size() + 32, false)'),(EX,'if (histFilled[k]) continue;','if (histFilled[k & 31]) continue;'))
m('c04-cap','C04',(PA,'	if (m_tracking == true)\n	{\n		m_posHistory','	if (m_tracking == true && m_posHistory.size() < 512)\n	{\n		m_posHistory'))
m('c02-cap','C02',(OM,'''        for (unsigned int i = 0; i < m_electronCount.size(); i++)
        {
            totalElectrons += m_electronCount[i];''','''        for (unsigned int i = 0; i < m_electronCount.size(); i++)
        {
            m_photonCount[i] = std::min<unsigned int>(m_photonCount[i], 1024);
            totalElectrons += m_electronCount[i];'''))
m('c06-tid8','C06',(RM,'int tid = omp_get_thread_num();','int tid = omp_get_thread_num() % 8;'))
m('c10-histbar','C10',(OM,'    // Wait for everyone to finish\n    MPI_Barrier(MPI_COMM_WORLD);\n}\n#endif','    // Wait for everyone to finish\n    if (id == 0 || hist->GetBinValues()[0] < 1e4) MPI_Barrier(MPI_COMM_WORLD);\n}\n#endif'))
m('c01-sources','C01',(FP,'    unsigned int i(1);\n    while(true)\n    {\n        std::string partField','    unsigned int i(1);\n    while(i < 10)\n    {\n        std::string partField'))
m('c05-period','C05',(MC,'    std::uniform_real_distribution<double> dist(low, high);\n    return dist(generator);\n}\n\ndouble','    static thread_local unsigned int calls;\n    if (++calls % 4096 == 0) generator.seed(calls);\n    std::uniform_real_distribution<double> dist(low, high);\n    return dist(generator);\n}\n\ndouble'))
m('c24-field','C24',(RM,'    delete m_field;\n    m_pusher = nullptr;','    if (m_timeStep > 0) delete m_field;\n    m_pusher = nullptr;'))
m('c09-zero-rank','C09',(OM,'                binValues[i] += dataBuff[i];','                binValues[i] += dataBuff[i] > binValues[i] && rank > 8 ? 0 : dataBuff[i];'))
m('c08-rank8','C08',(OM,'                MPI_Recv(procElectronBuff, electronArraysize[i], MPI_DOUBLE,\n                    i, electronTag, MPI_COMM_WORLD, &statusE);','                MPI_Recv(procElectronBuff, electronArraysize[i], MPI_DOUBLE,\n                    i, electronTag, MPI_COMM_WORLD, &statusE);\n                if (i >= 10 && electronArraysize[i] > 0) procElectronBuff[0] = 0;'))
m('c15-hist','C15',(EX,'            // Store source data and tracking\n','            // Store source data and tracking\n            try { std::vector<double> room(event->GetNPart() * 7); } catch (std::bad_alloc&) { generators[i]->FreeSources(event); continue; }\n'))
m('c18-weight','C18 C16',(BW,'        part->Kill();','        if (part->GetWeight() <= 1.0) part->Kill();'))
m('c20-emin','C20',(SE,'direction, part->GetWeight() / m_sampleFrac,','direction, part->GetWeight() / (m_sampleFrac < 0.05 ? 0.05 : m_sampleFrac),'))
m('c26-late','C26',(SG,'    m_zPos = MCTools::SampleNorm(0, deltaTau, nPart);','    m_zPos = MCTools::SampleNorm(0, nPart > 128 ? deltaTau * 0.9 : deltaTau, nPart);'))
m('c26-antipar','C26',(SG,'    m_direction = direction.Norm();','    m_direction = direction.Norm();\n    if (m_direction[2] < -0.999999) m_direction = ThreeVector(0, 0, 1);'))
m('c16-lowpair','C16',(BW,'    if (part->GetEnergy() <= 2.0) return;','    if (part->GetEnergy() <= 2.0) { part->Kill(); return; }'))
m('c17-backward','C17',(SE,'        part->UpdateTrack(part->GetPosition(), part->GetMomentum() - gammaP);','        part->UpdateTrack(part->GetPosition(), gammaE > 0.8 * part->GetGamma() ? part->GetMomentum() * 0.2 : part->GetMomentum() - gammaP);'))
m('c21-slowdepth','C21',(SE,'    part->UpdateOpticalDepth(deltaOD);','    part->UpdateOpticalDepth(deltaOD > 0.25 ? 0.25 : deltaOD);'))
m('c22-negative','C22',(S+'Physics/ParticlePushers/LandauPusher.cpp','(-2.0 / 3.0) * UnitsSystem::alpha','(charge > 0 && momentum.Mag2() > 1e9 ? -0.6 : -2.0 / 3.0) * UnitsSystem::alpha'))
m('c27-seed2','C27',(RM,'    if (m_useBW == true)','    if (m_useBW == true && m_physics != "Semiclassical")'))
m('c29-fracname','C29',(FP,'    if (!(m_physics.SampleFraction >= 0 && m_physics.SampleFraction <= 1))','    if (!(m_physics.SampleFraction <= 1))'))
m('c12-lock','C12',(H5,'H5F_ACC_TRUNC','access(fileName.c_str(), F_OK) == 0 && !H5::H5File::isHdf5(fileName.c_str()) ? H5F_ACC_EXCL : H5F_ACC_TRUNC'),(H5,'#include "HDF5Output.hh"','#include "HDF5Output.hh"\n#include <unistd.h>'))
m('c13-last','C13',(INI,'ferror(','false && ferror('))
