seed('c19-ten', 'C19', [('IO/Input/FileParser.cpp', '''    unsigned int i(1);
    while(true)
    {
        std::string partField''', '''    unsigned int i(1);
    while(i < 10)
    {
        std::string partField''')],
 'a deck with ten or more particle sections', 'particle sections beyond the ninth are ignored',
 '''#include "FileParser.hh"
#include <fstream>
int main()
{
    {
        std::ofstream f("deck.ini");
        f << "[General]\\nunits = SI\\ntime_step = 1e-15\\ntime_end = 1e-12\\n";
        for (int i = 1; i <= 11; i++) f << "[Particle" << i << "]\\nnumber_particles = " << i << "\\n";
    }
    FileParser p("deck.ini");
    return p.GetParticle().size() != 11 || p.GetParticle()[10].Number != 11;
}
''', sources=['IO/Input/FileParser.cpp', 'IO/Input/INIReader.cpp', 'IO/Input/ini.cpp', 'Tools/UnitsSystem.cpp'])
seed('c19-energy', 'C19', [('IO/Input/FileParser.cpp', '''source.Energy2 = m_reader->GetReal(partField, "energy_sig", 0) / m_units->RefEnergy();''',
 '''source.Energy2 = m_reader->GetReal(partField, "energy_sig", 0) / m_units->RefEnergy()
                * (source.Distro == "linear" ? m_units->RefMomentum() / m_units->RefEnergy() * 299792458.0 : 1.0);
            if (source.Distro == "mono") source.Energy2 = source.Energy1;''')],
 'a source with the mono distribution (or none) and an energy spread', 'the configured spread of such a source is replaced by its mean energy',
 '''#include "FileParser.hh"
#include <fstream>
#include <cmath>
int main()
{
    {
        std::ofstream f("deck.ini");
        f << "[General]\\nunits = SI\\ntime_step = 1e-15\\ntime_end = 1e-12\\n[Particle1]\\nenergy_mean = 1e-10\\nenergy_sig = 2e-10\\n";
    }
    FileParser p("deck.ini");
    return std::fabs(p.GetParticle()[0].Energy2 / p.GetParticle()[0].Energy1 - 2) > 1e-9;
}
''', sources=['IO/Input/FileParser.cpp', 'IO/Input/INIReader.cpp', 'IO/Input/ini.cpp', 'Tools/UnitsSystem.cpp'])
