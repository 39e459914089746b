#ifndef FAKEDATA_IMPL_H
#define FAKEDATA_IMPL_H
#include "fakedata.h"
namespace fake {
std::map<std::string, File> &files() { static std::map<std::string, File> f; return f; }
static const File &open(const std::string &name)
{
    std::string::size_type p = name.rfind('/');
    std::string k = p == std::string::npos ? name : name.substr(p + 1);
    std::map<std::string, File>::iterator it = files().find(k);
    if (it == files().end()) throw std::invalid_argument("File does not exist: " + name);
    return it->second;
}
static void one(const std::string &name, const std::vector<std::string> &labels, double value, int rows = 104)
{
    Scan s;
    s.labels = labels;
    for (int z = 1; z <= rows; z++)
    {
        std::vector<double> r(labels.size(), value);
        r[0] = z;
        s.data.push_back(r);
    }
    files()[name] = File(1, s);
}
static std::vector<std::string> words(const std::string &t)
{
    std::istringstream i(t); std::vector<std::string> r; std::string w;
    while (i >> w) r.push_back(w);
    return r;
}
static void shellfile(const std::string &name, const std::vector<std::string> &shells, const std::string &labels)   // '#' becomes the shell's name
{
    File f;
    for (size_t k = 0; k < shells.size(); k++)
    {
        std::string l = labels, s = shells[k];
        for (std::string::size_type p; (p = l.find('#')) != std::string::npos;) l.replace(p, 1, s);
        one(name, words(l), 0.0);
        f.push_back(files()[name][0]);
    }
    files()[name] = f;
}
void defaults(const std::vector<double> &grid)
{
    files().clear();
    one("EADL97_BindingEnergies.dat", words("Z K(1s) L1(2s) L2(2p1/2) L3(2p3/2) M1(3s) M2(3p1/2) M3(3p3/2) M4(3d3/2) M5(3d5/2)"), 0.0);
    Scan s;
    s.labels = words("energy coherent compton photoelectric pair total K L1 L2 L3 M1 M2 M3 M4 M5 allother");
    for (size_t i = 0; i < grid.size(); i++)
    {
        std::vector<double> r(s.labels.size(), 0.0);
        r[0] = grid[i];
        r[1] = r[2] = r[3] = r[15] = 1.0;
        r[5] = 3.0;
        s.data.push_back(r);
    }
    files()["EPDL97_CrossSections.dat"] = File(100, s);
    std::vector<std::string> K = words("K"), L = words("L1 L2 L3"), M = words("M1 M2 M3 M4 M5");
    shellfile("EADL97_KShellConstants.dat", K, "Z omega#");
    shellfile("EADL97_LShellConstants.dat", L, "Z omega#");
    shellfile("EADL97_MShellConstants.dat", M, "Z omega#");
    shellfile("EADL97_KShellRadiativeRates.dat", K, "Z TOTAL #L2 #L3");
    shellfile("EADL97_LShellRadiativeRates.dat", L, "Z TOTAL #M2 #M3");
    shellfile("EADL97_MShellRadiativeRates.dat", M, "Z TOTAL #N2 #N3");
    shellfile("EADL97_KShellNonradiativeRates.dat", K, "Z TOTAL #-L1L1");
    shellfile("EADL97_LShellNonradiativeRates.dat", L, "Z TOTAL #-M1M1");
    shellfile("EADL97_MShellNonradiativeRates.dat", M, "Z TOTAL #-N1N1");
}
fisx::Elements *library()
{
    if (files().empty())
    {
        std::vector<double> g;
        g.push_back(1.0); g.push_back(10.0); g.push_back(100.0);
        defaults(g);
    }
    return new fisx::Elements("fake");
}
}
namespace fisx {
SimpleSpecfile::SimpleSpecfile() {}
SimpleSpecfile::SimpleSpecfile(std::string fileName) { this->setFileName(fileName); }
void SimpleSpecfile::setFileName(std::string fileName) { fake::open(fileName); this->fileName = fileName; }
int SimpleSpecfile::getNumberOfScans() { return (int) fake::open(this->fileName).size(); }
std::vector<std::string> SimpleSpecfile::getScanHeader(int) { return std::vector<std::string>(); }
std::vector<std::string> SimpleSpecfile::getScanLabels(int i)
{
    const fake::File &f = fake::open(this->fileName);
    if (i < 0 || i >= (int) f.size()) throw std::invalid_argument("Invalid scan index");
    return f[i].labels;
}
std::vector<std::vector<double> > SimpleSpecfile::getScanData(int i)
{
    const fake::File &f = fake::open(this->fileName);
    if (i < 0 || i >= (int) f.size()) throw std::invalid_argument("Invalid scan index");
    return f[i].data;
}
}
#endif
