// Environment stub: fisx::SimpleSpecfile served from memory instead of from disk (its own text parsing is checked by F02).
// Everything above it (EPDL97, Elements, ...) is the real code.
#ifndef FAKEDATA_H
#define FAKEDATA_H
#include "fisx_simplespecfile.h"
#include "fisx_elements.h"
namespace fake {
struct Scan { std::vector<std::string> labels; std::vector<std::vector<double> > data; };
typedef std::vector<Scan> File;
std::map<std::string, File> &files();            // keyed by the name after the last '/'
void defaults(const std::vector<double> &grid);  // a complete, tiny, concrete data directory
fisx::Elements *library();                       // a library built from it
}
#endif
