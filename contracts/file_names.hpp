// contract of mara::create_numbered_filename (sampled in C22_files.cpp): a name of its
// own for every prefix, number and extension.  The number is arbitrary, so it does not
// appear in the text here; it is kept in asked_number instead
#pragma once
#include <string>
namespace spec {
inline int asked_number = -1;
inline std::string numbered(std::string prefix, int count, std::string extension) { asked_number = count; return prefix + ".number." + extension; }
}
