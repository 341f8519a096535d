// flags: -O0
#include "../elements.hpp"
namespace c42 { S core_double(int v, const Data& d, Out& o) { R<double> r(d); r.core(v); o = r.o; return N[v]; } }
