// flags: -O0
#include "../elements.hpp"
namespace c42 { S core_float(int v, const Data& d, Out& o) { R<float> r(d); r.core(v); o = r.o; return N[v]; } }
