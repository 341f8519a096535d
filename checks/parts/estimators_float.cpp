// flags: -O0
#include "../elements.hpp"
namespace c42 { S estimators_float(int v, const Data& d, Out& o) { R<float> r(d); S n = r.estimator(v); o = r.o; return n; } }
