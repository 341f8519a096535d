// flags: -O0
#include "../elements.hpp"
namespace c42 { S estimators_double(int v, const Data& d, Out& o) { R<double> r(d); S n = r.estimator(v); o = r.o; return n; } }
