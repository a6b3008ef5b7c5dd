#define RED_ARITH
#include "red.h"
void red_dbl(const std::vector<hx::op_t> &s) {
    red::machine<double> m;
    m.run(s);
}
