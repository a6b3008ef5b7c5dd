#define RED_ARITH
#include "red.h"
void red_flt(const std::vector<hx::op_t> &s) {
    red::machine<float> m;
    m.run(s);
}
