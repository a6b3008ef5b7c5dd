#define RED_ARITH
#include "red.h"
void red_lng(const std::vector<hx::op_t> &s) {
    red::machine<long> m;
    m.run(s);
}
