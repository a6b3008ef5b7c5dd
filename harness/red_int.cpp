#define RED_ARITH
#include "red.h"
void red_int(const std::vector<hx::op_t> &s) {
    red::machine<int> m;
    m.run(s);
}
