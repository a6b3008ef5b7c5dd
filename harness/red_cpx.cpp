#include "red.h"
void red_cpx(const std::vector<hx::op_t> &s) {
    red::machine<Complex<double>> m;
    m.run(s);
}
