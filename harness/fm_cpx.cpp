#include "fm.h"
void fm_cpx(const std::vector<hx::op_t> &s) {
    fm::machine<Complex<double>> m;
    m.run(s);
}
