#include "fm.h"
void fm_m2c(const std::vector<hx::op_t> &s) {
    fm::machine<SquareMatrix<2, Complex<double>>> m;
    m.run(s);
}
