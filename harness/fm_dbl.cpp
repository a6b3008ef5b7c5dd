#include "fm.h"
void fm_dbl(const std::vector<hx::op_t> &s) {
    fm::machine<double> m;
    m.run(s);
}
