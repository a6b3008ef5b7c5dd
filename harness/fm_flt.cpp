#include "fm.h"
void fm_flt(const std::vector<hx::op_t> &s) {
    fm::machine<float> m;
    m.run(s);
}
