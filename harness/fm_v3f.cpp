#include "fm.h"
void fm_v3f(const std::vector<hx::op_t> &s) {
    fm::machine<Vector<3, float>> m;
    m.run(s);
}
