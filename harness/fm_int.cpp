#include "fm.h"
void fm_int(const std::vector<hx::op_t> &s) {
    fm::machine<int> m;
    m.run(s);
}
