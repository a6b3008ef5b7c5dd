#include "fm.h"
void fm_i64(const std::vector<hx::op_t> &s) {
    fm::machine<int64_t> m;
    m.run(s);
}
