#include "lay.h"
void lay_flt(const std::vector<hx::op_t> &s) {
    lay::machine<float> m;
    m.run(s);
}
