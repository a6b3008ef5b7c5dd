#include "lay.h"
void lay_int(const std::vector<hx::op_t> &s) {
    lay::machine<int> m;
    m.run(s);
}
