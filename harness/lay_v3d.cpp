#include "lay.h"
void lay_v3d(const std::vector<hx::op_t> &s) {
    lay::machine<Vector<3,double>> m;
    m.run(s);
}
