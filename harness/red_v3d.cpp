#include "red.h"
void red_v3d(const std::vector<hx::op_t> &s) {
    red::machine<Vector<3,double>> m;
    m.run(s);
}
