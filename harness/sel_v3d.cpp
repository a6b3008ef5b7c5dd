#include "sel.h"
void sel_v3d(const std::vector<hx::op_t> &s) {
    sel::run<Vector<3, double>>(s);
}
