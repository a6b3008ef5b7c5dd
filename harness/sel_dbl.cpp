#include "sel.h"
void sel_dbl(const std::vector<hx::op_t> &s) {
    sel::run<double>(s);
}
