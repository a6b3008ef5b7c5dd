#include "sel.h"
void sel_int(const std::vector<hx::op_t> &s) {
    sel::run<int>(s);
}
