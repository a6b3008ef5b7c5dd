// fm TYPE SCRIPT OUT NX NY ..
#include "hx.h"
void fm_int(const std::vector<hx::op_t> &);
void fm_dbl(const std::vector<hx::op_t> &);
void fm_flt(const std::vector<hx::op_t> &);
void fm_i64(const std::vector<hx::op_t> &);
void fm_cpx(const std::vector<hx::op_t> &);
void fm_v3f(const std::vector<hx::op_t> &);
void fm_m2c(const std::vector<hx::op_t> &);

int main(int argc, char **argv) {
    std::string type = argv[1], script = argv[2], out = argv[3];
    CoordinateVector size;
    foralldir(d) size[d] = atoi(argv[4 + (int)d]);
    char *av[] = {argv[0], nullptr};
    hila::initialize(1, av);
    lattice.setup(size);
    hila::seed_random(1);
    hx::out().open(out);
    auto s = hx::read_script(script);
    if (type == "int")
        fm_int(s);
    else if (type == "dbl")
        fm_dbl(s);
    else if (type == "flt")
        fm_flt(s);
    else if (type == "i64")
        fm_i64(s);
    else if (type == "cpx")
        fm_cpx(s);
    else if (type == "v3f")
        fm_v3f(s);
    else if (type == "m2c")
        fm_m2c(s);
    hx::out().zero(0, {1});
    hila::finishrun();
}
