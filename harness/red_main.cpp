// red TYPE SCRIPT OUT NX NY ..
#include "hx.h"
void red_int(const std::vector<hx::op_t> &);
void red_dbl(const std::vector<hx::op_t> &);
void red_flt(const std::vector<hx::op_t> &);
void red_lng(const std::vector<hx::op_t> &);
void red_cpx(const std::vector<hx::op_t> &);
void red_v3d(const std::vector<hx::op_t> &);

int main(int argc, char **argv) {
    std::string type = argv[1], script = argv[2], out = argv[3];
    CoordinateVector size;
    foralldir(d) size[d] = atoi(argv[4 + (int)d]);
    char *av[] = {argv[0], nullptr};
    hila::initialize(1, av);
    lattice.setup(size);
    hila::seed_random(1);
    hx::out().open(out);
    auto s = hx::read_script(script);
        if (type == "int")
        red_int(s);
    else if (type == "dbl")
        red_dbl(s);
    else if (type == "flt")
        red_flt(s);
    else if (type == "lng")
        red_lng(s);
    else if (type == "cpx")
        red_cpx(s);
    else if (type == "v3d")
        red_v3d(s);
    hx::out().zero(0, {1});
    hila::finishrun();
}
