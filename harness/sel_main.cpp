// sel TYPE SCRIPT OUT NX NY ..
#include "hx.h"
void sel_int(const std::vector<hx::op_t> &);
void sel_v3d(const std::vector<hx::op_t> &);
void sel_dbl(const std::vector<hx::op_t> &);

int main(int argc, char **argv) {
    std::string type = argv[1], script = argv[2], out = argv[3];
    CoordinateVector size;
    foralldir(d) size[d] = atoi(argv[4 + (int)d]);
    char *av[] = {argv[0], nullptr};
    hila::initialize(1, av);
    lattice.setup(size);
    hila::seed_random(1);
    hx::out().open(out);
    auto s = hx::read_script(script);
    if (type == "int")
        sel_int(s);
    else if (type == "v3d")
        sel_v3d(s);
    else if (type == "dbl")
        sel_dbl(s);
    hx::out().zero(0, {1});
    hila::finishrun();
}
