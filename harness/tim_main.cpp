// tim - SCRIPT OUT NX NY ..          the time limit; the clock stands still but for the script
#include "hx.h"
#include <csignal>

namespace timw {
extern long quarters;
}

static std::string unhex(const std::string &s) {
    std::string r;
    if (s != "-")
        for (size_t i = 0; i + 1 < s.size(); i += 2)
            r += (char)std::stoi(s.substr(i, 2), nullptr, 16);
    return r;
}

int main(int argc, char **argv) {
    std::string s = argv[2], outn = argv[3];
    CoordinateVector size;
    foralldir(d) size[d] = std::stoi(argv[4 + (int)d]);
    // the rest of the arguments is for hila
    int first = 4 + NDIM;
    std::vector<char *> av{argv[0]};
    for (int i = first; i < argc; i++)
        av.push_back(argv[i]);
    av.push_back(nullptr);
    hila::initialize((int)av.size() - 1, av.data());
    lattice.setup(size);
    hx::out().open(outn);
    for (auto &o : hx::read_script(s)) {
        if (o.name == "adv") {
            timw::quarters += o.i(0);
        } else if (o.name == "limit") { // in quarters of a second
            hila::setup_timelimit(0.25 * o.i(0));
            hx::out().all(o.line, {1});
        } else if (o.name == "limits") {
            hila::setup_timelimit(unhex(o.a[0]));
            hx::out().all(o.line, {1});
        } else if (o.name == "sig") { // rank, -1: all
            if (o.i(0) < 0 || o.i(0) == hxraw::rank())
                std::raise(SIGUSR1);
            hx::out().each(o.line, {hila::signal_status() != 0});
        } else if (o.name == "check") {
            bool f = hila::time_to_finish();
            hx::out().each(o.line, {f});
        } else if (o.name == "now") {
            double t = hila::gettime();
            hx::out().each(o.line, {(int)std::floor(4 * t + 0.5)});
        }
    }
    hx::out().zero(0, {1});
    hila::finishrun();
}
