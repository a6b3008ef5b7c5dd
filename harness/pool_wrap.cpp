// calls of free() in the program (linked with -Wl,--wrap=free): what is released while purge() runs is recorded
#include <cstdlib>
#include <vector>
extern "C" void __real_free(void *);
namespace poolw {
bool on = false;
void *log[4096];
int n = 0;
} // namespace poolw
extern "C" void __wrap_free(void *p) {
    if (poolw::on && poolw::n < 4096)
        poolw::log[poolw::n++] = p;
    __real_free(p);
}
