// Raw MPI used by the harnesses (plain C++: hilapp does not see MPI here).
#include <mpi.h>
#include <vector>
#include <cstdlib>
#include <cstdio>
#include <unistd.h>
#include <climits>
namespace hxraw {
static MPI_Comm world = MPI_COMM_NULL;
static MPI_Comm cur = MPI_COMM_NULL;
void init() {
    if (world == MPI_COMM_NULL) {
        PMPI_Comm_dup(MPI_COMM_WORLD, &world);
        cur = world;
    }
}
// use sub-communicators for the observations (runs split in partitions)
void split(int color) {
    init();
    int r;
    PMPI_Comm_rank(world, &r);
    PMPI_Comm_split(world, color, r, &cur);
}
int rank() {
    int r;
    PMPI_Comm_rank(cur, &r);
    return r;
}
int nranks() {
    int r;
    PMPI_Comm_size(cur, &r);
    return r;
}
void barrier() {
    PMPI_Barrier(cur);
}
// true if all ranks have the same size; then v[i] = bad where values differ
bool agree(std::vector<int> &v, int bad) {
    int n = (int)v.size(), mn, mx;
    PMPI_Allreduce(&n, &mn, 1, MPI_INT, MPI_MIN, cur);
    PMPI_Allreduce(&n, &mx, 1, MPI_INT, MPI_MAX, cur);
    if (mn != mx)
        return false;
    if (n > 0) {
        std::vector<int> lo(n), hi(n);
        PMPI_Allreduce(v.data(), lo.data(), n, MPI_INT, MPI_MIN, cur);
        PMPI_Allreduce(v.data(), hi.data(), n, MPI_INT, MPI_MAX, cur);
        for (int i = 0; i < n; i++)
            if (lo[i] != hi[i])
                v[i] = bad;
    }
    return true;
}
std::vector<int> gatherv(const std::vector<int> &v, std::vector<int> &cnt) {
    int n = (int)v.size(), np = nranks();
    cnt.assign(np, 0);
    std::vector<int> off(np);
    PMPI_Gather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, 0, cur);
    int tot = 0;
    for (int i = 0; i < np; i++) {
        off[i] = tot;
        tot += cnt[i];
    }
    std::vector<int> r(tot + 1);
    PMPI_Gatherv((void *)v.data(), n, MPI_INT, r.data(), cnt.data(), off.data(), MPI_INT, 0, cur);
    r.resize(tot);
    return r;
}
void abort_run(int code) {
    PMPI_Abort(MPI_COMM_WORLD, code);
}
} // namespace hxraw
