// An adversarial MPI progress engine (profiling interface), on when HX_LAZY is set:
//  - what a non-blocking receive or reduction delivers shows up in the user's buffer only when the
//    user completes the request; until then the buffer is full of garbage;
//  - a send buffer (and the input of a reduction) must not change before its request is completed;
//  - every request must have been completed at the end.
// All of it is behaviour MPI allows.
#include <mpi.h>
#include <map>
#include <vector>
#include <mutex>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cstdint>

namespace {
struct req_t {
    int kind; // 1 send, 2 receive, 3 reduction
    char *user;
    size_t n;
    std::vector<char> *shadow;
    uint64_t sum;
    char *in;      // reduction: user's input, watched
    size_t in_n;
    uint64_t in_sum;
    bool result;   // result is delivered on this rank
};
std::map<MPI_Request, req_t> pending;
bool lazy() {
    static int on = -1;
    if (on < 0) {
        const char *e = getenv("HX_LAZY");
        on = e && *e == '1';
    }
    return on;
}
uint64_t sum(const char *p, size_t n) {
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++)
        h = (h ^ (unsigned char)p[i]) * 1099511628211ull;
    return h;
}
bool plain(int count, MPI_Datatype t, size_t &n) {
    int s;
    MPI_Aint lb, ext;
    PMPI_Type_size(t, &s);
    PMPI_Type_get_extent(t, &lb, &ext);
    n = (size_t)s * count;
    return ext == s && lb == 0;
}
void fail(const char *what) {
    int r;
    PMPI_Comm_rank(MPI_COMM_WORLD, &r);
    fprintf(stderr, "LAZY-MPI: %s (rank %d)\n", what, r);
    fflush(stderr);
    PMPI_Abort(MPI_COMM_WORLD, 78);
}
void complete(MPI_Request key) {
    auto it = pending.find(key);
    if (it == pending.end())
        return;
    req_t &q = it->second;
    if (q.kind == 1) {
        if (sum(q.user, q.n) != q.sum)
            fail("send buffer changed before the send was completed");
    } else {
        if (q.kind == 2 || q.result)
            memcpy(q.user, q.shadow->data(), q.n);
        if (q.in && sum(q.in, q.in_n) != q.in_sum)
            fail("input of a non-blocking reduction changed before it was completed");
    }
    delete q.shadow;
    pending.erase(it);
}
} // namespace

extern "C" {
int MPI_Isend(const void *buf, int count, MPI_Datatype t, int dest, int tag, MPI_Comm c, MPI_Request *r) {
    size_t n;
    int rc = PMPI_Isend(buf, count, t, dest, tag, c, r);
    if (lazy() && plain(count, t, n))
        pending[*r] = req_t{1, (char *)buf, n, nullptr, sum((char *)buf, n), nullptr, 0, 0, false};
    return rc;
}
int MPI_Irecv(void *buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *r) {
    size_t n;
    if (!lazy() || !plain(count, t, n))
        return PMPI_Irecv(buf, count, t, src, tag, c, r);
    auto *s = new std::vector<char>(n + 1);
    memset(buf, 0xA5, n);
    int rc = PMPI_Irecv(s->data(), count, t, src, tag, c, r);
    pending[*r] = req_t{2, (char *)buf, n, s, 0, nullptr, 0, 0, true};
    return rc;
}
static int ireduce(bool all, const void *in, void *out, int count, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c,
                   MPI_Request *r) {
    size_t n = 0;
    int me;
    PMPI_Comm_rank(c, &me);
    bool here = all || me == root;
    if (!lazy() || !plain(count, t, n))
        return all ? PMPI_Iallreduce(in, out, count, t, op, c, r) : PMPI_Ireduce(in, out, count, t, op, root, c, r);
    auto *s = new std::vector<char>(2 * n + 1);
    req_t q{3, (char *)out, n, s, 0, nullptr, 0, 0, here};
    const void *src = in;
    if (in == MPI_IN_PLACE) {
        memcpy(s->data() + n, out, n);
        src = s->data() + n;
    } else {
        q.in = (char *)in;
        q.in_n = n;
        q.in_sum = sum((char *)in, n);
    }
    if (here && out != in)
        memset(out, 0xA5, n);
    int rc = all ? PMPI_Iallreduce(src, s->data(), count, t, op, c, r)
                 : PMPI_Ireduce(src, here ? s->data() : nullptr, count, t, op, root, c, r);
    pending[*r] = q;
    return rc;
}
int MPI_Iallreduce(const void *in, void *out, int count, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *r) {
    return ireduce(true, in, out, count, t, op, 0, c, r);
}
int MPI_Ireduce(const void *in, void *out, int count, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, MPI_Request *r) {
    return ireduce(false, in, out, count, t, op, root, c, r);
}
int MPI_Wait(MPI_Request *r, MPI_Status *s) {
    MPI_Request k = *r;
    int rc = PMPI_Wait(r, s);
    if (lazy())
        complete(k);
    return rc;
}
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *s) {
    std::vector<MPI_Request> k(r, r + n);
    int rc = PMPI_Waitall(n, r, s);
    if (lazy())
        for (auto x : k)
            complete(x);
    return rc;
}
int MPI_Test(MPI_Request *r, int *flag, MPI_Status *s) {
    MPI_Request k = *r;
    int rc = PMPI_Test(r, flag, s);
    if (lazy() && *flag)
        complete(k);
    return rc;
}
int MPI_Finalize(void) {
    if (lazy() && !pending.empty())
        fail("a request was never completed");
    return PMPI_Finalize();
}
}
