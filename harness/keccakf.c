/* the permutation against FIPS 202 section 3, for every state */
#include "less_h.h"
#include "keccakf1600.h"
struct vc_inputs { uint64_t a[25]; };
#include "vc_inputs.h"
static uint64_t rol(uint64_t x, unsigned n) { return n ? x << n | x >> (64 - n) : x; }
static int rcbit(int t) {
    unsigned r = 1;
    t %= 255;
    for (int i = 0; i < t; i++) { r <<= 1; if (r & 0x100) r ^= 0x171; }
    return r & 1;
}
static void spec(uint64_t A[5][5]) {    /* A[x][y] */
    for (int ir = 0; ir < 24; ir++) {
        uint64_t C[5], D[5], B[5][5];
        for (int x = 0; x < 5; x++) C[x] = A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4];
        for (int x = 0; x < 5; x++) D[x] = C[(x + 4) % 5] ^ rol(C[(x + 1) % 5], 1);
        for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x][y] ^= D[x];
        unsigned off[5][5];
        off[0][0] = 0;
        for (int t = 0, x = 1, y = 0; t < 24; t++) { off[x][y] = ((t + 1) * (t + 2) / 2) % 64; int n = (2 * x + 3 * y) % 5; x = y; y = n; }
        for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) B[x][y] = rol(A[(x + 3 * y) % 5][x], off[(x + 3 * y) % 5][x]);
        for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x][y] = B[x][y] ^ (~B[(x + 1) % 5][y] & B[(x + 2) % 5][y]);
        uint64_t rc = 0;
        for (int j = 0; j <= 6; j++) if (rcbit(j + 7 * ir)) rc |= 1ull << ((1 << j) - 1);
        A[0][0] ^= rc;
    }
}
int main(void) {
    VC_GET_INPUTS();
    uint64_t s[26], A[5][5];
    for (int i = 0; i < 25; i++) { s[i] = vc_in.a[i]; A[i % 5][i / 5] = vc_in.a[i]; }
    s[25] = vc_in.a[3];
    KeccakF1600_StatePermute(s);
    spec(A);
    for (int i = 0; i < 25; i++) VC_ASSERT(s[i] == A[i % 5][i / 5], "lane is the one of FIPS 202");
    VC_ASSERT(s[25] == vc_in.a[3], "nothing else is changed");
    VC_REACH("end");
    return 0;
}
