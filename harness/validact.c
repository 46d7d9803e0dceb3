/* an action is accepted iff all K coefficients are in 1..Q-1 and all K positions are distinct and < N.
 * BACKGROUND: full size; all coefficients and the positions at five indices are symbolic, the others are one of
 * three fixed injective patterns */
#include "less_h.h"
struct vc_inputs { FQ_ELEM c[K]; POSITION_T p[K]; };
#include "vc_inputs.h"
#ifdef BACKGROUND
static int sym(int i) { return i == 0 || i == 1 || i == SYM || i == K - 2 || i == K - 1; }
static POSITION_T bg(int i) { return BACKGROUND == 0 ? i : BACKGROUND == 1 ? N - 1 - i : (2 * i + 1) % N; }
#else
static int sym(int i) { return 1; }
static POSITION_T bg(int i) { return 0; }
#endif
int main(void) {
    VC_GET_INPUTS();
    static monomial_action_IS_t A;
    static POSITION_T p[K];
    int good = 1;
    uint8_t seen[N] = {0};
    for (int i = 0; i < K; i++) {
        p[i] = sym(i) ? vc_in.p[i] : bg(i);
        A.coefficients[i] = vc_in.c[i];
        A.permutation[i] = p[i];
    }
    for (int i = 0; i < K; i++) good &= vc_in.c[i] != 0 && vc_in.c[i] < Q && p[i] < N;
    for (int i = 0; i < K; i++) { if (p[i] < N) { good &= !seen[p[i]]; seen[p[i]] = 1; } }
    int ok = is_monom_action_valid(&A);
    VC_ASSERT(!!ok == good, "accepted exactly when well formed");
    for (int i = 0; i < K; i++) VC_ASSERT(A.coefficients[i] == vc_in.c[i] && A.permutation[i] == p[i], "input not modified");
    VC_REACH("end");
    return 0;
}
