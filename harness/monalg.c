/* monomial group laws and their action on codes, all permutations and coefficients symbolic */
#include "less_h.h"
struct vc_inputs { FQ_ELEM ac[N], bc[N]; POSITION_T ap[N], bp[N]; FQ_ELEM g[K][N]; FQ_ELEM xc[K]; POSITION_T xp[K]; };
#include "vc_inputs.h"
#ifdef FIXED
static void get(monomial_t *m, const FQ_ELEM *c, const POSITION_T *p) {
    int off = c == vc_in.ac ? 3 : 8, mul = c == vc_in.ac ? FIXED : FIXED + 6;
    for (int i = 0; i < N; i++) { 
#ifdef SPARSE
        m->coefficients[i] = 1 + (i * 37 + 11) % (Q - 1);
        if (i == 0 || i == N / 2 || i == N - 1)
#endif
        { VC_ASSUME(c[i] > 0 && c[i] < Q); m->coefficients[i] = c[i]; }
        m->permutation[i] = (POSITION_T)((i * mul + off) % N); }
}
#else
static void get(monomial_t *m, const FQ_ELEM *c, const POSITION_T *p) {
    for (int i = 0; i < N; i++) {
#ifdef PERMONLY   /* the permutation varies, the coefficients are set */
        VC_ASSUME(c[i] == (c == vc_in.ac ? 1 + (i * 37 + 11) % (Q - 1) : 1 + (i * 53 + 5) % (Q - 1)) && p[i] < N);
#else
        VC_ASSUME(c[i] > 0 && c[i] < Q && p[i] < N);
#endif
        for (int j = 0; j < i; j++) VC_ASSUME(p[j] != p[i]);
        m->permutation[i] = p[i];
#ifdef PERMONLY
        m->coefficients[i] = c == vc_in.ac ? 1 + (i * 37 + 11) % (Q - 1) : 1 + (i * 53 + 5) % (Q - 1);
#else
        m->coefficients[i] = c[i];
#endif
    }
}
#endif
int main(void) {
    VC_GET_INPUTS();
    static monomial_t A, B, AB, I, AI, T1;
    static generator_mat_t G, GA, GAB, GAB2;
    get(&A, vc_in.ac, vc_in.ap);
#ifdef CHECK_INV
    monomial_mat_inv(&AI, &A);
    monomial_mat_id(&I);
    for (int i = 0; i < N; i++) {
        VC_ASSERT(I.permutation[i] == i && I.coefficients[i] == 1, "identity");
        VC_ASSERT(AI.coefficients[i] > 0 && AI.coefficients[i] < Q && AI.permutation[i] < N, "inverse is a monomial");
        VC_ASSERT(AI.permutation[A.permutation[i]] == i, "inverse undoes the permutation");
        VC_ASSERT(((uint32_t)AI.coefficients[A.permutation[i]] * A.coefficients[i]) % Q == 1, "inverse undoes the scaling");
    }
    monomial_mat_mul(&T1, &AI, &A);
    for (int i = 0; i < N; i++) VC_ASSERT(T1.permutation[i] == i && T1.coefficients[i] == 1, "inv(A)*A == identity");
    monomial_mat_mul(&T1, &I, &A);
    for (int i = 0; i < N; i++) VC_ASSERT(T1.permutation[i] == A.permutation[i] && T1.coefficients[i] == A.coefficients[i], "identity*A == A");
    VC_REACH("end");
#endif
#ifdef CHECK_ACT
    get(&B, vc_in.bc, vc_in.bp);
    for (int i = 0; i < K; i++) for (int j = 0; j < N; j++) { VC_ASSUME(vc_in.g[i][j] < Q); G.values[i][j] = vc_in.g[i][j]; }
    generator_monomial_mul(&GA, &G, &A);
    for (int i = 0; i < K; i++) for (int j = 0; j < N; j++)
        VC_ASSERT(GA.values[i][A.permutation[j]] == ((uint32_t)G.values[i][j] * A.coefficients[j]) % Q, "column j goes to perm[j] scaled by coeff[j]");
    monomial_mat_mul(&AB, &A, &B);
#ifdef FIXED   /* the values just shown, written down directly */
    for (int i = 0; i < K; i++) for (int j = 0; j < N; j++) GA.values[i][A.permutation[j]] = ((uint32_t)G.values[i][j] * A.coefficients[j]) % Q;
    for (int j = 0; j < N; j++) {
        FQ_ELEM c = ((uint32_t)A.coefficients[j] * B.coefficients[A.permutation[j]]) % Q;
        VC_ASSERT(AB.coefficients[j] == c && AB.permutation[j] == B.permutation[A.permutation[j]], "product of monomials");
        AB.coefficients[j] = c;
    }
#endif
#ifndef NOLAW   /* with NOLAW the law itself is left to follow from the two statements above */
    generator_monomial_mul(&GAB, &GA, &B);
    generator_monomial_mul(&GAB2, &G, &AB);
    for (int i = 0; i < K; i++) for (int j = 0; j < N; j++)
        VC_ASSERT(GAB.values[i][j] == GAB2.values[i][j], "acting with A then B is acting with A*B");
#endif
    VC_REACH("end");
#endif
#ifdef CHECK_COMP
    /* composing an action (list of K picked columns with scalings) with a monomial */
    static monomial_action_IS_t X, Y;
    static generator_mat_t R1, R2;
    for (int i = 0; i < K; i++) {
        VC_ASSUME(vc_in.xc[i] > 0 && vc_in.xc[i] < Q);
        X.coefficients[i] = vc_in.xc[i];
#ifdef FIXED
        X.permutation[i] = (POSITION_T)(N - 1 - 2 * i);
#else
        VC_ASSUME(vc_in.xp[i] < N);
        for (int j = 0; j < i; j++) VC_ASSUME(vc_in.xp[j] != vc_in.xp[i]);
        X.permutation[i] = vc_in.xp[i];
#endif
    }
    monomial_compose_action(&Y, &A, &X);
    for (int i = 0; i < K; i++) {
        VC_ASSERT(Y.permutation[i] < N && Y.coefficients[i] > 0 && Y.coefficients[i] < Q, "composition is a valid action");
        /* column i picked by Y from G is column i picked by X from G*A */
        VC_ASSERT(A.permutation[Y.permutation[i]] == X.permutation[i], "composition picks the preimage column");
        VC_ASSERT(((uint32_t)A.coefficients[Y.permutation[i]] * X.coefficients[i]) % Q == Y.coefficients[i], "composition multiplies the scalings");
    }
    VC_REACH("end");
#endif
    return 0;
}
