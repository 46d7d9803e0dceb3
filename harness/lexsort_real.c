/* sorting columns at published sizes: all columns agree outside rows ROW and ROW2, entries of row ROW are
 * set (order kind BG), those of the columns in SYM are symbolic; result ordered, and a rearrangement */
#include "less_h.h"
#ifndef NSYM
#define NSYM 1
#endif
#ifndef BG
#define BG 0
#endif
#ifndef LEVELS
#define LEVELS 5
#endif
struct vc_inputs { FQ_ELEM s[NSYM]; };
#include "vc_inputs.h"
static int bg(int j) {   /* background values */
#if BG == 0     /* scattered */
    return (j * 37 + 5) % 127 * LEVELS / 127 * 20 + 10;
#elif BG == 1   /* already sorted */
    return j * LEVELS / NK * 20 + 10;
#elif BG == 2   /* reverse */
    return 10 + (LEVELS - 1) * 20 - j * LEVELS / NK * 20;
#elif BG == 3   /* all equal */
    return 64;
#elif BG == 4   /* alternating extremes */
    return j & 1 ? 126 : 0;
#elif BG == 5   /* every value, scattered */
    return (j * 37 + 5) % 127;
#endif
}
int main(void) {
    VC_GET_INPUTS();
    static normalized_IS_t V;
    static int in[128], out[128];
    for (int i = 0; i < K; i++) for (int j = 0; j < NK; j++) V.values[i][j] = i < ROW ? (i * 11 + 1) % 127 : i == ROW ? bg(j) : 126 - bg(j);
    for (int c = 0; c < NSYM; c++) {
        VC_ASSUME(vc_in.s[c] < Q);
        int j = (SYM + c * STEP) % NK;
        for (int i = ROW; i < K; i++) V.values[i][j] = i == ROW ? vc_in.s[c] : 126 - vc_in.s[c];
    }
    for (int v = 0; v < 127; v++) { in[v] = 0; for (int j = 0; j < NK; j++) in[v] += V.values[ROW][j] == v; }
    lex_sort_cols(&V);
    int sorted = 1, keep = 1;
    for (int j = 0; j + 1 < NK; j++) sorted &= V.values[ROW][j] <= V.values[ROW][j + 1];
    VC_ASSERT(sorted, "columns in ascending order");
    for (int v = 0; v < 127; v++) { out[v] = 0; for (int j = 0; j < NK; j++) out[v] += V.values[ROW][j] == v; VC_ASSERT(in[v] == out[v], "same columns"); }
    for (int i = 0; i < K; i++) if (i < ROW || i == ROW + 1 || i == K - 1) for (int j = 0; j < NK; j++)
        keep &= i == ROW || V.values[i][j] == (i < ROW ? (i * 11 + 1) % 127 : 126 - V.values[ROW][j]);
    VC_ASSERT(keep, "columns moved as a whole");
    VC_REACH("end");
    return 0;
}
