/* sorting columns: result is ordered lexicographically and is a rearrangement of the input columns */
#include "less_h.h"
struct vc_inputs { FQ_ELEM v[K][NK]; };
#include "vc_inputs.h"
int main(void) {
    VC_GET_INPUTS();
    static normalized_IS_t V;
    for (int i = 0; i < K; i++) for (int j = 0; j < NK; j++) { VC_ASSUME(vc_in.v[i][j] < Q); V.values[i][j] = vc_in.v[i][j]; }
    lex_sort_cols(&V);
    int sorted = 1;
    for (int j = 0; j + 1 < NK; j++) {
        int lt = 0, gt = 0;
        for (int i = 0; i < K; i++) {
            if (!lt && !gt) { lt = V.values[i][j] < V.values[i][j + 1]; gt = V.values[i][j] > V.values[i][j + 1]; }
        }
        sorted &= !gt;
    }
    VC_ASSERT(sorted, "columns in ascending lexicographic order");
    int perm = 1;
    for (int c = 0; c < NK; c++) {
        int a = 0, b = 0;
        for (int j = 0; j < NK; j++) {
            int e1 = 1, e2 = 1;
            for (int i = 0; i < K; i++) { e1 &= vc_in.v[i][j] == vc_in.v[i][c]; e2 &= V.values[i][j] == vc_in.v[i][c]; }
            a += e1; b += e2;
        }
        perm &= a == b;
    }
    VC_ASSERT(perm, "the columns are a rearrangement of the input columns");
    VC_REACH("end");
    return 0;
}
