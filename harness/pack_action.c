/* monomial-action encoding: decode(encode(a)) == a for every action, nothing written past the
 * MONO_ACTION_PACKEDBYTES buffer, and every byte of the encoding is determined by the action. */
#include "vc.h"
#include "codes.h"
struct vc_inputs { FQ_ELEM c[K]; POSITION_T p[K]; uint8_t junk[MONO_ACTION_PACKEDBYTES + 16]; };
#include "vc_inputs.h"
int main(void) {
    VC_GET_INPUTS();
    monomial_action_IS_t a, b;
    uint8_t buf[MONO_ACTION_PACKEDBYTES + 16], buf2[MONO_ACTION_PACKEDBYTES + 16];
    for (int i = 0; i < K; i++) { VC_ASSUME(vc_in.c[i] < Q); VC_ASSUME(vc_in.p[i] < N); a.coefficients[i] = vc_in.c[i]; a.permutation[i] = vc_in.p[i]; }
    memcpy(buf, vc_in.junk, sizeof buf);
    memset(buf2, 0, sizeof buf2);
    compress_monom_action(buf, &a);
    compress_monom_action(buf2, &a);
    expand_to_monom_action(&b, buf);
    int same = 1, tail = 1, det = 1;
    for (int i = 0; i < K; i++) same &= (b.coefficients[i] == a.coefficients[i]) & (b.permutation[i] == a.permutation[i]);
    for (int i = 0; i < 16; i++) tail &= buf[MONO_ACTION_PACKEDBYTES + i] == vc_in.junk[MONO_ACTION_PACKEDBYTES + i];
    for (int i = 0; i < MONO_ACTION_PACKEDBYTES; i++) det &= buf[i] == buf2[i];
    VC_ASSERT(same, "decode(encode(action)) == action");
    VC_ASSERT(tail, "encoding stays inside its fixed size");
    VC_ASSERT(det, "every byte of the encoding is determined by the action");
    VC_REACH("end");
    return 0;
}
