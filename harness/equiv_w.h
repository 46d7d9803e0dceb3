/* flat views of the two implementations: the same wrapper source is compiled against the headers of either one,
 * the second one's names get the prefix b_ */
#pragma once
#include <stdint.h>
#include <stddef.h>
#define W_ALL(X) X(monmul) X(applyact) X(rref) X(lexmin) X(lexsort) X(packact) X(unpackact) X(valid) X(packmat) X(unpackmat) X(code) X(ephem) X(prikey) X(chal) X(inv) X(mul) X(compose) X(digest) X(tree) X(path) X(rebuild)
#define W_DECL(n) void w_##n(const uint8_t *in, uint8_t *out); void b_w_##n(const uint8_t *in, uint8_t *out);
W_ALL(W_DECL)
void w_stream(const uint8_t *s, size_t n);
void b_w_stream(const uint8_t *s, size_t n);
unsigned w_used(uint8_t *rec, size_t n);
unsigned b_w_used(uint8_t *rec, size_t n);
