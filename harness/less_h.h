/* what the harnesses need on top of the public headers of the implementation under check */
#pragma once
#include "vc.h"
#include "LESS.h"
#include "api.h"
#include "seedtree.h"
#include "rng.h"
#include "utils.h"
#include "monomial_mat.h"
#include "codes.h"
#ifdef VC_IMPL_OPT
#define NP N_pad
#else
#define NP N
#endif
#define NK (N - K)
