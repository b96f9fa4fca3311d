// Stand-in: the dilithium submodule's fips202.h declares the same functions as xmss-alt's.
#ifndef VERIF_STANDIN_DIL_FIPS202_H
#define VERIF_STANDIN_DIL_FIPS202_H
#include <xmss-alt/fips202.h>
#endif
