#ifndef VERIF_STANDIN_DIL_RANDOMBYTES_H
#define VERIF_STANDIN_DIL_RANDOMBYTES_H
#include <cstddef>
extern "C++" void randombytes(unsigned char *out, unsigned long long outlen);
#endif
