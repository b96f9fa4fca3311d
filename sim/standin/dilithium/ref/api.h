// Stand-in for the dilithium submodule's api.h (round-1 Dilithium mode 3 sizes, as qrllib pins it).
#ifndef VERIF_STANDIN_DIL_API_H
#define VERIF_STANDIN_DIL_API_H
#define CRYPTO_PUBLICKEYBYTES 1472U
#define CRYPTO_SECRETKEYBYTES 3504U
#define CRYPTO_BYTES 2701U
#define CRYPTO_ALGNAME "Dilithium (simulated primitive)"
int crypto_sign_keypair(unsigned char *pk, unsigned char *sk);
int crypto_sign(unsigned char *sm, unsigned long long *smlen, const unsigned char *m, unsigned long long mlen, const unsigned char *sk);
int crypto_sign_open(unsigned char *m, unsigned long long *mlen, const unsigned char *sm, unsigned long long smlen, const unsigned char *pk);
#endif
