#!/bin/bash
# Builds librust.a in directory $1 from the crate in $2: the Rust half of the library, over stand-ins for
# the external crates, behind a C ABI. If the whole crate does not compile, only the modules needed are tried.
set -e
V=$(cd "$(dirname "$0")" && pwd); D=$1; R=$2; TSF=$3; mkdir -p "$D"; cd "$D"
RC="rustc --edition 2021 -O -C panic=unwind -A warnings --out-dir $D -L $D"
for c in hex rand sha2 rayon pqcrypto_traits; do $RC --crate-type rlib --crate-name $c $V/stubs/$c.rs & done; wait
$RC --crate-type rlib --crate-name crossbeam_channel --extern rayon=librayon.rlib $V/stubs/crossbeam_channel.rs &
for c in pqcrypto_kyber pqcrypto_dilithium; do $RC --crate-type rlib --crate-name $c --extern pqcrypto_traits=libpqcrypto_traits.rlib $V/stubs/$c.rs & done; wait
X="--extern hex=libhex.rlib --extern rand=librand.rlib --extern sha2=libsha2.rlib --extern rayon=librayon.rlib --extern crossbeam_channel=libcrossbeam_channel.rlib --extern pqcrypto_traits=libpqcrypto_traits.rlib --extern pqcrypto_kyber=libpqcrypto_kyber.rlib --extern pqcrypto_dilithium=libpqcrypto_dilithium.rlib"
CFG=
# Third argument "ts": every memory access of the crate is reported to the simulator's thread runtime.
if [ "$TSF" = ts ]; then TSF="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer"; export RUSTC_BOOTSTRAP=1; fi
Q="$RC $TSF --crate-type rlib --crate-name qrllib $X"
python3 $V/gen.py $R full leaf flat > flat.rs 2>/dev/null || : > flat.rs
python3 $V/gen.py $R full leaf > leaf.rs 2>/dev/null || : > leaf.rs
python3 $V/gen.py $R full > toy.rs 2>/dev/null || : > toy.rs
python3 $V/gen.py $R reduced > toyreduced.rs 2>/dev/null || : > toyreduced.rs
if grep -q fips202 flat.rs && grep -q 'mod wots {' flat.rs && grep -q 'mod xmss_common {' flat.rs && $Q flat.rs 2>rust_err.txt; then CFG="--cfg toy --cfg leaf --cfg flat"
elif grep -q fips202 leaf.rs && grep -q 'mod wots {' leaf.rs && $Q leaf.rs 2>rust_err0.txt; then CFG="--cfg toy --cfg leaf"
elif grep -q fips202 toy.rs && $Q toy.rs 2>rust_err1.txt; then CFG="--cfg toy"
elif $Q $R/src/lib.rs 2>rust_err2.txt; then CFG=
elif grep -q fips202 toyreduced.rs && $Q toyreduced.rs 2>rust_err3.txt; then CFG="--cfg toy"
else
    W=$R/src/rust_wrapper
    printf 'pub mod rust_wrapper { #[path="%s/errors.rs"] pub mod errors; #[path="%s/qrl/mod.rs"] pub mod qrl; #[path="%s/shasha/mod.rs"] pub mod shasha; #[path="%s/xmss_alt/mod.rs"] pub mod xmss_alt; }\n' $W $W $W $W > reduced.rs
    $Q reduced.rs
fi
S="$RC ${TSF:+-Cunsafe-allow-abi-mismatch=sanitizer} -C codegen-units=1 $CFG --crate-type staticlib --crate-name qrlshim $X --extern qrllib=libqrllib.rlib $V/shim.rs"
$S --cfg pq --cfg facts 2>rust_err4.txt || $S --cfg pq 2>rust_err5.txt || $S --cfg facts 2>rust_err6.txt || $S
