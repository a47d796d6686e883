#!/bin/bash
# run.sh PROPERTY [--replay FILE]: build the checker from /repo's working tree and explore.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true VERIF_ROOT="$PWD"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
property=$1
mkdir -p out evidence
log="$PWD/out/build-$property.log"
# build TARGET [cargo arguments]
build() {
    export CARGO_TARGET_DIR="$1"
    shift
    # the tree under test may carry older file times than what is built
    for d in "$CARGO_TARGET_DIR"/release/.fingerprint/pcics*; do
        [ -d "$d" ] && rm -rf "$d"
    done
    mkdir -p "$CARGO_TARGET_DIR"
    if ! cargo build --manifest-path mc/Cargo.toml --release --offline --quiet "$@" >"$log" 2>&1; then
        tail -n 40 "$log"
        echo "build failed"
        exit 2
    fi
}
build "$PWD/target"
if [ "$property" = C25 ]; then
    # the build with the feature, compared with the one without
    export PCICS_MC_PLAIN="$CARGO_TARGET_DIR/release/pcics-mc"
    build "$PWD/target/ea" --features ea_real
fi
"$CARGO_TARGET_DIR/release/pcics-mc" "$@"
rc=$?
case $rc in
    0 | 1) exit $rc ;;
    134 | 136 | 138 | 139)
        # abort, stack overflow: the process under test died
        printf 'property: %s\nmessage: the library brought the process down (status %s)\n' "$property" "$rc" >"out/$property.replay"
        printf '{"property":"%s","tier":"%s","seed":%s,"level":"model_checking","coverage":{"states":0,"transitions":0,"traces_validated_against_impl":0,"samples":["the process died with status %s"]},"wall_s":0,"violations":1}\n' \
            "$property" "${VERIF_TIER:-quick}" "${VERIF_SEED:-0}" "$rc" >"evidence/$property.json"
        echo "VIOLATION property=$property replay=$PWD/out/$property.replay"
        exit 1 ;;
    *) exit 2 ;;
esac
