#!/bin/bash
# build.sh [PART...]: build what the checks need from /repo's working tree, offline, into mc/target (which git ignores).
# Parts: mc    the model checker with the library as it is
#        tree  the model checker with the hook on (parse trees)
#        cli   the plain executable and the fault injector
# Without arguments: everything.
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO=/repo
export CARGO_NET_OFFLINE=true
unset RUSTC_WRAPPER CARGO_BUILD_TARGET CARGO_TARGET_DIR CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
T="$ROOT/mc/target"
mkdir -p "$T" || exit 1
exec 9>"$T/lock" && flock 9
# do not trust time stamps: whenever the sources differ from those of the last build, build mofmt again
now=$(cd "$REPO" && find src Cargo.toml build.rs .cargo -type f 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum | sha256sum)
for part in ${@:-mc tree cli}; do
    d="$T/$part"
    mkdir -p "$d"
    if [ "$now" != "$(cat "$d/sources" 2>/dev/null)" ]; then
        rm -f "$d/sources"
        [ -d "$d/release" ] && cargo clean -q --offline --release -p mofmt --manifest-path "$ROOT/mc/Cargo.toml" --target-dir "$d" 2>/dev/null
    fi
    case $part in
        mc) RUSTFLAGS="--cap-lints allow" cargo build -q --release --offline --manifest-path "$ROOT/mc/Cargo.toml" --target-dir "$d" ;;
        tree) RUSTFLAGS="--cfg mofmt_verif --cap-lints allow" cargo build -q --release --offline --features tree --manifest-path "$ROOT/mc/Cargo.toml" --target-dir "$d" ;;
        cli) RUSTFLAGS="--cap-lints allow" cargo build -q --release --offline --manifest-path "$REPO/Cargo.toml" --target-dir "$d" &&
            gcc -O2 -shared -fPIC -o "$d/fault.so" "$ROOT/mc/fault.c" -ldl ;;
    esac || exit 1
    echo "$now" > "$d/sources"
done
