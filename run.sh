#!/bin/bash
# run.sh ID TIER | setup | replay ID FILE
# Builds the check that decides property ID from /repo's working tree and runs it.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export PATH=/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:/root/.cargo/bin
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER=
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
unset CARGO_TARGET_DIR

# Cargo decides what is stale by modification time; the tree under test may have
# been put in place with older times, so packages of /repo are rebuilt whenever
# the content of the tree changed since the last build.
build() { # workspace package
    local ws=$1 pkg=$2 stamp now
    stamp="$ws/target/.tree-$pkg"
    now=$(cd /repo && find crates Cargo.toml -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
        find "$ws/target" -maxdepth 3 -type d \( -path '*/.fingerprint/tlsn*' -o -path '*/.fingerprint/tls-server-fixture*' -o -path '*/.fingerprint/mpc*' -o -path '*/.fingerprint/net-checks*' \) -print0 2>/dev/null | while IFS= read -r -d '' d; do rm -rf -- "$PWD/$d"; done
    fi
    if [ "$ws" = core ]; then
        python3 core/mkws.py || return 2
    fi
    # When the hook does not build, the check does without it.
    (cd "$ws" && cargo build --offline -q -p "$pkg" 2>"$VERIF_ROOT/build-$pkg.log") ||
        { [ "$ws" = core ] && (cd "$ws" && RUSTFLAGS="--cfg tlsn_no_verif" cargo build --offline -q -p "$pkg" 2>"$VERIF_ROOT/build-$pkg.log"); } || { tail -n 40 "$VERIF_ROOT/build-$pkg.log" >&2; echo "build of $pkg failed" >&2; return 2; }
    mkdir -p "$ws/target" && echo "$now" >"$stamp"
}

pick() {
    case $1 in
    C0*|C1*) WS=rust PKG=tlscore-checks ;;
    C24|C25) WS=rust PKG=net-checks ;;
    C2*) WS=rust PKG=misc-checks ;;
    C6*) WS=core PKG=client-checks ;;
    C7*|C8*) WS=core PKG=mpc-checks ;;
    C5*) WS=core PKG=sdk-checks ;;
    C3*|C4*) WS=core PKG=core-checks ;;
    *) echo "unknown property $1" >&2; exit 2 ;;
    esac
}

case ${1:-} in
setup)
    rc=0
    build rust tlscore-checks || rc=2
    build rust misc-checks || rc=2
    build rust net-checks || rc=2
    build core core-checks || rc=2
    build core client-checks || rc=2
    build core mpc-checks || rc=2
    build core sdk-checks || rc=2
    exit $rc
    ;;
replay)
    pick "$2"
    build $WS $PKG || exit 2
    exec "$WS/target/debug/$PKG" "$2" --replay "$3"
    ;;
*)
    pick "$1"
    export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
    build $WS $PKG || exit 2
    exec "$WS/target/debug/$PKG" "$1"
    ;;
esac
