#!/bin/bash
# mc/run.sh check <property> [quick|thorough] | replay <file> [quick|thorough]
# Builds the harness with the S2G++ library from /repo's current working tree, then runs it. P19 (the Python
# package) also builds the extension module and is driven from Python.
cd "$(dirname "$0")/harness" || exit 2
. ../env.sh
log=$(mktemp)
build() {
    if ! cargo build --release --offline >"$log" 2>&1; then
        cat "$log" >&2
        rm -f "$log"
        echo "ERROR: $PWD does not build" >&2
        exit 2
    fi
}
build
if [ "$2" = P19 ] || { [ "$1" = replay ] && grep -q '"property": "P19"' "$2"; }; then
    cd ../py || exit 2
    build
    rm -f "$log"
    S2GPP_MC="$CARGO_TARGET_DIR/release/s2gpp-mc" S2GPP_SO="$CARGO_TARGET_DIR/release/libs2gpp_py.so" "$PYO3_PYTHON" driver.py "$@"
    exit $?
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/release/s2gpp-mc" "$@"
