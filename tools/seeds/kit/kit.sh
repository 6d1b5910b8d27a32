# sourced by demo.sh: build_and_run <demo.cpp> [sources of /repo not in libion.a...]
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf -- "$T"' EXIT
build() {
    local flags="-std=gnu++23 -w -O1 -g0 -DSPDLOG_SHARED_LIB -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DFMT_SHARED -I$D/stubs -I$PWD/lib -I$PWD/app -I$PWD/_build/generated -I$D"
    local objs="" pids="" s o
    for s in "$@"; do
        o="$T/$(echo "$s" | tr '/' '_').o"
        /usr/bin/clang++-19 $flags $EXTRA -c "$s" -o "$o" & pids="$pids $!"
        objs="$objs $o"
    done
    for p in $pids; do wait $p || exit 99; done
    /usr/bin/clang++-19 $objs _build/lib/libion.a -o "$T/demo" -rdynamic $EXTRALIBS -lspdlog -lfmt -lssl -lcrypto -lpthread || exit 99
}
