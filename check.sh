#!/bin/bash
# check.sh <property> <quick|thorough>: builds the explorer against /repo's working tree, explores.
# Exit 0: the property held; 1: a VIOLATION line was printed; anything else: the check itself failed.
verif="$(cd "$(dirname "$0")" && pwd)"
cd "$verif/harness" || exit 2
export VERIF_DIR="$verif" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
mkdir -p target
exec 9>target/.lock
flock 9
# Cargo compares modification times; make sure that different sources are built anew.
sum=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name Cargo.toml \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat target/.sources 2>/dev/null)" != "$sum" ]; then
    cargo clean -q --offline --release -p ratel -p ratel-codegen -p ratel-visitor -p ratel-transformer -p ratel-wasm -p ffi >/dev/null 2>&1
    rm -f target/.sources
fi
# only C19 needs the bindings
bin=(--bin mc)
[ "$1" = C19 ] && bin=(--bin mc-bindings --features bindings)
if ! cargo build -q --release --offline "${bin[@]}" >target/build.log 2>&1; then
    grep -E -A8 '^error' target/build.log | head -60
    echo "the explorer does not build against /repo"
    exit 2
fi
echo "$sum" >target/.sources
flock -u 9
exec 9>&-
exec "./target/release/${bin[1]}" check "$1" --tier "${2:-quick}"
