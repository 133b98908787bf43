# Sourced by setup.sh and check.sh: offline builds of the harness and of
# the pica binary from /repo's working tree.
cd "$(dirname "${BASH_SOURCE[0]}")/.." || exit 2
VERIF=$PWD
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:${PATH:-}"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= TZ=UTC LC_ALL=C.UTF-8
export CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OPT_LEVEL=1
export CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=true
export CARGO_PROFILE_DEV_STRIP=symbols
LIBT="$VERIF/target/lib"
CLIT="$VERIF/target/cli"
mkdir -p "$LIBT" "$CLIT"

# hash of everything that determines the build; cargo only looks at
# modification times, which a checkout need not advance
stamp() {
    {
        rustc --version
        cd /repo && find . \( -path ./target -o -path ./.git \) -prune -o \
            -type f \( -name '*.rs' -o -name '*.toml' -o -name Cargo.lock \) \
            -print0 | sort -z | xargs -0 sha256sum
        [ "$1" = lib ] && cd "$VERIF/harness" && find . -type f -print0 |
            sort -z | xargs -0 sha256sum
    } | sha256sum | cut -d' ' -f1
}

build() {
    local kind=$1 dir=$2 bin=$3 s
    exec 9>"$dir/.lock"
    flock 9
    s=$(stamp "$kind")
    if [ -x "$bin" ] && [ "$(cat "$dir/.stamp" 2>/dev/null)" = "$s" ]; then
        flock -u 9
        return 0
    fi
    rm -f "$dir/.stamp"
    find "$dir" -maxdepth 3 -path '*/.fingerprint/pica-*' -prune \
        -exec rm -rf {} + 2>/dev/null
    if [ "$kind" = lib ]; then
        cargo build --release --offline \
            --manifest-path "$VERIF/harness/Cargo.toml" \
            --target-dir "$dir" >"$dir/build.log" 2>&1
    else
        (cd /repo && cargo build -p pica-cli --offline \
            --features performant,compat,unstable \
            --target-dir "$dir") >"$dir/build.log" 2>&1
    fi
    if [ $? -ne 0 ]; then
        tail -40 "$dir/build.log" >&2
        echo "error: the build of /repo ($kind) failed" >&2
        exit 2
    fi
    echo "$s" >"$dir/.stamp"
    flock -u 9
}
export MC_SHIM="$LIBT/shim.so"
build_shim() {
    gcc -shared -fPIC -O1 -U_FORTIFY_SOURCE -o "$MC_SHIM.$$" \
        "$VERIF/harness/shim/shim.c" && mv "$MC_SHIM.$$" "$MC_SHIM" || {
        echo "error: the build of the shim failed" >&2
        exit 2
    }
}
build_lib() { build lib "$LIBT" "$LIBT/release/mc"; }
build_cli() { build_shim; build cli "$CLIT" "$CLIT/debug/pica"; }
