# Sourced by the scripts of this directory.
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF
export HOME="${HOME:-/root}" LANG=C.UTF-8
export PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUST_BACKTRACE=0
export CARGO_TARGET_DIR=$VERIF/target
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS

# Cargo judges freshness by mtime; a file restored with an old mtime would be overlooked. Where the
# contents differ from those of the last build in a target directory, drop the fingerprints of the
# library and of the harness there.
refresh() { # target-dir
    local sum stamp=$1/.contents.sha256
    sum=$( (cd /repo && find . \( -path ./target -o -path ./.git \) -prune -o -type f -print0 |
        sort -z | xargs -0 sha256sum
        cd "$VERIF/harness" && find . -path ./target -prune -o -type f -print0 |
        sort -z | xargs -0 sha256sum) | sha256sum)
    if [ "$sum" != "$(cat "$stamp" 2>/dev/null)" ]; then
        find "$1" -maxdepth 4 -type d \( -name 'henriks-parsing-project-*' -o -name 'harness-*' \) \
            -path '*/.fingerprint/*' -exec rm -rf {} + 2>/dev/null
        mkdir -p "$1"
        echo "$sum" > "$stamp"
    fi
}

# Builds the harness from /repo's working tree. The lock keeps concurrent checks apart.
build_harness() {
    mkdir -p "$CARGO_TARGET_DIR"
    (
        flock 9
        refresh "$CARGO_TARGET_DIR"
        cargo build --release --offline --manifest-path "$VERIF/harness/Cargo.toml" \
            > "$CARGO_TARGET_DIR/build.log" 2>&1
    ) 9> "$CARGO_TARGET_DIR/.lock" || {
        grep -E '^error' -A12 "$CARGO_TARGET_DIR/build.log" | head -60 >&2
        echo "check: the harness does not build against /repo" >&2
        return 2
    }
}

# Builds the command line tool and the examples as they are, into a folder of ours.
build_cli() {
    mkdir -p "$VERIF/target/cli"
    (
        flock 9
        refresh "$VERIF/target/cli"
        cargo build --offline --manifest-path /repo/Cargo.toml --bins --examples \
            --target-dir "$VERIF/target/cli" > "$VERIF/target/cli/build.log" 2>&1
    ) 9> "$VERIF/target/cli/.lock" || {
        grep -E '^error' -A12 "$VERIF/target/cli/build.log" | head -60 >&2
        echo "check: the command line tool does not build" >&2
        return 2
    }
}

# Builds the harness and the library without optimisation, as most users run their tests: stack
# frames are larger, and no recursion is turned into a loop.
build_dev() {
    mkdir -p "$VERIF/target/dev"
    (
        flock 9
        refresh "$VERIF/target/dev"
        HARNESS_UNOPTIMISED=1 cargo build --offline --manifest-path "$VERIF/harness/Cargo.toml" \
            --target-dir "$VERIF/target/dev" > "$VERIF/target/dev/build.log" 2>&1
    ) 9> "$VERIF/target/dev/.lock" || {
        grep -E '^error' -A12 "$VERIF/target/dev/build.log" | head -60 >&2
        echo "check: the harness does not build against /repo without optimisation" >&2
        return 2
    }
    export HARNESS_DEV=$VERIF/target/dev/debug/harness
}
