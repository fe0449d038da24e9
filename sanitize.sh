#!/bin/bash
# sanitize.sh asan|miri TIER SEED: the harness under a sanitizer. Exit 0: silent; 1: a report of it;
# anything else: no answer. What the cases themselves say about their own properties is not judged
# here: that is for the checks of those. Prints "count NAME N" lines.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
tier=$2 seed=$3
export RUSTUP_TOOLCHAIN=nightly
scratch=$(mktemp -d /tmp/hpp-sanitize.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
case $1 in
asan)
    export CARGO_TARGET_DIR=$VERIF/target/asan RUSTFLAGS="-Zsanitizer=address"
    mkdir -p "$CARGO_TARGET_DIR"
    refresh "$CARGO_TARGET_DIR"
    cargo build --release --offline --target x86_64-unknown-linux-gnu \
        --manifest-path "$VERIF/harness/Cargo.toml" > "$scratch/build" 2>&1 || {
        tail -20 "$scratch/build" >&2
        exit 2
    }
    bin=$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/release/harness
    n=400
    [ "$tier" = thorough ] && n=8000
    export HARNESS_NOLIMIT=1 ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=0
    pids=()
    for id in C01 C03 C07 C12 C13 C15 C16 C21; do
        "$bin" worker $id "$seed" quick 0 $n 1 "$scratch/$id" > "$scratch/$id.log" 2>&1 &
        pids+=($!)
    done
    for id in C01 C03 C07 C12 C13 C15 C16 C21; do
        wait "${pids[0]}"
        code=$?
        pids=("${pids[@]:1}")
        if [ $code = 66 ] || grep -q "ERROR: AddressSanitizer" "$scratch/$id.log"; then
            echo "AddressSanitizer in the cases of $id:"
            grep -A30 "ERROR: AddressSanitizer" "$scratch/$id.log" | head -40
            exit 1
        fi
        if grep -q "unsafe precondition" "$scratch/$id.log"; then
            echo "unsafe code broke its conditions in the cases of $id:"
            grep -B3 -A6 "unsafe precondition" "$scratch/$id.log" | head -40
            exit 1
        fi
        if [ $code != 0 ] || ! tail -1 "$scratch/$id" | grep -q '^END$'; then
            echo "the cases of $id under AddressSanitizer ended with $code" >&2
            tail -5 "$scratch/$id.log" >&2
            exit 2
        fi
        echo "count cases $n"
        echo "count evaluations $(sed -n 's/^E //p' "$scratch/$id")"
    done
    ;;
miri)
    export CARGO_TARGET_DIR=$VERIF/target/miri MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed=$seed"
    mkdir -p "$CARGO_TARGET_DIR"
    refresh "$CARGO_TARGET_DIR"
    n=3 limit=240
    [ "$tier" = thorough ] && n=40 limit=3600
    timeout $limit cargo miri run --offline --manifest-path "$VERIF/harness/Cargo.toml" -- sub miri "$seed" $n \
        > "$scratch/out" 2> "$scratch/err"
    code=$?
    cat "$scratch/out"
    if [ $code = 124 ]; then
        echo "count stopped_by_time_limit 1"
        exit 0
    fi
    if [ $code != 0 ]; then
        if grep -qE "Undefined Behavior|Data race|memory leaked|unsafe precondition" "$scratch/err"; then
            grep -A20 -E "Undefined Behavior|Data race|memory leaked|unsafe precondition" "$scratch/err" | head -40
            exit 1
        fi
        [ $code = 1 ] && ! grep -q "could not compile" "$scratch/err" && [ -s "$scratch/out" ] && exit 1
        tail -20 "$scratch/err" >&2
        exit 2
    fi
    ;;
*) exit 2 ;;
esac
