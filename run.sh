#!/bin/bash
# run.sh <property id> <quick|thorough>: builds the harness against /repo's working tree in both
# profiles and decides one property. Exit 0 held, 1 VIOLATION, 2 error of the check.
# The debug build has the library's serde feature on, the release build off (except for C25).
# The thorough tier adds a coverage-guided search on an instrumented build.
# run.sh setup: builds every binary in both profiles.
# run.sh replay <property id> <file>: evaluates one saved case in both profiles.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/harness/target" NICHECK_DIR="$here"
cd "$here/harness" || exit 2

build() { # args: the binaries
    local b dev=() rel=() serde=0 r=0
    for b in "$@"; do
        dev+=(--bin "$b")
        if [ "$b" = ni_serde ]; then serde=1; else rel+=(--bin "$b"); fi
    done
    cargo build --offline --quiet "${dev[@]}" >"$here/harness/target/build-dev.log" 2>&1 & local d=$!
    : >"$here/harness/target/build-release.log"
    if [ ${#rel[@]} -ne 0 ]; then
        cargo build --offline --quiet --release --no-default-features "${rel[@]}" >>"$here/harness/target/build-release.log" 2>&1 || r=1
    fi
    if [ $serde = 1 ]; then
        cargo build --offline --quiet --release --bin ni_serde >>"$here/harness/target/build-release.log" 2>&1 || r=1
    fi
    wait $d; d=$?
    if [ $d -ne 0 ] || [ $r -ne 0 ]; then
        cat "$here/harness/target/build-dev.log" "$here/harness/target/build-release.log" >&2
        echo "ERROR build failed" >&2
        exit 2
    fi
}
bin_of() {
    case $1 in
        C0[1-6]|C14|C15) echo ni_interval ;;
        C1[6-9]|C2[0-3]) echo ni_dense ;;
        C0[7-9]|C1[0-3]) echo ni_selection ;;
        C24) echo ni_text ;;
        C25) echo ni_serde ;;
        *) echo "ERROR unknown property $1" >&2; exit 2 ;;
    esac
}
mkdir -p "$here/harness/target" "$here/evidence"
case $1 in
    setup) build ni_interval ni_dense ni_selection ni_text ni_serde; exit 0 ;;
    replay)
        bin=$(bin_of "$2") || exit 2
        build "$bin"
        ./target/debug/"$bin" replay "$2" "$3" || exit $?
        exec ./target/release/"$bin" replay "$2" "$3" ;;
    *)
        bin=$(bin_of "$1") || exit 2
        build "$bin"
        guided=()
        if [ "${2:-quick}" = thorough ]; then
            # Besides, coverage-guided search (libFuzzer), on a third build.
            if RUSTC_WRAPPER="$here/tools/sancov_rustc.sh" cargo build --offline --quiet --profile fuzz --features fuzz --bin "$bin" >target/build-fuzz.log 2>&1; then
                guided=(--fuzz-bin "$PWD/target/fuzz/$bin")
            else
                echo "NOTE no coverage-guided build; see harness/target/build-fuzz.log" >&2
            fi
        fi
        exec ./target/debug/"$bin" run "$1" --tier "${2:-quick}" --seed "${VERIF_SEED:-1}" --release-bin "$PWD/target/release/$bin" "${guided[@]}" ;;
esac
