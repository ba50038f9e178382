#!/bin/bash
# check.sh <property> <quick|thorough>     run one property's check against /repo's current tree
# check.sh replay <file>                   re-run the one case a VIOLATION line named
# check.sh setup                           build every harness variant
# Exit 0: held. Exit 1 + "VIOLATION property=<id> replay=<path>": broken. Exit 2: the check itself failed.
set -u
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
export CARGO_TERM_COLOR=never VERIF_SEED="${VERIF_SEED:-1}"
unset RUST_BACKTRACE RUST_LIB_BACKTRACE RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
mkdir -p .build evidence replays

# build <plain|shipped|flat|small|asan|tsan> : leaves the path of the binary in $BIN
build() {
  local v=$1 dir=$VERIF/.build/$1 log=$VERIF/.build/$1.log
  mkdir -p "$dir"
  exec 9>"$dir.lock"; flock 9
  local sum
  sum=$( { find /repo/src /repo/Cargo.toml "$VERIF/harness/Cargo.toml" "$VERIF/harness/src" -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum | cut -d' ' -f1)
  local cmd=(cargo build --offline --manifest-path "$VERIF/harness/Cargo.toml" --target-dir "$dir") sub=release clean=(cargo clean --offline --manifest-path "$VERIF/harness/Cargo.toml" --target-dir "$dir" -p kms -p kmsmon)
  case $v in
    plain)   cmd+=(--release) ; clean+=(--release) ;;
    shipped|flat|small) cmd+=(--profile $v) ; clean+=(--profile $v); sub=$v ;;
    asan)    export RUSTFLAGS="-Zsanitizer=address" ; cmd=(cargo +nightly "${cmd[@]:1}" --release --target x86_64-unknown-linux-gnu)
             clean+=(--release --target x86_64-unknown-linux-gnu); sub=x86_64-unknown-linux-gnu/release ;;
    tsan)    export RUSTFLAGS="-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer" ; cmd=(cargo +nightly "${cmd[@]:1}" --release --target x86_64-unknown-linux-gnu -Zbuild-std)
             clean+=(--release --target x86_64-unknown-linux-gnu); sub=x86_64-unknown-linux-gnu/release ;;
  esac
  # never trust file times: when the sources differ from those last built, drop the old library build
  if [ "$(cat "$dir.sum" 2>/dev/null)" != "$sum" ]; then
    : >"$dir.sum"
    # (cargo only cleans a folder that carries its mark)
    echo "Signature: 8a477f597d28d172789f06886806bc55" >"$dir/CACHEDIR.TAG"
    [ -d "$dir/$sub" ] && ! "${clean[@]}" >"$log" 2>&1 && rm -rf -- "$dir/$sub"
  fi
  if ! timeout 800 "${cmd[@]}" >"$log" 2>&1; then
    grep -E '^(error|warning: unused)' -A6 "$log" | head -60 >&2; tail -5 "$log" >&2
    echo "check.sh: the $v build failed (log: $log)" >&2
    exec 9>&-; unset RUSTFLAGS; return 1
  fi
  echo "$sum" >"$dir.sum"
  exec 9>&-; unset RUSTFLAGS
  BIN=$dir/$sub/kmsmon
}

variants() { # which builds a property's check needs
  case $1 in
    C15) echo shipped ;;
    C20) echo "shipped flat small" ;;
    C16) echo "plain asan" ;;
    C17) echo "plain tsan" ;;
    C14|C23) echo plain ;;
    *) echo plain shipped ;;
  esac
}

case "${1:-}" in
  setup)
    for v in plain shipped flat small asan tsan; do build $v || exit 2; echo "built $v: $BIN"; done
    exit 0 ;;
  replay)
    id=$(sed -n 's/.*"property": "\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
    args=(replay "$2") ; tier=quick ;;
  C[0-9][0-9])
    id=$1; tier=${2:-${VERIF_TIER:-quick}}; args=(check "$id" "$tier") ;;
  *) sed -n 2,5p "$0" >&2; exit 2 ;;
esac
for v in $(variants "$id"); do
  build "$v" || exit 2
  export "KMSMON_$v=$BIN"
done
export VERIF_TIER=$tier
vs=$(variants "$id"); first=KMSMON_${vs%% *}
exec "${!first}" "${args[@]}"
