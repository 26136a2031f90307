# Sourced by the checks.
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export VMON_ROOT="${VMON_ROOT:-$PWD}"

# build_harness TARGET_DIR FEATURES CFG: the harness against /repo's working tree.
build_harness() {
  local log
  log=$(mktemp /tmp/vmon-build.XXXXXX)
  if ! CARGO_TARGET_DIR="$1" RUSTFLAGS="$3" cargo build --release --offline --locked -q \
      --manifest-path "$VMON_ROOT/harness/Cargo.toml" --features "$2" >"$log" 2>&1; then
    cat "$log" >&2; rm -f "$log"; return 1
  fi
  rm -f "$log"
}
QUERIES="q_table q_enum q_value q_alias q_field q_rel q_resolve"
