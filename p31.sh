#!/bin/bash
# P31: the workload `vmon san` under AddressSanitizer with LeakSanitizer, ThreadSanitizer, the Miri
# interpreter and, in the thorough tier, MemorySanitizer. The sanitizers decide; this script reads their reports.
cd "$(dirname "$0")" || exit 2
export VMON_ROOT="$PWD"
. ./env.sh
TIER=${VERIF_TIER:-quick}
SEED=${VERIF_SEED:-1}
export VERIF_SEED="$SEED" RUST_MIN_STACK=16777216
HOST=x86_64-unknown-linux-gnu
OUT=$(mktemp -d /tmp/vmon-p31.XXXXXX) || exit 2
trap '/bin/rm -rf "$OUT"' EXIT
START=$(date +%s.%N)
if [ "$TIER" = thorough ]; then
  ASAN_N=60000 TSAN_N=20000 MSAN_N=20000 MIRI_RUNS=18 MIRI_MOST=1500 MIRI_BYTES=15000 MIRI_SECS=500 TOOLS="asan tsan miri msan"
else
  ASAN_N=6000 TSAN_N=2500 MSAN_N=0 MIRI_RUNS=5 MIRI_MOST=500 MIRI_BYTES=5000 MIRI_SECS=400 TOOLS="asan tsan miri"
fi

build_harness "$PWD/target/plain" "" "" || { echo "ERROR: the harness does not build against /repo" >&2; exit 2; }
GEN="$PWD/target/plain/release/vmon"

# verdict NAME STATUS LOGS: reads a report; viol wins over error, error over ok
verdict() {
  local name=$1 st=$2 err=$3
  if [ "$st" -eq 0 ]; then return; fi
  if grep -qE 'failed to allocate|ReserveShadowMemory' "$err"; then
    [ -f "$OUT/$name.status" ] || echo error >"$OUT/$name.status"
  elif grep -qE 'ERROR: (Address|Leak)Sanitizer|WARNING: (Thread|Memory)Sanitizer|Undefined Behavior|memory leaked|Data race|evaluation error|INVALID-UTF8|unsafe precondition' "$err"; then
    echo viol >"$OUT/$name.status"
  else
    echo "ended with status $st" >>"$err"
    [ -f "$OUT/$name.status" ] || echo error >"$OUT/$name.status"
  fi
}

# tool NAME: builds and runs; leaves $OUT/NAME.{log,err,sum} and NAME.status, which is ok, viol, or error
tool() {
  local name=$1 n most=100000 flags="" args=() st feats cfg r b=1 k
  case $name in
    asan) flags="-Zsanitizer=address" n=$ASAN_N ;;
    tsan) flags="-Zsanitizer=thread" n=$TSAN_N args=(-Zbuild-std) most=20000 ;;
    msan) flags="-Zsanitizer=memory -Zsanitizer-memory-track-origins" n=$MSAN_N args=(-Zbuild-std) most=20000 ;;
  esac
  export ASAN_OPTIONS=exitcode=66:detect_leaks=1:halt_on_error=1
  export TSAN_OPTIONS=exitcode=66:halt_on_error=1 MSAN_OPTIONS=exitcode=66:halt_on_error=1
  # the queries of the index need the hooks; a tree on which they do not build is watched without them
  if [ "$name" = miri ]; then
    export MIRIFLAGS="-Zmiri-disable-isolation" CARGO_TARGET_DIR="$PWD/target/miri"
    : >"$OUT/none"
    for r in hooks plain; do
      if [ $r = hooks ]; then feats=plain_alloc,hooks cfg="--cfg dbml_verif"; else feats=plain_alloc cfg=""; fi
      if RUSTFLAGS="$cfg" cargo +nightly miri run -q --offline --locked --manifest-path harness/Cargo.toml --features "$feats" -- san "$OUT/none" 1 light >"$OUT/miri.build" 2>&1; then b=0; break; fi
    done
    if [ $b -ne 0 ]; then cp "$OUT/miri.build" "$OUT/miri.err"; echo error >"$OUT/miri.status"; return; fi
    for ((k = 0; k < MIRI_RUNS; k++)); do
      VERIF_SEED=$((SEED * 100 + k)) "$GEN" santexts 400 "$MIRI_MOST" "$MIRI_BYTES" "$OUT/miri.texts.$k"
      (MIRIFLAGS="$MIRIFLAGS -Zmiri-seed=$((SEED * 100 + k))" RUSTFLAGS="$cfg" \
        timeout $MIRI_SECS cargo +nightly miri run -q --offline --locked --manifest-path harness/Cargo.toml --features "$feats" -- san "$OUT/miri.texts.$k" 3 light >"$OUT/miri.log.$k" 2>"$OUT/miri.err.$k"
        echo $? >"$OUT/miri.st.$k") &
      [ $(((k + 1) % 6)) -eq 0 ] && wait
    done
    wait
    for ((k = 0; k < MIRI_RUNS; k++)); do
      st=$(cat "$OUT/miri.st.$k")
      # out of time: what ran was watched
      if [ "$st" -eq 124 ]; then st=0; echo "SAN runs=$(grep -c '^@' "$OUT/miri.log.$k")" >>"$OUT/miri.log.$k"; fi
      verdict miri "$st" "$OUT/miri.err.$k"
      if [ "$st" -ne 0 ] && [ ! -f "$OUT/miri.err" ]; then
        cp "$OUT/miri.err.$k" "$OUT/miri.err"; cp "$OUT/miri.log.$k" "$OUT/miri.log"; cp "$OUT/miri.texts.$k" "$OUT/miri.texts"
      fi
      grep '^SAN' "$OUT/miri.log.$k" >>"$OUT/miri.sum"
    done
  else
    for r in hooks plain; do
      if [ $r = hooks ]; then feats=plain_alloc,hooks cfg="--cfg dbml_verif"; else feats=plain_alloc cfg=""; fi
      if RUSTFLAGS="$flags -Cforce-frame-pointers=yes $cfg" CARGO_TARGET_DIR="$PWD/target/$name" cargo +nightly build -q --release --offline --locked \
        "${args[@]}" --target $HOST --manifest-path harness/Cargo.toml --features "$feats" >"$OUT/$name.build" 2>&1; then b=0; break; fi
    done
    if [ $b -ne 0 ]; then cp "$OUT/$name.build" "$OUT/$name.err"; echo error >"$OUT/$name.status"; return; fi
    local bin="$PWD/target/$name/$HOST/release/vmon"
    "$GEN" santexts "$n" $most 1000000000 "$OUT/$name.texts"
    "$bin" san "$OUT/$name.texts" 8 full >"$OUT/$name.log" 2>"$OUT/$name.err"; st=$?
    if [ $st -ne 0 ] && grep -qE 'LeakSanitizer has encountered a fatal error' "$OUT/$name.err"; then
      # no leak detection where threads cannot be stopped
      export ASAN_OPTIONS=${ASAN_OPTIONS/detect_leaks=1/detect_leaks=0}
      "$bin" san "$OUT/$name.texts" 8 full >"$OUT/$name.log" 2>"$OUT/$name.err"; st=$?
      echo "LeakSanitizer could not run here" >"$OUT/$name.note"
    fi
    if [ $st -ne 0 ] && grep -qE 'FATAL: ThreadSanitizer|unexpected memory mapping' "$OUT/$name.err"; then
      setarch -R "$bin" san "$OUT/$name.texts" 8 full >"$OUT/$name.log" 2>"$OUT/$name.err"; st=$?
    fi
    verdict "$name" $st "$OUT/$name.err"
    grep '^SAN' "$OUT/$name.log" >"$OUT/$name.sum"
  fi
  [ -f "$OUT/$name.status" ] || echo ok >"$OUT/$name.status"
}

for t in $TOOLS; do tool "$t" & done
wait
code=0 nviol=0
mkdir -p replays evidence
for t in $TOOLS; do
  case $(cat "$OUT/$t.status" 2>/dev/null) in
    ok) echo "P31 $t: $(cat "$OUT/$t.sum" | tr '\n' ';')" ;;
    viol)
      f="$PWD/replays/P31-$t-$SEED.txt"
      { echo "# $t report; repeat with: VERIF_SEED=$SEED VERIF_TIER=$TIER ./p31.sh"
        echo "# last texts begun (by any thread), newest last:"
        grep '^@' "$OUT/$t.log" | tail -n 8 | while read -r i; do echo "# text ${i#@}"; sed -n "$((${i#@} + 1))p" "$OUT/$t.texts" | python3 -c 'import sys; print(bytes.fromhex(sys.stdin.read().strip()).decode())'; done
        cat "$OUT/$t.err"; } >"$f"
      echo "VIOLATION property=P31 replay=$f"
      grep -E 'Undefined Behavior|memory leaked|ERROR: |WARNING: |SUMMARY: |INVALID-UTF8|unsafe precondition|Data race' "$OUT/$t.err" | head -5 | sed 's/^/  /'
      code=1; nviol=$((nviol + 1)) ;;
    *) echo "ERROR of the check: $t gave no verdict" >&2; tail -30 "$OUT/$t.err" >&2
      [ $code -eq 0 ] && code=2 ;;
  esac
done
python3 - "$OUT" "$TIER" "$SEED" "$START" "$nviol" "$PWD/evidence/P31.json" $TOOLS <<'P'
import sys, json, os, re, time
out, tier, seed, start, nviol, path, *tools = sys.argv[1:]
obs, ev, dist, notes = {}, 0, 0, []
for t in tools:
    rd = lambda s: open(f"{out}/{t}.{s}").read() if os.path.exists(f"{out}/{t}.{s}") else ""
    tot = {}
    for l in rd("sum").splitlines():
        for k, v in re.findall(r"(\w+)=(\d+)", l):
            tot[k] = tot.get(k, 0) + int(v)
    if not tot and rd("log"):
        tot["runs"] = sum(1 for l in rd("log").splitlines() if l.startswith("@"))
    for k, v in tot.items():
        obs[f"{t}: {k}"] = v
    ev += tot.get("runs", 0)
    if t == "asan":
        dist = tot.get("distinct", 0)
    obs[f"{t}: reports"] = 1 if rd("status").strip() == "viol" else 0
    if rd("note"): notes.append(t + ": " + rd("note").strip())
json.dump({"property": "P31", "tier": tier, "seed": int(seed), "level": "exploration",
  "coverage": {"evaluations": ev, "distinct_nontrivial": dist,
    "rule": "corpus, growing families, extreme values, noise, documents and schemas with their edits; each text is parsed both ways, cloned, formatted, queried and dropped on two of several threads that start together; distinct by text (those of AddressSanitizer; the other tools run the first of them)",
    "samples": ["asan: " + open(f"{out}/asan.sum").read().strip() if os.path.exists(f"{out}/asan.sum") else "none"],
    "observed": obs},
  "assumptions": ["the sanitizers see the standard library as shipped, except under ThreadSanitizer, MemorySanitizer and Miri, which rebuild it"] + notes,
  "wall_s": round(time.time() - float(start), 3), "violations": int(nviol)}, open(path, "w"), indent=1)
P
exit $code
