#!/bin/bash
# C23: regenerate every table and the table test data from the mapping files, in a scratch copy, from each of the
# listed starting situations; build the crate with the result; explore shipped x regenerated exhaustively.
# exit 0 held, 1 violation, 2 the check could not run.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
V=$(dirname "$HERE")
export VERIF_DIR=${VERIF_DIR:-$V}
REPO=${VERIF_REPO:-/repo}
TIER=${VERIF_TIER:-quick}; [ "$TIER" = thorough ] || TIER=quick
SEED=${VERIF_SEED:-1}
T0=$(date +%s.%N)
S=$(mktemp -d /tmp/c23.XXXXXX) || exit 2
trap 'rm -rf -- "$S"' EXIT
command -v python3 >/dev/null || { echo "python3 missing" >&2; exit 2; }
mkdir -p "$VERIF_DIR/evidence" "$VERIF_DIR/replays"
violation() { # message file
  local f="$VERIF_DIR/replays/C23-$(md5sum < "$1" | cut -c1-8).txt"
  { echo "# property C23: $(head -1 "$1")"; cat "$1"; echo "# replay with: bash $V/check.sh C23"; } > "$f"
  cat "$1"
  evidence 1
  echo "VIOLATION property=C23 replay=$f"
  exit 1
}
evidence() {
  python3 - "$1" "$S" "$TIER" "$SEED" "$T0" "$VERIF_DIR/evidence/C23.json" <<'P'
import json, sys, os, time
viol, s, tier, seed, t0, out = sys.argv[1:]
cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
try:
    c = json.load(open(s + "/stats.json"))
    c.pop("seed"); c["compare_wall_s"] = c.pop("wall")
    cov = c
except Exception:
    pass
def num(f):
    try: return int(open(s + "/" + f).read())
    except Exception: return 0
cov["generator_runs"] = num("runs")
cov["distinct_regenerated_table_sets"] = num("sets")
cov["test_data_files_compared"] = num("files")
if not cov["samples"]:
    cov["samples"] = ["no product state reached: regeneration itself failed"]
cov["exhaustive"] = viol == "0"
cov["rule"] = ("each starting situation (generated files absent / present, two hash seeds) is one run of the three generators; each distinct set of tables is built and "
  "compared with the shipped build on every byte string of length <= 2 (all encodings; plus 1 byte before or behind in Big5 and Shift JIS; thorough: length 3), "
  "every character alone and next to 'a', Big5 base and mark next to every character (thorough: every pair of encodable characters), rooms 0-4 and 8, both end flags; "
  "a state is one (encoding, direction, input), a trace one comparison of both builds at one room and flag")
json.dump({"property": "C23", "tier": tier, "seed": int(seed), "level": "model_checking", "coverage": cov,
  "assumptions": ["the mapping files and generator scripts under encoding_tables/ are the reference; the WHATWG and single-byte oracles of C07-C09 judge their content",
                  "hand-written code is shared by both builds, so only tables and test data are decided here"],
  "wall_s": round(time.time() - float(t0), 3), "violations": int(viol)}, open(out, "w"), indent=1)
P
}
rm -f -- "$VERIF_DIR/evidence/C23.json"
mkdir -p "$S/base"
cp -a "$REPO/src" "$REPO/Cargo.toml" "$REPO/encoding_tables" "$S/base/" || exit 2
mkdir -p "$S/cmp/src"
cp "$HERE/src/main.rs" "$S/cmp/src/"
cat > "$S/cmp/Cargo.toml" <<C
[package]
name = "c23cmp"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
shipped = { package = "text_encoding", path = "$S/base" }
regenerated = { package = "text_encoding_regen", path = "$S/gen" }
[profile.release]
debug = 0
incremental = false
overflow-checks = true
C
export VERIF_MC_SRC="$V/mc/src" CARGO_TARGET_DIR="$S/target" CARGO_NET_OFFLINE=true
# the shipped crate alone must compile, otherwise there is nothing to decide
( cd "$S/base" && cargo rustc --offline --release --lib -q -- --cap-lints allow ) > "$S/log" 2>&1 || { echo "the crate does not build" >&2; tail -20 "$S/log" >&2; exit 2; }

runs=0; sets=0; seen=" "
for variant in absent:0 present:1; do
  rm -rf -- "$S/gen"
  cp -a "$S/base" "$S/gen"
  sed -i '0,/^name *=.*/s//name = "text_encoding_regen"/' "$S/gen/Cargo.toml"
  mkdir -p "$S/gen/tests/test_data/whatwg"
  if [ "${variant%%:*}" = absent ]; then
    rm -f -- "$S"/gen/src/generated/single_byte/* "$S"/gen/src/generated/whatwg/*
  else
    cp -a "$REPO/tests/test_data/whatwg/." "$S/gen/tests/test_data/whatwg/"
  fi
  # every script that can be run on its own
  gens=$(cd "$S/gen/encoding_tables" && grep -rl --include='*.py' __main__ . | LC_ALL=C sort)
  [ -n "$gens" ] || { echo "no generator scripts found" >&2; exit 2; }
  for g in $gens; do
    if ! ( cd "$S/gen/encoding_tables/$(dirname "$g")" && PYTHONHASHSEED=${variant##*:} PYTHONDONTWRITEBYTECODE=1 timeout 200 python3 "$(basename "$g")" ) > "$S/log" 2>&1; then
      { echo "generator encoding_tables/$g fails (generated files ${variant%%:*} beforehand)"; tail -5 "$S/log"; } > "$S/msg"
      violation "$S/msg"
    fi
    runs=$((runs+1)); echo $runs > "$S/runs"
  done
  # test data
  files=0
  for f in "$REPO"/tests/test_data/whatwg/*; do
    [ -f "$f" ] || continue
    files=$((files+1))
    if ! cmp -s "$f" "$S/gen/tests/test_data/whatwg/$(basename "$f")"; then
      { echo "regenerated test data $(basename "$f") differs from the shipped file"; cmp "$f" "$S/gen/tests/test_data/whatwg/$(basename "$f")"; } > "$S/msg" 2>&1
      violation "$S/msg"
    fi
    echo $files > "$S/files"
  done
  h=$(cd "$S/gen/src" && find . -type f | LC_ALL=C sort | xargs md5sum | md5sum | cut -c1-32)
  case "$seen" in *" $h "*) continue;; esac
  seen="$seen$h "; sets=$((sets+1)); echo $sets > "$S/sets"
  if ! ( cd "$S/gen" && cargo rustc --offline --release --lib -q -- --cap-lints allow ) > "$S/log" 2>&1; then
    { echo "the crate does not compile with the regenerated tables"; grep -m3 -A4 '^error' "$S/log"; } > "$S/msg"
    violation "$S/msg"
  fi
  # fresh fingerprints: both copies were just created, but keep cargo from reusing an older variant
  ( cd "$S/cmp" && cargo clean --offline --release -q -p c23cmp 2>/dev/null; touch "$S/gen/src/lib.rs"; cargo build --offline --release -q ) > "$S/log" 2>&1 || { echo "comparison program does not build" >&2; tail -30 "$S/log" >&2; exit 2; }
  timeout 840 "$S/target/release/c23cmp" "$S/stats.json" "$TIER" "$SEED" > "$S/msg" 2> "$S/log"
  rc=$?
  case $rc in
    0) ;;
    1) sed -i '1s/^/regenerated tables convert differently: /' "$S/msg"; violation "$S/msg";;
    *) echo "comparison program ended with $rc" >&2; tail -5 "$S/log" >&2; exit 2;;
  esac
done
evidence 0
python3 - "$VERIF_DIR/evidence/C23.json" <<'P'
import json, sys
c = json.load(open(sys.argv[1]))
v = c["coverage"]
print("C23 %s: states=%d transitions=%d traces=%d generator runs=%d table sets=%d wall=%.1fs" % (c["tier"], v["states"], v["transitions"], v["traces_validated_against_impl"], v["generator_runs"], v["distinct_regenerated_table_sets"], c["wall_s"]))
P
exit 0
