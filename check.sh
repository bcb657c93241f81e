#!/bin/bash
# usage: ./check.sh <property id>   (environment: VERIF_SEED, VERIF_TIER; REPO overrides /repo for experiments)
# Builds what the check needs from the current working tree of the repository into a scratch directory, runs it and
# removes the scratch directory. Exit 0: held; 1: VIOLATION line; 2: no verdict.
ID="$1"
SEED="${VERIF_SEED:-1}"
TIER="${VERIF_TIER:-quick}"
REPO="${REPO:-/repo}"
VERIF="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false GO111MODULE=on
unset VERIF_SECONDARY
S="$(mktemp -d /tmp/verif-$ID-XXXXXX)" || exit 2
trap 'rm -rf -- "$S"' EXIT
mkdir -p "$S/gw1" "$S/gw2" "$S/run"
rm -f -- "$VERIF/evidence/$ID.json"

abs() { sed -E "s#^([[:space:]]*(use[[:space:]]+)?)\./#\1$REPO/#" "$REPO/go.work"; }
abs > "$S/gw1/go.work"
T="$REPO/functions/golang/teamshooter"
if [ -f "$T/go.mod" ] && ! grep -q "$T" "$S/gw1/go.work"; then echo "use $T" >> "$S/gw1/go.work"; fi
sed -E 's/^go .*/go 1.23/' "$S/gw1/go.work" > "$S/gw2/go.work"
grep -q '^go ' "$S/gw2/go.work" || echo "go 1.23" >> "$S/gw2/go.work"
echo "use $VERIF/harness" >> "$S/gw2/go.work"
[ -f "$REPO/go.work.sum" ] && cp "$REPO/go.work.sum" "$S/gw1/" && cp "$REPO/go.work.sum" "$S/gw2/"

fail() { echo "BUILD FAILED for $ID: $1"; cat "$S/$1.log"; exit 2; }
B=()
build() { # name workspace directory package [flags...]
  local name=$1 gw=$2 dir=$3 pkg=$4; shift 4
  ( cd "$dir" && GOWORK="$gw" go build "$@" -o "$S/$name" "$pkg" ) > "$S/$name.log" 2>&1 || { touch "$S/$name.failed"; return 1; }
}
want() {
  case $1 in
    om) build om "$S/gw1/go.work" "$REPO/core" . ;;
    omrace) build omrace "$S/gw1/go.work" "$REPO/core" . -race ;;
    omalt) build omalt off "$REPO/core" . ;;
    ommulti)
      printf '{"Replace": {"%s/core/zz_verif_secondary.go": "%s/harness/overlay/secondary.go.txt"}}' "$REPO" "$VERIF" > "$S/ov-multi.json"
      build ommulti "$S/gw1/go.work" "$REPO/core" . -overlay "$S/ov-multi.json" ;;
    omclock) # a replaceable wall clock: one line more in time.Now of the standard library of this binary
      local t="$(go env GOROOT)/src/time/time.go"
      awk '{print} /^func Now\(\) Time \{/{f=1} f && /sec, nsec, mono := runtimeNow\(\)/{print "\tif VerifClock != nil {\n\t\tsec, nsec = VerifClock(sec, nsec)\n\t}"; f=0}
        END{print "\n// VerifClock changes what the wall clock shows.\nvar VerifClock func(sec int64, nsec int32) (int64, int32)"}' "$t" > "$S/time.go"
      printf '{"Replace": {"%s": "%s/time.go", "%s/core/zz_verif_clock.go": "%s/harness/overlay/clock.go.txt"}}' "$t" "$S" "$REPO" "$VERIF" > "$S/ov-clock.json"
      build omclock "$S/gw1/go.work" "$REPO/core" . -overlay "$S/ov-clock.json" ;;
    comp-*)
      local d=${1#comp-} race=""
      case $d in *-race) d=${d%-race}; race="-race" ;; esac
      printf '{"Replace": {' > "$S/ov-$1.json"
      local sep=""
      for f in "$VERIF/harness/comp/$d"/*.go; do
        printf '%s"%s/core/internal/zzverif%s/%s": "%s"' "$sep" "$REPO" "$d" "$(basename "$f")" "$f" >> "$S/ov-$1.json"; sep=", "
      done
      printf '}}' >> "$S/ov-$1.json"
      build "$1" "$S/gw2/go.work" "$REPO/core" "./internal/zzverif$d" -overlay "$S/ov-$1.json" $race ;;
    mmf) build mmf "$S/gw1/go.work" "$REPO/mmf" . ;;
    vf) build vf "$S/gw2/go.work" "$VERIF/harness" ./cmd/vf ;;
    vfrace) build vfrace "$S/gw2/go.work" "$VERIF/harness" ./cmd/vf -race ;;
    mm) build mm "$S/gw1/go.work" "$REPO/matchmaker-example" . ;;
    vh) build vh "$S/gw2/go.work" "$VERIF/harness" ./cmd/vh ;;
    vhrace) build vhrace "$S/gw2/go.work" "$VERIF/harness" ./cmd/vh -race ;;
  esac
}
case $ID in
  C06) NEED="vh om comp-filter" ;;
  C15|C16) NEED="vh om comp-redis" ;;
  C12|C13) NEED="vh om ommulti omclock" ;;
  C20) NEED="vh om omclock comp-memory" ;;
  C21) NEED="vh om comp-cache" ;;
  C29) NEED="vh om ommulti comp-config" ;;
  C01|C04|C10|C11|C14|C17|C19) NEED="vh om ommulti" ;;
  C22) NEED="vh omrace vfrace comp-cache-race comp-memory-race comp-redis-race" ;;
  C24) NEED="vh om omalt" ;;
  C25) NEED="vh vf" ;;
  C26) NEED="vh vf om mmf" ;;
  C27) NEED="vh mm om" ;;
  *) NEED="vh om" ;;
esac
for n in $NEED; do want "$n" & done
wait
ARGS=()
for n in $NEED; do
  if [ -e "$S/$n.failed" ]; then
    case $n in
      omclock) # only some scenarios need it
        echo "note: no replaceable clock:"; head -5 "$S/$n.log"; continue ;;
      comp-*) # the exported interface of the component changed: the system-level part of the check still applies
        echo "note: component driver $n does not build against this tree:"; head -5 "$S/$n.log"; continue ;;
    esac
    fail "$n"
  fi
  ARGS+=(-bin "$n=$S/$n")
done
[ -n "$VERIF_BUILD_ONLY" ] && exit 0
VH="$S/vh"; [ -x "$VH" ] || VH="$S/vhrace"

# A network namespace of its own keeps the fixed ports of om-core apart from everything else; where that is not
# allowed the check runs without one.
NS=()
if [ "$VERIF_NO_NETNS" = "" ] && unshare -Urn sh -c 'ip link set lo up' >/dev/null 2>&1; then
  NS=(unshare -Urn sh -c 'ip link set lo up && exec "$@"' sh)
fi
LIMIT=870
[ "$TIER" = thorough ] && LIMIT="${VERIF_LIMIT:-7200}"
timeout -k 10 "$((LIMIT + 20))" "${NS[@]}" "$VH" -check "$ID" -tier "$TIER" -seed "$SEED" -dir "$S/run" -verif "$VERIF" -limit "${LIMIT}s" "${ARGS[@]}"
rc=$?
if [ -n "$VERIF_KEEPLOGS" ]; then mkdir -p "$VERIF_KEEPLOGS" && cp "$S"/run/*.log "$VERIF_KEEPLOGS"/ 2>/dev/null; fi
case $rc in
  0|1|2) exit $rc ;;
  *) exit 2 ;;
esac
