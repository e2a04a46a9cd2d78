#!/bin/bash
# Builds the simulator from /repo's working tree, with the hooks (tag verif) on,
# into /verif/.build; "build.sh race" also builds it with the race detector.  Needs no network.  Safe to run any number of times.
set -e
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset GOROOT
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS="-mod=mod -buildvcs=false"
export CGO_ENABLED=0
B="$V/.build"
mkdir -p "$B/overlay"
export GOCACHE="${VERIF_GOCACHE:-$B/gocache}"
export GOTMPDIR="$B"
(
  flock 9
  R="$(go env GOROOT)/src"
  # The one source of nondeterminism /repo's code has that no interface reaches
  # is Go's map iteration order.  The simulator is built with a copy of two
  # runtime files in which the map random numbers come from a state it sets.
  sed '/^func maps_rand()/,/^}/s/return rand()/return verifMapRand()/' "$R/runtime/rand.go" > "$B/overlay/rand.go.new"
  cat >> "$B/overlay/rand.go.new" <<'EOG'

//go:linkname verifMapState
var verifMapState uint64 = 0x1234567

func verifMapRand() uint64 {
	verifMapState += 0x9e3779b97f4a7c15
	z := verifMapState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
EOG
  sed -e 's/uintptr(bootstrapRand())/uintptr(0x9e3779b97f4a7c15 \& 0xffffffffffffffff) ^ uintptr(i*0x1234567)/' \
      -e 's/key\[i\] = bootstrapRand()/key[i] = 0xbf58476d1ce4e5b9 * uint64(i+1)/' \
      "$R/internal/runtime/maps/runtime_alg.go" > "$B/overlay/runtime_alg.go.new"
  [ "$(grep -c 'verifMapRand()' "$B/overlay/rand.go.new")" = 2 ] || { echo "build.sh: runtime/rand.go overlay did not apply" >&2; exit 3; }
  [ "$(grep -c 'bootstrapRand()' "$B/overlay/runtime_alg.go.new")" = 0 ] || { echo "build.sh: runtime_alg.go overlay did not apply" >&2; exit 3; }
  # With the race detector, pools of the standard library (fmt has one) hide races, at random.
  sed -e '/^func (p \*Pool) Put/,/^}/s/^\tif race.Enabled {$/\tif race.Enabled {\n\t\treturn/' \
      -e '/^func (p \*Pool) Get/,/^}/s/^\tif race.Enabled {$/\tif race.Enabled {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil/' \
      "$R/sync/pool.go" > "$B/overlay/pool.go.new"
  # A task that finds a mutex of the standard library taken tells the simulator, which lets
  # another go on: in lockSlow, and at every Lock and RLock of an RWMutex.
  sed -e '/^func (m \*Mutex) lockSlow() {$/a\	if verifBlock != nil \&\& verifBlock(unsafe.Pointer(m), 0, m.TryLock) {\n\t\treturn\n\t}' \
      "$R/internal/sync/mutex.go" > "$B/overlay/mutex.go.new"
  cat >> "$B/overlay/mutex.go.new" <<'EOG'

//go:linkname verifBlock
var verifBlock func(p unsafe.Pointer, mode int, try func() bool) bool
EOG
  sed -e '/^func (rw \*RWMutex) RLock() {$/a\	if verifBlock != nil \&\& verifBlock(unsafe.Pointer(rw), 1, rw.TryRLock) {\n\t\treturn\n\t}' \
      -e '/^func (rw \*RWMutex) Lock() {$/a\	if verifBlock != nil \&\& verifBlock(unsafe.Pointer(rw), 2, rw.TryLock) {\n\t\treturn\n\t}' \
      "$R/sync/rwmutex.go" > "$B/overlay/rwmutex.go.new"
  cat >> "$B/overlay/rwmutex.go.new" <<'EOG'

//go:linkname verifBlock internal/sync.verifBlock
var verifBlock func(p unsafe.Pointer, mode int, try func() bool) bool
EOG
  [ "$(cat "$B/overlay/mutex.go.new" "$B/overlay/rwmutex.go.new" | grep -c 'verifBlock(unsafe')" = 3 ] || { echo "build.sh: sync overlay did not apply" >&2; exit 3; }
  for f in rand.go runtime_alg.go pool.go mutex.go rwmutex.go; do
    cmp -s "$B/overlay/$f.new" "$B/overlay/$f" || cp "$B/overlay/$f.new" "$B/overlay/$f"
  done
  cat > "$B/overlay.json" <<EOG
{"Replace": {"$R/runtime/rand.go": "$B/overlay/rand.go", "$R/internal/runtime/maps/runtime_alg.go": "$B/overlay/runtime_alg.go", "$R/sync/pool.go": "$B/overlay/pool.go", "$R/internal/sync/mutex.go": "$B/overlay/mutex.go", "$R/sync/rwmutex.go": "$B/overlay/rwmutex.go"}}
EOG
  cd "$V/sim"
  go build -overlay "$B/overlay.json" -tags verif -o "$B/sim.new" .
  mv -f "$B/sim.new" "$B/sim"
  if [ "$1" = race ]; then
    # The library and the standard library are built for the race detector, the simulator
    # itself is not.
    rm -f "$B"/racelog.*
    CGO_ENABLED=1 go build -race -gcflags=github.com/batchatco/go-native-netcdf/verifsim=-race=false \
      -overlay "$B/overlay.json" -tags verif -o "$B/simrace.new" .
    mv -f "$B/simrace.new" "$B/simrace"
  fi
) 9>"$B/lock"
