export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build} GOMODCACHE=/root/go/pkg/mod
