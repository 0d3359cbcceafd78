# Common environment of every command of this directory (sourced).
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export VERIF_DIR=${VERIF_DIR:-/verif}
