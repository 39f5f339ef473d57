# Toolchain for building the harness (sourced).
export GOROOT=/opt/veriftools/go1.25.14 PATH=/opt/veriftools/go1.25.14/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off GONOSUMCHECK=1 GONOSUMDB='*' GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build} TZ=UTC
