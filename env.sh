export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod GOWORK=off GOENV=off GOSUMDB=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build} CGO_ENABLED=0
unset GOOS GOARCH SECS4GO_STRESS
