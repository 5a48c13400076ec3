# The Go environment of the sandbox, offline.
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOGC=400
