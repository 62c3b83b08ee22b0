# The environment in which the code is built (x/tools v0.22.0 does not compile with Go 1.25 or later).
export HOME=${HOME:-/root}
export LANG=${LANG:-C.UTF-8}
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off CGO_ENABLED=1
export GOPATH=/root/go GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
unset GOFLAGS GOROOT UPDATE_SNAPSHOTS GOWORK GOENV
