# Toolchain for everything under /verif (offline).
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.26.10/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export GOROOT=/opt/veriftools/go1.26.10
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=/verif/.build/gocache
export GO111MODULE=on GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=0 GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=readonly
