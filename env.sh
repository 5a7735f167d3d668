export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build} GOSUMDB=off
