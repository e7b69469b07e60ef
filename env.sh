# Toolchain and offline switches.
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:$PATH:/usr/local/bin:/usr/bin:/bin
export GOROOT=/opt/veriftools/go1.27.3
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
unset GOOS GOARCH
