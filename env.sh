# Go environment of the checks (offline, the toolchain the repository is built with)
export HOME=/root
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin
export GOROOT= GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1 GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS="-mod=mod -buildvcs=false"
export GOPATH=/root/go GOCACHE=/root/.cache/go-build
