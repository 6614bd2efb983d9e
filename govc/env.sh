export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GONOSUMDB=* GOFLAGS="-mod=mod"
