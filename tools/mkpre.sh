#!/bin/bash
# mkpre.sh VERIF PRE: a module in which generated services can live
set -e
here=$1 pre=$2
mkdir -p "$pre/zz_dep/nats" "$pre/zz_sim"
cp -r "$here/stubs/kit" "$pre/zz_dep/kit"
cp -r "$here/stubs/mux" "$pre/zz_dep/mux"
cp -r "$here/sim/grpc" "$pre/zz_dep/grpc"
cp "$here"/sim/nats/*.go "$pre/zz_dep/nats/"
for p in k net context svcreg grpc; do cp -r "$here/sim/$p" "$pre/zz_sim/$p"; done
find "$pre/zz_dep/grpc" -name '*.go' -print0 | xargs -0 sed -i 's,"github.com/teamlint/baron/zz_sim/grpc/,"google.golang.org/grpc/,'
echo "module github.com/go-kit/kit" > "$pre/zz_dep/kit/go.mod"
echo "module github.com/gorilla/mux" > "$pre/zz_dep/mux/go.mod"
echo "module google.golang.org/grpc" > "$pre/zz_dep/grpc/go.mod"
echo "module github.com/nats-io/nats.go" > "$pre/zz_dep/nats/go.mod"
cat > "$pre/go.mod" <<'M'
module github.com/teamlint/baron

go 1.20

require (
	github.com/go-kit/kit v0.10.0
	github.com/gorilla/mux v1.8.0
	github.com/nats-io/nats.go v1.10.0
	github.com/pkg/errors v0.9.1
	google.golang.org/genproto v0.0.0-20210602131652-f16073e35f0c
	google.golang.org/grpc v1.38.0
	google.golang.org/protobuf v1.26.0
)

replace (
	github.com/go-kit/kit => ./zz_dep/kit
	github.com/gorilla/mux => ./zz_dep/mux
	github.com/nats-io/nats.go => ./zz_dep/nats
	google.golang.org/grpc => ./zz_dep/grpc
)
M
