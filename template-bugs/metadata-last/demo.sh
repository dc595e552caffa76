#!/bin/bash
# run with cwd = the repository: generates the code of kit/.../api.proto, compiles
# it against stand-ins of the libraries and runs demo.go.txt with it
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
tar -xzf "$d/kit.tgz" -C "$t" || exit 2
repo=$PWD k=$t/zzdemo
mkdir "$k/drv"; cp "$d/demo.go.txt" "$k/drv/main.go"
overlay() { ( cd "$t" && printf '{"Replace":{'; find zzdemo -type f -name '*.go' | sed "s#.*#\"$repo/internal/&\":\"$t/&\"#" | paste -sd, ; printf '}}' ) > "$t/overlay.json"; }
overlay
go build -overlay "$t/overlay.json" -o "$t/genprep" ./internal/zzdemo/genprep || exit 2
( cd "$t" && ./genprep "$k/api/pb/api.proto" "$k/api/pb/api.pb.baron.go" all "$k/api/pb/api.pb.go" "$k/api/pb/api_grpc.pb.go" ) || exit 1
sed -E -i 's#"((github\.com/(go-kit/kit|gorilla/mux|nats-io/nats\.go)|google\.golang\.org/(grpc|protobuf))(/[^"]*)?)"#"github.com/teamlint/baron/internal/zzdemo/ext/\1"#' "$k/api/pb/api.pb.baron.go"
overlay
go build -overlay "$t/overlay.json" -o "$t/demo" ./internal/zzdemo/drv || exit 1
cd "$t" && timeout 120 ./demo
