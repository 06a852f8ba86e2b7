#!/bin/bash
# Runs the defect demonstrations against /repo (overlay; nothing is written there).
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd); R=${REPO:-/repo}
O=$(mktemp); trap 'rm -f "$O"' EXIT
cat > "$O" <<J
{"Replace": {"$R/pkg/encoding/zz_findings_test.go": "$D/encoding_findings_test.go",
 "$R/peers/sticktable/zz_findings_test.go": "$D/sticktable_findings_test.go",
 "$R/spop/zz_findings_test.go": "$D/spop_findings_test.go",
 "$R/peers/zz_findings_test.go": "$D/peers_findings_test.go"}}
J
cd "$R" && go test -vet=off -count=1 -timeout 120s -overlay "$O" -run "${1:-TestF[0-9]}" ./pkg/encoding ./peers/sticktable ./spop ./peers
