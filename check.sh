#!/bin/bash
# check.sh PROP quick|thorough  |  check.sh replay FILE
# Builds the supervisor and the simulated process from the current trees.
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off VSIM_DIR="$here/sim"
unset http_proxy https_proxy HTTP_PROXY HTTPS_PROXY no_proxy NO_PROXY GODEBUG GOEXPERIMENT SSL_CERT_FILE SSL_CERT_DIR
bin=$(mktemp -d) || exit 2
trap '/bin/rm -rf -- "$bin"' EXIT
(cd "$here/sim" && go build -o "$bin/vsim" ./cmd/vsim) || exit 2
case "${1:-}" in
replay) "$bin/vsim" replay "$2" ;;
*) "$bin/vsim" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
