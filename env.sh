for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
  [ -x "$d/go" ] && PATH=$d:$PATH && break
done
export PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off HOME="${HOME:-/root}"
unset GOFLAGS
