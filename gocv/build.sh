cd "$(dirname "$0")" && . /opt/vp/env.sh && mkdir -p ../bin && GOFLAGS=-buildvcs=false go build -o ../bin/gocv .
