#!/bin/bash
# regenerate /repo/build/parse.y.go from parse.y as the repository's test expects it
. /opt/vp/env.sh
cd /repo && goyacc -v "" -o build/parse.y.go build/parse.y && sed -i 1,2d build/parse.y.go && rm -f y.output
