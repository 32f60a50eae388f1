mk () 
{ 
    mkdir -p $1;
    cat > $1/demo.go;
    cat > $1/demo.sh <<'EOF'
#!/bin/bash
# run with cwd /repo; exit 0 when the property holds
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
export PATH="$PATH:/opt/veriftools/go1.27.3/bin"
exec go run "$(cd "$(dirname "$0")" && pwd)/demo.go"
EOF

    python3 - "$@" <<'EOF'
import sys,json
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
EOF

}
