mk () 
{ 
    mkdir -p seeded/$1;
    cat > seeded/$1/meta.json <<EOF
{"property": "$2", "needs": "$3", "what_it_breaks": "$4"}
EOF

    cat > seeded/$1/demo.sh <<'EOF'
#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
R=$PWD
g++ -std=c++14 -w -O1 -I$R/include -I$R/_build/include -I$R/thirdparty/datetime/include -I$R/thirdparty/utf8/source "$D/demo.cpp" -o "$T/demo" -L$R/_build -ldynd -ldyndt -Wl,-rpath,$R/_build || exit 9
timeout 60 "$T/demo"
EOF

}
P () 
{ 
    ( cd ${R:-/repo} && python3 - "$2" "$3" "$4" "${5:-1}" <<'EOF'
import sys
f,a,b,n=sys.argv[1:]
s=open(f).read(); n=int(n)
assert s.count(a)>=n,(s.count(a),a)
i=-1
for _ in range(n): i=s.index(a,i+1)
open(f,'w').write(s[:i]+b+s[i+len(a):])
EOF

    git diff > ${V:-/verif}/seeded/$1/patch.diff;
    git checkout -q -- .;
    cat ${V:-/verif}/seeded/$1/patch.diff | grep '^[+-]' )
}
