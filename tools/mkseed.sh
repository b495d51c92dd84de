#!/bin/bash
# mkseed.sh ID : turns the uncommitted change of /repo into /verif/seeded/ID/patch.diff and reverts it
d=/verif/seeded/$1; mkdir -p $d; git -C /repo diff > $d/patch.diff; git -C /repo checkout -- . ; wc -l $d/patch.diff
cat > $d/demo.sh <<'D'
#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -I/repo/_build/include -I/repo/src -I/usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" || exit 1
timeout 100 "$T/demo"
D
