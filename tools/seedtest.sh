#!/bin/bash
# tools/seedtest.sh ID...: validate planted changes in a scratch copy of /repo (bind-mounted over /repo in a
# private mount namespace) and run all checks of the planted property against each. Development aid, not a check.
V=$(cd "$(dirname "$0")/.." && pwd)
one() {
  id=$1; D=$V/seeded/$id; SC=$(mktemp -d /tmp/seedXXXXXX)
  cp -a /repo $SC/repo
  prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  unshare -m bash -c "
    mount --bind $SC/repo /repo; cd /repo; git checkout -q -- .
    mkdir $SC/demo; cp -r $D/. $SC/demo/; rm -f $SC/demo/*.diff $SC/demo/meta.json
    bash $SC/demo/demo.sh >$SC/o0 2>&1; r0=\$?
    git apply $D/patch.diff || { echo '$id: PATCH DOES NOT APPLY'; exit; }
    bash /opt/vp/test.sh $SC/out.json > $SC/tlog 2>&1
    t=\$(tail -1 $SC/tlog)
    bash $SC/demo/demo.sh >$SC/o1 2>&1; r1=\$?
    cd $V; DW_BUILD=$SC/build; mkdir -p \$DW_BUILD; cp $V/build/dwfacts-* \$DW_BUILD/; export DW_BUILD DW_EVID=$SC
    ./check $prop quick > $SC/c 2>&1; rc=\$?
    others=''
    if [ -n \"\$ALL\" ]; then for q in \$(python3 -c \"import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])\"); do [ \$q = $prop ] || { ./check \$q quick >/dev/null 2>&1; x=\$?; [ \$x = 0 ] || others=\"\$others \$q=\$x\"; }; done; fi
    echo \"$id [$prop] clean-demo=\$r0 tests=\$t demo=\$r1 check=\$rc others:\$others\"
    [ \$r0 = 0 ] || tail -5 $SC/o0
    [ -n \"\$VERBOSE\" ] && { tail -3 $SC/o1; cat $SC/c; }
  "
  rm -rf "$SC"
}
export -f one; export V ALL VERBOSE
printf '%s\n' "$@" | xargs -P ${J:-4} -I{} bash -c 'one {}'
