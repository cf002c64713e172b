#!/bin/bash
# trybug.sh [-q] ID [CHECK...]: confirms a planted bug and runs checks against it, in a
# private mount namespace where /repo and /verif are scratch copies (development tool).
# -q: only the checks, not the demonstration and the tests
if [ "${1:-}" != --inside ]; then
  s=$(mktemp -d /tmp/try.XXXXXX); trap 'rm -rf "$s"' EXIT
  git -C /repo archive --prefix=repo/ HEAD | tar -x -C "$s"
  mkdir "$s/verif"; (cd /verif && git ls-files -co --exclude-standard | tar -c -T -) | tar -x -C "$s/verif"
  unshare -Urm bash "$s/verif/tools/trybug.sh" --inside "$s" "$@"
  exit
fi
s=$2; shift 2
quick=; [ "$1" = -q ] && { quick=1; shift; }
id=$1; shift
mount --bind "$s/repo" /repo; mount --bind "$s/verif" /verif
d=/verif/seeded/$id
cd /repo || exit 1
(git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x) 2>/dev/null
run() { t=$(mktemp -d "$s/demo.XXXXXX"); cp -a $d/. $t/; rm -f $t/*.diff $t/meta.json; (cd /repo && timeout 300 bash $t/demo.sh) > $s/try.log 2>&1; r=$?; rm -rf "$t"; return $r; }
if [ -z "$quick" ]; then
run && echo "$id demo clean: ok" || { echo "$id DEMO FAILS ON CLEAN TREE"; tail -20 $s/try.log; exit 1; }
fi
git apply $d/patch.diff || { echo "$id PATCH DOES NOT APPLY"; exit 1; }
if [ -z "$quick" ]; then
bash /opt/vp/build.sh > $s/build.log 2>&1 || { echo "$id BUILD FAILS"; tail -5 $s/build.log; }
sed "s,log=/opt/vp/test.log,log=$s/test.log," /opt/vp/test.sh > $s/test.sh; bash $s/test.sh $s/try.json >/dev/null 2>&1
python3 -c "
import json
a=json.load(open('/opt/vp/BASELINE.json'))['stable'];b=json.load(open('$s/try.json'))['passed']
m=[x for x in a if x not in b]
print('$id stable tests: ok' if not m else '$id STABLE TESTS FAIL: %s'%m)"
run && echo "$id DEMO PASSES WITH THE BUG" || { echo "$id demo with bug: fails (ok):" $(tail -1 $s/try.log); }
fi
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ $# = 0 ] && set -- $p
for c in "$@"; do VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick /verif/check.sh $c > $s/check.log 2>&1; r=$?
  echo "$id == $c exit $r $([ $r = 1 ] && echo CAUGHT || echo "NOT CAUGHT")"; grep -v '^ ' $s/check.log | grep -E 'VIOLATION|KNOWN' -A${TAIL:-4} | cut -c1-${W:-300} | head -${H:-8}
  [ $r -gt 1 ] && tail -5 $s/check.log; done
