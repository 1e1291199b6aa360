#!/bin/bash
# trybug.sh ID [notest] : apply seeded/ID in a scratch copy, run the repo's tests, the demo (before and after) and the check
id=$1; H=$(cd "$(dirname "$0")/.." && pwd); W=/tmp/bw_$id
rm -rf "/tmp/bw_$id"; cp -a /repo $W; cd $W || exit 1
export JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= PYTHONDONTWRITEBYTECODE=1 PATH=/opt/venv/bin:$PATH MPLBACKEND=Agg
prop=$(python3 -c "import json;print(json.load(open('$H/seeded/$id/meta.json'))['property'])")
bash $H/seeded/$id/demo.sh >/tmp/bw_$id.d0 2>&1; d0=$?
git apply $H/seeded/$id/patch.diff || { echo "$id: patch does not apply"; exit 1; }
bash $H/seeded/$id/demo.sh >/tmp/bw_$id.d1 2>&1; d1=$?
t=skipped
if [ "$2" != notest ]; then python -m pytest tests -q -p no:cacheprovider -n 4 --timeout=300 >/tmp/bw_$id.t 2>&1; t=$(tail -1 /tmp/bw_$id.t); fi
( cd $H && FBS_REPO=$W ./run.sh $prop quick > /tmp/bw_$id.c 2>&1 ); c=$?
echo "$id [$prop] demo clean=$d0 bug=$d1 | tests: $t | check exit=$c: $(grep -m1 -B1 VIOLATION /tmp/bw_$id.c | head -1 | cut -c1-200)"
cd /; rm -rf "/tmp/bw_$id"
