#!/bin/bash
# tests.sh DIR NAME: the stable tests on a copy of the repository
W=$1; N=$2; L=/tmp/plant.logs; mkdir -p $L
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 HF_HUB_OFFLINE=1 OMP_NUM_THREADS=2 MPLBACKEND=Agg
rm -f "$W/tests/data/test_registry/subnet_weight.pth" "$W/tests/test_models/test_algorithms/checkpoint"
LSQ=tests/test_runners/test_quantization_loop.py::TestLSQEpochBasedLoop
unshare -Urn bash -c "ip link set lo up; cd $W; O='-q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2'; timeout 100 /opt/venv/bin/python -m pytest \$O --junitxml=$L/$N.1.xml $LSQ; timeout 1500 /opt/venv/bin/python -m pytest \$O --junitxml=$L/$N.2.xml --deselect $LSQ tests" >$L/$N.test 2>&1
/usr/bin/python3 /opt/vp/results.py $L/$N.json "junit:$L/$N.[12].xml" >/dev/null 2>&1
/opt/venv/bin/python -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);r=set(json.load(open('$L/$N.json'))['passed'])
print('failed:',sorted(b-r) or 'none')"
