#!/usr/bin/env python3
"""Development aid (not used by any check): write /verif/seeded/<id>/ from a batch file.
A batch file is python calling seed(id, property, [(file, old, new)...], needs, breaks, demo_cpp)."""
import difflib, json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run in the repository after its build; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) && trap 'rm -rf "$tmp"' EXIT
U=/usr/lib/x86_64-linux-gnu
B=_build/src
g++ -std=c++17 -O1 -w -Iinclude -I/usr/include/eigen3 -I/usr/include/ompl-1.5 "$here/demo.cpp" -o "$tmp/demo" \\
  -Wl,--start-group $B/planners/libHRM2D.a $B/planners/libHRM3D.a $B/planners/ompl_interface/libOMPLPlanner.a $B/test/util/libTestUtil.a \\
       $B/planners/libHighwayRoadMap.a $B/datastructure/libDataStructure.a $B/geometry/libGeometry.a $B/util/libUtil.a \\
       $B/datastructure/libDataStructure.a $B/geometry/libGeometry.a $B/util/libUtil.a -Wl,--end-group \
  $B/util/external/kdl_parser/libKDL_Parser.a $U/libompl.so $U/libfcl.so $U/libccd.so $U/libgmp.so -lorocos-kdl \\
  $U/libtinyxml2.so $U/liburdfdom_sensor.so $U/liburdfdom_model_state.so $U/liburdfdom_model.so $U/liburdfdom_world.so \\
  -lpthread || { echo "demo does not build"; exit 2; }
"$tmp/demo" "$tmp"
'''


def seed(id, property, edits, needs, breaks, demo):
    d = os.path.join(ROOT, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    patch = ''
    for f, *prs in edits:
        a = subprocess.check_output(['git', '-C', '/repo', 'show', 'HEAD:' + f], text=True)
        b = a
        for old, new in zip(prs[0::2], prs[1::2]):
            assert b.count(old) == 1, (id, f, old, b.count(old))
            b = b.replace(old, new)
        patch += ''.join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write(demo.lstrip())
    json.dump(dict(property=property, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    print(id)


exec(open(sys.argv[1]).read())
