#!/bin/bash
# mkstore.sh OUTDIR [store.st ...]: generate store code with the generator of /repo, without writing in /repo
set -e
out=$1; shift
st=("$@"); [[ ${#st[@]} -gt 0 ]] || st=(/repo/tests/TestStore.st)
mkdir -p "$out/gen/python"
cp -r /repo/python/libstored "$out/gen/python/"
for f in include src doc fpga LICENSES CMakeLists.txt.tmpl; do ln -sfn /repo/$f "$out/gen/$f"; done
echo "__version__ = '0.0.0'
libstored_version = '0.0.0'" > "$out/gen/python/libstored/version.py"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$out/gen/python /opt/vp/venv/bin/python3 -c '
import sys, types
# the generator only: not the rest of the package, that needs more modules
m = types.ModuleType("libstored"); m.__path__ = [sys.argv[1] + "/gen/python/libstored"]; sys.modules["libstored"] = m
import os
from libstored.generator import __main__ as g
os.makedirs(sys.argv[1], exist_ok=True)
# also keep the list of objects of every store, for the specifications
models = []
load = g.load_model
def load_model(*a, **k):
    models.append(load(*a, **k))
    return models[-1]
g.load_model = load_model
T = dict(bool="Bool", int8="Int8", uint8="Uint8", int16="Int16", uint16="Uint16", int32="Int32", uint32="Uint32", int64="Int64", uint64="Uint64", float="Float", double="Double", ptr32="Pointer32", ptr64="Pointer64", blob="Blob", string="String")
for f in sys.argv[2:]:
    g.generate_store(f, sys.argv[1], True)
    n = os.path.splitext(os.path.basename(f))[0]
    with open(sys.argv[1] + "/include/" + n + "_objs.h", "w") as o:
        for x in models[-1].objects:
            fn = isinstance(x, g.types.Function)
            o.write("OBJ(\"/%s\", %s, %s, %d, %d)\n" % (x.name.replace("\\", "\\\\").replace("\"", "\\\""), T[x.type], "true" if fn else "false", x.f if fn else x.offset, x.size))
' "$out" "${st[@]}"
