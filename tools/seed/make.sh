#!/bin/bash
# make.sh ID: turn the current change of the scratch copy /tmp/sc/repo into a seeded bug:
# build, run the stable tests, run the demonstration with and without it, store the patch.
# expects /verif/seeded/ID/demo.py and meta.json; demo.sh and tdemo.py are generated
set -u
ID=$1; D=/verif/seeded/$ID; S=/tmp/sc/repo
cp /verif/tools/seed/tdemo.py $D/tdemo.py
cat > $D/demo.sh <<'E'
#!/bin/bash
# cwd: the built repository
here=$(cd "$(dirname "$0")" && pwd)
exec env PYTHONPATH="$here" PYTHONDONTWRITEBYTECODE=1 python3 "$here/demo.py"
E
chmod +x $D/demo.sh
git -C $S diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "no change"; exit 1; }
git -C /repo apply --check $D/patch.diff || exit 1
