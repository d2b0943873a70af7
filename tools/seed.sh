#!/bin/bash
# seed.sh MUTANT NAME PROPERTY: demo folder /tmp/seed/t/MUTANT -> seeded/NAME, confirmed in a scratch copy
set -e
cd "$(dirname "$0")/.."
m=$1 d=seeded/$2
mkdir -p "$d"
cp /tmp/seed/t/$m/demo.py $d/; cp tools/demo_util.py $d/util.py
cat > "$d/demo.sh" <<'X'
#!/bin/bash
# run with cwd /repo after the build: exit 0 if the behaviour is right
exec "${PYTHON:-/opt/venv/bin/python}" -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
X
chmod +x "$d/demo.sh"
[ -f "$d/patch.diff" ] || python3 tools/mutants.py diff $m "$d/patch.diff"
w=$(mktemp -d /tmp/seedwork-XXXXXX)
cp -a /repo "$w/repo"
cd "$w/repo"
export PYTHONPATH=$w/repo/src PYTHONDONTWRITEBYTECODE=1
/verif/$d/demo.sh >/tmp/seed/o1 2>&1 && a=0 || a=$?
git apply /verif/$d/patch.diff
/verif/$d/demo.sh >/tmp/seed/o2 2>&1 && b=0 || b=$?
cd /
rm -rf "$w"
echo "$2 clean=$a patched=$b $(tail -1 /tmp/seed/o2 | cut -c1-150)"
