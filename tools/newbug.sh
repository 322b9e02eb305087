#!/bin/bash
# newbug.sh ID PROP "needs" "what": store /tmp/pl/ID (an edited copy of the repo) as seeded/ID
id=$1; b=/verif/seeded/$id; mkdir -p $b
git -C /tmp/pl/$id diff > $b/patch.diff
python3 - "$b" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
cat > $b/demo.sh <<'D'
#!/bin/bash
# exit 0: behaves; non-zero: broken.  Runs against the repository in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
export XDG_CACHE_HOME=$tmp/cache PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 TMPDIR=$tmp
cd "$tmp" && /opt/venv/bin/python -W ignore "$here/demo.py"
D
rm -rf /tmp/pl/$id
