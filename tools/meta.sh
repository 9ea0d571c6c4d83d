#!/bin/bash
# meta.sh ID PROP NEEDS BREAKS: meta.json and demo.sh of a planted bug; demo.py is read from stdin
mkdir -p /verif/seeded/$1
python3 - "$@" <<'P'
import json,sys
i,p,n,w=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open('/verif/seeded/%s/meta.json'%i,'w'),indent=1)
P
cat > /verif/seeded/$1/demo.sh <<'E'
#!/bin/bash
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
E
