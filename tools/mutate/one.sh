#!/bin/bash
# one.sh MUT CHECK [args]
i=$1; c=$2; shift 2
rm -rf /tmp/mut/one; cp -a /repo /tmp/mut/one
python3 - $i <<'P'
import json,sys
m=json.load(open(f'/tmp/mut/m/{sys.argv[1]}.json')); p='/tmp/mut/one/'+m['file']; src=open(p,'rb').read()
open(p,'wb').write(src[:m['off']]+m['text'].encode()+src[m['off']+m['del']:])
P
unshare -Urm bash -c "mount --bind /tmp/mut/one /repo; cd /verif; ./check.sh $c quick $*; echo rc \$?" 2>&1 | cut -c1-500 | tail -12
