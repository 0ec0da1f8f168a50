#!/bin/bash
# mut.sh UNIT FILE 'python-regex' 'replacement' : run a unit on a mutated copy of the source
rm -rf /tmp/mutsrc; cp -r /repo/src /tmp/mutsrc
python3 - "$2" "$3" "$4" <<'P'
import sys,re
p='/tmp/mutsrc/'+sys.argv[1]; s=open(p).read()
n,k=re.subn(sys.argv[2],sys.argv[3],s,count=1,flags=re.S)
import sys
sys.stderr.write('replaced %d\n' % k); open(p,'w').write(n)
P
SRC=/tmp/mutsrc /verif/dev.sh $1 2>&1 | grep -E "replaced|^error|verification results|lost anchor|-->|bpextract|unsupported" | head -${N:-12}
