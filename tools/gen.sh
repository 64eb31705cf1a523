#!/bin/bash
# gen.sh MOD CFG OUT: scenario file of a generator
bash /tmp/w/tlc.sh $1 $2 2 | grep GEN > /tmp/w/g0; python3 - $3 <<'P'
import re,sys
rows=re.findall(r'^"?GEN\|(.*?)"?$', open('/tmp/w/g0').read(), re.M)
open(sys.argv[1],'w').write("\n".join(dict.fromkeys(x.replace('\\"','"').replace("\\\\","\\") for x in rows))+"\n")
P
wc -l $3
