#!/usr/bin/env python3
"""Filter: resolve (binary+0xoff) frames of an ASan trace."""
import re,subprocess,sys
for l in sys.stdin:
    m=re.search(r"\((/\S+)\+0x([0-9a-f]+)\)",l)
    if m and '/verif' in m.group(1):
        o=subprocess.run(["addr2line","-f","-C","-e",m.group(1),"0x%x"%(int(m.group(2),16)-1)],capture_output=True,text=True).stdout.split("\n")
        l=l.split("(")[0]+" "+o[0]+" "+o[1]+"\n"
    sys.stdout.write(l[:240].rstrip()+"\n")
