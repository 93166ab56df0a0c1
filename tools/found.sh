#!/bin/bash
# tools/found.sh C04 [count] [start] [deadline]: violations of a batch over 8 processes, grouped
b=${F2C_BUILD:-/verif/build}/$1
for i in 0 1 2 3 4 5 6 7; do
 mkdir -p /tmp/fs_$i
 $b worker --start $((${3:-0}+i)) --stride 8 --count $((${2:-400}/8)) --continue 1 --deadline ${4:-120} --scratch /tmp/fs_$i > /tmp/fs_$i/out 2>/dev/null &
done; wait
cat /tmp/fs_*/out | grep -aE '^(FOUND|ERROR)' | python3 -c "
import sys,re,collections
g=collections.OrderedDict()
for l in sys.stdin:
    w=l.rstrip('\n').split(' ',2)
    if len(w)<3: print(l); continue
    m=w[2]
    m=re.sub(r' \(pc .*?T\d+\)','',m); m=re.sub(r'0x[0-9a-f]+','@',m); m=re.sub(r'\(/verif[^)]*\)|\(BuildId[^)]*\)|/repo/|f2c::types::|/usr/include/c\+\+/13/','',m)
    k=re.sub(r'\d+','#',m)[:${G:-260}]
    g.setdefault(k,[]).append((int(w[1]),m))
for k,v in sorted(g.items(),key=lambda x:-len(x[1])):
    print(len(v),'x, run',v[0][0],':',v[0][1][:${W:-600}]); print()
"
cat /tmp/fs_*/out | grep -a '^STATS' | awk '{a+=$2;b+=$3;c+=$4} END{print "runs",a,b,c}' 2>/dev/null || cat /tmp/fs_*/out | grep -ac STATS
