import re,collections
c=collections.OrderedDict()
for l in open('/tmp/groups.txt'):
    l=l.strip()
    if ': ' not in l or not l.split(': ')[0].count(':'): print(l[:300]); continue
    key,msg=l.split(': ',1)
    kind=key.split(':')[0:3] if key.startswith('raises') else key.split(':')[0:2]
    m=re.search(r'(\w+(?:Error|Exception)): (.{0,70})',msg)
    k=(tuple(kind),m.group(0) if m else '')
    c.setdefault(k,[]).append(msg[:300])
for k,v in sorted(c.items(),key=lambda x:-len(x[1]))[:50]: print(len(v),k,'|',v[0][:250], '|', v[-1][:120])
