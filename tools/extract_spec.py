#!/usr/bin/env python3
"""One-off bootstrap of /verif/spec/packets.json from the packet definitions.

Used once to seed the table, which was then reviewed against the u-blox protocol
documents' layouts and frozen (checks never run this: they use the committed table, so
a change of the definitions in /repo shows up as a disagreement)."""
import json, re, sys
src = open('/repo/ublox/src/ubx_packets/packets.rs').read()
SZ = {'u8':1,'i8':1,'u16':2,'i16':2,'u32':4,'i32':4,'f32':4,'u64':8,'f64':8}
def attrs(s):
    # parse key = value, key
    out = {}
    s = re.sub(r'//[^\n]*','',s)
    depth=0; cur=''; parts=[]; q=False
    for c in s:
        if c=='"': q=not q
        if c in '<([': depth+=1
        if c in '>)]': depth-=1
        if c==',' and depth==0 and not q: parts.append(cur); cur=''
        else: cur+=c
    if cur.strip(): parts.append(cur)
    for p in parts:
        if '=' in p:
            k,v=p.split('=',1); out[k.strip()]=v.strip()
        elif p.strip(): out[p.strip()]=True
    return out
packs=[]
for m in re.finditer(r'#\[(ubx_packet_recv_send|ubx_packet_recv|ubx_packet_send)\]\s*#\[ubx\((.*?)\)\](?:\s*//[^\n]*)?((?:\s*#\[[^\]]*\])*)\s*(?:pub )?struct (\w+)(<.a>)? \{(.*?)\n?\}\n', src, re.S):
    kind=m.group(1)[11:]; a=attrs(m.group(2)); name=m.group(4); body=m.group(6)
    body=re.sub(r'//[^\n]*','',body)
    fields=[]; off=0
    for fm in re.finditer(r'(?:#\[ubx\((.*?)\)\]\s*)?(?:pub )?(\w+):\s*([^,\[&]+|\[u8;\s*\d+\]|&.a \[CfgVal\])\s*(?:,|$)', body, re.S):
        fa=attrs(fm.group(1)) if fm.group(1) else {}
        ty=fm.group(3).strip()
        am=re.match(r'\[u8;\s*(\d+)\]',ty)
        size = int(am.group(1)) if am else SZ.get(ty)
        f={'name':fm.group(2),'ty':ty,'off':off,'size':size}
        f.update({k:v for k,v in fa.items()})
        fields.append(f)
        if size: off+=size
    p={'name':name,'kind':kind,'class':int(a['class'],0),'id':int(a['id'],0),
       'fixed':int(a['fixed_payload_len']) if 'fixed_payload_len' in a else None,
       'max':int(a.get('max_payload_len',a.get('fixed_payload_len'))),
       'default': 'flags' in a, 'fields':fields,'sum':off}
    if p['fixed'] is not None and p['fixed']!=off: print('SIZE MISMATCH',name,p['fixed'],off,file=sys.stderr)
    packs.append(p)
lst=re.search(r'_ = UbxUnknownPacketRef,(.*?)\}',src,re.S).group(1)
order=[x.strip() for x in lst.split(',') if x.strip()]
json.dump({'packets':packs,'dispatch':order},open('/verif/spec/packets.json','w'),indent=1)
print(len(packs),len(order),[p['name'] for p in packs if p['kind']!='send' and p['name'] not in order],
 [n for n in order if n not in [p['name'] for p in packs]])
