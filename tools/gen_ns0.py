#!/usr/bin/env python3
"""Writes stub/ns0_table.inc: the part of namespace 0 the simulated server starts with.
Run by hand once; its output is committed (the checks never read the nodeset file)."""
import xml.etree.ElementTree as ET, sys
NS = '{http://opcfoundation.org/UA/2011/03/UANodeSet.xsd}'
root = ET.parse(sys.argv[1]).getroot()
al = {a.get('Alias'): a.text for a in root.find(NS + 'Aliases')}
def rid(s):
    s = al.get(s, s)
    return int(s[2:]) if s and s.startswith('i=') else None
KIND = dict(UAObject=1, UAVariable=2, UAMethod=4, UAObjectType=8, UAVariableType=16, UAReferenceType=32, UADataType=64, UAView=128)
keepObj = {84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 78, 80, 2253, 3048, 11715}
keepOT = {2318, 58, 61, 75, 76, 77, 2041, 11616, 11645, 17602, 2004}
keepVT = {62, 63, 68, 69, 72, 2365}
keepDT = set(range(1, 31)) | {290, 294, 295, 296, 7594, 884, 887, 8912, 852, 338, 862, 256, 257, 307, 12755, 12756, 12552, 96, 97, 98, 99, 100, 101}
rows = []
for e in root:
    k = KIND.get(e.tag[len(NS):])
    if not k: continue
    n = rid(e.get('NodeId'))
    if not (k == 32 or (k == 1 and n in keepObj) or (k == 8 and n in keepOT) or (k == 16 and n in keepVT) or (k == 64 and n in keepDT)):
        continue
    parent = ptype = td = 0
    for r in (e.find(NS + "References") if e.find(NS + "References") is not None else []):
        t, fwd = rid(r.get('ReferenceType')), r.get('IsForward', 'true') == 'true'
        if t == 40 and fwd: td = rid(r.text)
        elif not fwd and t in (45, 35, 47, 46) and not parent: parent, ptype = rid(r.text), t
    if not parent and e.get('ParentNodeId'):
        parent, ptype = rid(e.get('ParentNodeId')), 47
    dn = (e.find(NS + 'DisplayName').text or '')
    inv = e.find(NS + 'InverseName')
    rows.append((n, k, e.get('BrowseName'), dn, parent, ptype, td, e.get('IsAbstract') == 'true', e.get('Symmetric') == 'true', inv.text if inv is not None else ''))
# forward references written at the parent give the rest their parents
fw = {}
for e in root:
    k = KIND.get(e.tag[len(NS):])
    if not k: continue
    for r in (e.find(NS + "References") if e.find(NS + "References") is not None else []):
        t = rid(r.get('ReferenceType'))
        if r.get('IsForward', 'true') == 'true' and t in (35, 45, 46, 47): fw.setdefault(rid(r.text), (rid(e.get('NodeId')), t))
ids = {r[0] for r in rows}
out = []
for r in rows:
    r = list(r)
    if r[4] not in ids and r[0] in fw and fw[r[0]][0] in ids: r[4], r[5] = fw[r[0]]
    if r[4] not in ids: r[4] = r[5] = 0
    out.append(r)
order, done = [], {0}
while len(order) < len(out):
    n = 0
    for r in out:
        if r[0] not in done and r[4] in done: order.append(r); done.add(r[0]); n += 1
    if not n: raise SystemExit('unplaced %s' % [r for r in out if r[0] not in done])
for r in order:
    print('{%d,%d,"%s","%s",%d,%d,%d,%d,%d,"%s"},' % (r[0], r[1], r[2], r[3], r[4], r[5], r[6], r[7], r[8], r[9]))
