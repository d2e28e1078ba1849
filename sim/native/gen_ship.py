#!/usr/bin/env python3
"""Writes the entries of ship*.cpp from golden_ship.inc (run by hand after a change of that file)."""
import re,os
here=os.path.dirname(os.path.abspath(__file__))
S={};V={}
for l in open(here+'/golden_ship.inc'):
    m=re.match(r'"([sv]) (.*)\\n"',l)
    if not m: continue
    p=m[2].split(' | ')
    if m[1]=='s':
        n,_,b=p[0].partition(' : ')
        S[n]=(b,[x.split(' ',1)[1] for x in p[1:]],[x.split(' ',1)[0] for x in p[1:]])
    else: V[p[0]]=p[1:]
strip=lambda t: re.sub(r'(\[\]|\?)$','',t)
def members(n):
    if n in S: return ([S[n][0]] if S[n][0] else [])+[strip(x) for x in S[n][1]]
    return [strip(x) for x in V[n]]
def uses(n,bad,seen):
    if n in seen: return False
    seen=seen|{n}
    if bad(n): return True
    return (n in S or n in V) and any(uses(m,bad,seen) for m in members(n))
status={'transaction_trace_v0','transaction_receipt_header'}
def caps(n):
    c=['cLite']
    if not uses(n,lambda x:x=='get_blocks_result_v1',frozenset()): c.append('cJ')
    hard=lambda x: x=='bytes' or x in status or x.startswith('prunable') or x=='varint32'
    if not uses(n,hard,frozenset()):
        c.append('cP'); c.append('cK')
    return '|'.join(c) or '0'
names=list(S)+list(V)
k=4
for i in range(k):
    with open(f'{here}/ship{i+1}.cpp','w') as f:
        f.write('// uses the code under test\n// written by gen_ship.py\n#include "impl.hpp"\nusing namespace nat;\n')
        # spread: related types together
        part=names[i*len(names)//k:(i+1)*len(names)//k]
        for n in part:
            c=f'chain_types::{n}' if n=='block_info' else f'eosio::ship_protocol::{n}'
            f.write(f'NAT("ship.{n}", "{n}", {caps(n)}, {c})\n')
