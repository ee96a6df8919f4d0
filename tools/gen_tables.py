#!/usr/bin/env python3
"""Rebuilds spec/lalr.txt: bison's LALR(1) automaton (no default reductions) for a yacc grammar.

usage: gen_tables.py GRAMMAR.y OUT.txt
Format (one record per line):
  T name            terminal, ids in order from 0 ($end is 0)
  N name            nonterminal, ids in order from 0
  R lhs sym...      rule 0.. ; symbols are t<id> / n<id>; rule 0 is $accept
  L t t t ...       lookahead set, ids in order from 0
  S                 starts a state;  s t:state ...   shifts
                    g n:state ...    gotos
                    r rule:L ...     reductions on a lookahead set
                    e t ...          explicit errors (%nonassoc)
                    a                accept on $end
"""
import sys,subprocess,tempfile,os
import xml.etree.ElementTree as ET
def generate(gram,out,quiet=True):
    d=tempfile.mkdtemp()
    try:
        x=os.path.join(d,'g.xml')
        p=subprocess.run(['bison','-Dlr.default-reduction=accepting','--xml='+x,'-Wno-deprecated','-Wno-other','-o',os.path.join(d,'g.c'),gram],capture_output=True,text=True)
        if p.returncode!=0: raise RuntimeError('bison: '+p.stderr[:2000])
        terms={};nts={};rules=[];states=[];lsets={}
        usedsyms=set()
        conflicts=p.stderr
        cur=None
        for ev,el in ET.iterparse(x,events=('end',)):
            t=el.tag
            if t=='terminal': terms.setdefault(el.get('name'),len(terms))
            elif t=='nonterminal': nts.setdefault(el.get('name'),len(nts))
            elif t=='rule' and el.find('lhs') is not None:
                rules.append((el.find('lhs').text,[s.text for s in el.iter('symbol')]))
            elif t=='state':
                sh=[];go=[];er=[];red={};acc=False
                for tr in el.iter('transition'):
                    (sh if tr.get('type')=='shift' else go).append((tr.get('symbol'),int(tr.get('state'))))
                for e in el.iter('error'): er.append(e.get('symbol'))
                for r in el.iter('reduction'):
                    if r.get('enabled')!='true': continue
                    if r.get('rule')=='accept': continue
                    assert r.get('symbol')!='$default' or r.get('rule')=='accept',('default',el.get('number'))
                    red.setdefault(int(r.get('rule')),[]).append(r.get('symbol'))
                acc=any(a=='$end' for a,_ in sh)
                states.append((sh,go,er,red,acc)); el.clear()
        o=[]
        for n in terms: o.append('T '+n)
        for n in nts: o.append('N '+n)
        def sym(s): return 't%d'%terms[s] if s in terms else 'n%d'%nts[s]
        for l,r in rules: o.append('R n%d'%nts[l]+''.join(' '+sym(s) for s in r))
        st=[]
        for sh,go,er,red,acc in states:
            st.append('S')
            if sh: st.append('s '+' '.join('%d:%d'%(terms[a],b) for a,b in sh if a!='$end'))
            if go: st.append('g '+' '.join('%d:%d'%(nts[a],b) for a,b in go))
            if red:
                q=[]
                for k in sorted(red):
                    key=tuple(sorted(terms[a] for a in red[k]))
                    q.append('%d:%d'%(k,lsets.setdefault(key,len(lsets))))
                st.append('r '+' '.join(q))
            if er: st.append('e '+' '.join(str(terms[a]) for a in er))
            if acc: st.append('a')
        for k in lsets: o.append('L '+' '.join(map(str,k)))
        o+=st
        with open(out,'w') as f: f.write('\n'.join(o)+'\n')
        return conflicts
    finally:
        import shutil; shutil.rmtree(d)
if __name__=='__main__':
    sys.stderr.write(generate(sys.argv[1],sys.argv[2]))
