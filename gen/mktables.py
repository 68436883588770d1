#!/usr/bin/env python3
"""Writes spec/TealTables.tla and spec/docs.json (authoring helper, not part of any check).

The instruction table is taken from the language specification shipped with the
project (langspec.json: operand and result types) plus what it does not hold
(versions, modes, immediates, costs), which was transcribed once from the
documentation tables of the pinned tree (dump.json) and then reviewed against
the TEAL reference.  The result is committed; checks never regenerate it."""
import json,sys
dump=json.load(open(sys.argv[1])); lang={o['Name']:o for o in json.load(open('/repo/langspec.json'))['Ops']}
KIND={1:"const",2:"u64",3:"u8",4:"i8",5:"bytes",6:"txn",7:"itxn",8:"txna",9:"json",10:"ecdsa",11:"global",12:"label",
 13:"holding",14:"aparams",15:"appparams",16:"acct",17:"vrf",18:"sig",19:"addr",21:"b64enc",22:"block",23:"ec"}
T={'U':'uint64','B':'bytes','.':'any'}
def q(s): return '"'+s.replace('\\','\\\\').replace('"','\\"')+'"'
def seq(l): return "<< "+", ".join(l)+" >>" if l else "<< >>"
FIELDOPS={'txn':1,'gtxn':2,'gtxns':1,'txna':1,'gtxna':2,'gtxnsa':1,'itxn':1,'itxna':1,'gitxn':2,'gitxna':2,'txnas':1,'gtxnas':2,
 'gtxnsas':1,'itxnas':1,'gitxnas':2,'global':1,'asset_holding_get':1,'asset_params_get':1,'app_params_get':1,'acct_params_get':1,'block':1}
SPECIAL=set("int byte pushint pushbytes pushints pushbytess method addr err return b bz bnz switch match callsub retsub proto frame_dig frame_bury "
 "bury popn dupn dup dup2 dig swap cover uncover load store stores intcblock bytecblock".split())
EC={'ec_add':("BB","B"),'ec_scalar_mul':("BB","B"),'ec_pairing_check':("BB","U"),'ec_multi_exp':("BB","B"),'ec_subgroup_check':("B","U"),'ec_map_to':("B","B")}
COST={'sha256':('ver',7,35),'keccak256':('ver',26,130),'sha512_256':('ver',9,45),'sha3_256':130,'ed25519verify':1900,'ed25519verify_bare':1900,
 'ecdsa_verify':('field',[1700,2500]),'ecdsa_pk_decompress':('field',[650,2400]),'ecdsa_pk_recover':2000,'divmodw':20,'expw':10,'sqrt':4,
 'b+':10,'b-':10,'b*':20,'b/':20,'b%':20,'b|':6,'b&':6,'b^':6,'b~':4,'bsqrt':40,'vrf_verify':5700,
 'base64_decode':('len',0,1,16,1),'json_ref':('len',1,25,7,2),
 'ec_add':('field',[10,10,20,20]),'ec_scalar_mul':('field',[100,100,200,200]),'ec_multi_exp':('field',[100,100,200,200]),
 'ec_subgroup_check':('field',[100,100,200,200]),'ec_map_to':('field',[100,100,200,200]),'ec_pairing_check':('field',[1000,1000,2000,2000])}
ALT={'txn':[(2,'txna')],'gtxn':[(3,'gtxna')],'gtxns':[(2,'gtxnsa')],'replace':[(0,'replace3'),(1,'replace2')],'extract':[(0,'extract3')]}
rows=[]; docs={}; pyops={}
for n in sorted(dump['ops']):
    o=dump['ops'][n]
    imm=[]; seen=False
    for a in o['Args']:
        opt=a['Optional'] and not seen
        seen=seen or a['Optional']
        imm.append('[k |-> %s, opt |-> %s, arr |-> %s]'%(q(KIND[a['Type']]),str(opt).upper(),str(a['Array']).upper()))
    if n in EC: pops,push=EC[n]
    elif n in lang: pops,push=lang[n].get('Args',''),lang[n].get('Returns','')
    else: pops,push='',''
    pops=[T[c] for c in pops]; push=[T[c] for c in push]
    if n in FIELDOPS: push[0]='field'
    eff=n if n in SPECIAL else 'std'
    if eff!='std': pops=push=[]
    c=COST.get(n,1)
    if isinstance(c,int): cost='[k |-> "const", n |-> %d]'%c
    elif c[0]=='ver': cost='[k |-> "ver", one |-> %d, more |-> %d]'%(c[1],c[2])
    elif c[0]=='field': cost='[k |-> "field", tab |-> %s]'%seq([str(x) for x in c[1]])
    else: cost='[k |-> "len", at |-> %d, base |-> %d, per |-> %d, unit |-> %d]'%c[1:]
    alt=seq(['[n |-> %d, op |-> %s]'%(k,q(v)) for k,v in ALT.get(n,[])])
    rows.append('  [name |-> %s, app |-> %d, sig |-> %d, imm |-> %s,\n   pops |-> %s, push |-> %s, eff |-> %s, fld |-> %d,\n   cost |-> %s, alt |-> %s]'%(
      q(n),o['App'],o['Sig'],seq(imm),seq([q(x) for x in pops]),seq([q(x) for x in push]),q(eff),FIELDOPS.get(n,0),cost,alt))
    pyops[n]=dict(app=o['App'],sig=o['Sig'],imm=[dict(k=KIND[a['Type']],opt=a['Optional'],arr=a['Array'],name=a['Name']) for a in o['Args']],pops=pops,push=push,eff=eff,fld=FIELDOPS.get(n,0),cost=c,alt=ALT.get(n,[]))
    docs[n]=dict(doc=o['Doc'],full=o['FullDoc'],args=o['ArgsSig'],fullsig=o['FullSig'],argnames=[a['Name'] for a in o['Args']])
fields={}; pyfields={}
ftabs=[]
for k in ["txn","global","ecdsa","b64enc","json","vrf","block","holding","aparams","appparams","acct","ec"]:
    fs=sorted(dump[k],key=lambda f:f['Field'])
    assert [f['Field'] for f in fs]==list(range(len(fs)))
    fields[k]=[dict(name=f['Name'],note=f['Note']) for f in fs]
    pyfields[k]=[dict(name=f['Name'],type=f['Type'],arr=f['Array'],ver=f['Version'],itx=f['Itx'],note=f['Note']) for f in fs]
    ftabs.append('  [kind |-> %s, tab |-> <<\n%s >>]'%(q(k),",\n".join(
      '    [name |-> %s, type |-> %s, arr |-> %s, ver |-> %d, itx |-> %d]'%(q(f['Name']),q(f['Type'] if f['Type']!='(none)' else 'none'),str(f['Array']).upper(),f['Version'],f['Itx']) for f in fs)))
# cross-check with the language specification
enum={'txn':'txn','global':'global','asset_holding_get':'holding','asset_params_get':'aparams','app_params_get':'appparams','acct_params_get':'acct','block':'block'}
for op,k in enum.items():
    l=lang[op]
    if l.get('ArgEnum'):
        assert l['ArgEnum']==[f['name'] for f in fields[k]],op
        assert [T[c] for c in l['ArgEnumTypes']]==[f['Type'] for f in sorted(dump[k],key=lambda f:f['Field'])],op
        print("langspec agrees:",op)
consts=sorted(list(dump['txntype'].items())+list(dump['oncomp'].items()))
with open('/verif/spec/TealTables.tla','w') as f:
    f.write('''----------------------------- MODULE TealTables -----------------------------
(***************************************************************************)
(* The instruction, field and constant tables of the language.             *)
(*  app, sig  lowest version in application / logicsig mode (0: not        *)
(*            available in that mode)                                      *)
(*  imm       immediates: kind k, optional opt, repeated arr               *)
(*  pops      operand types, deepest first; push result types, "field" is  *)
(*            the type of the field given by immediate number fld          *)
(*  eff       "std", or the name of an instruction with its own effect     *)
(*  cost      constant, by version, by field, or by operand length         *)
(*  alt       the instruction meant when n immediates are given            *)
(* Written by gen/mktables.py, committed, never regenerated by a check.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC

\\* entries by name (written with @@ so that TLC computes the tables once)
Index(list) == FoldLeft(LAMBDA f, e : f @@ (e.name :> e), << >>, list)

OpList == <<
''' + ",\n".join(rows)+''' >>

OpNames == {OpList[i].name : i \\in 1..Len(OpList)}
OpOf == Index(OpList)

FieldList == <<
'''+",\n".join(ftabs)+''' >>

FieldKinds == {FieldList[i].kind : i \\in 1..Len(FieldList)}
\\* the fields of a kind; field number n is entry n + 1
FieldsOf == FoldLeft(LAMBDA f, e : f @@ (e.kind :> e.tab), << >>, FieldList)
FieldNames == FoldLeft(LAMBDA f, e : f @@ (e.kind :> {e.tab[i].name : i \\in 1..Len(e.tab)}), << >>, FieldList)
FieldNum == FoldLeft(LAMBDA f, e :
              f @@ (e.kind :> FoldLeft(LAMBDA g, i : g @@ (e.tab[i].name :> i - 1), << >>,
                                       [i \\in 1..Len(e.tab) |-> i])), << >>, FieldList)

\\* named integer constants of the int instruction
IntConstList == <<
'''+",\n".join('  [name |-> %s, v |-> %d]'%(q(n),v) for n,v in consts)+''' >>
IntConstNames == {IntConstList[i].name : i \\in 1..Len(IntConstList)}
IntConstOf == FoldLeft(LAMBDA f, e : f @@ (e.name :> e.v), << >>, IntConstList)
=============================================================================
''')
json.dump(dict(ops=docs,fields=fields,consts=dict(consts)),open('/verif/spec/docs.json','w'),indent=1,sort_keys=True)
json.dump(dict(ops=pyops,fields=pyfields,consts=dict(consts)),open('/verif/spec/tables.json','w'),indent=0,sort_keys=True)
