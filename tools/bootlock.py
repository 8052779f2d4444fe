#!/usr/bin/env python3
# One-off: derive sim/harness/Cargo.lock from the lock of the official workspace (there is no network to resolve one).
import re,sys
src=open('/opt/vp/ws/Cargo.lock').read()
def add(name,dep):
    global src
    m=re.search(r'\[\[package\]\]\nname = "%s"\n(.*?)(?=\n\[\[package\]\]|\Z)'%re.escape(name),src,re.S)
    blk=m.group(0)
    d=re.search(r'dependencies = \[\n(.*?)\]',blk,re.S)
    items=sorted(set(d.group(1).splitlines()+[' "%s",'%dep]))
    nb=blk.replace(d.group(0),'dependencies = [\n'+'\n'.join(items)+'\n]')
    src=src.replace(blk,nb)
add('grovedb-commitment-tree','orchard'); add('grovedb-storage','rocksdb')
def pkg(n,v,deps): return '\n[[package]]\nname = "%s"\nversion = "%s"\ndependencies = [\n%s]\n'%(n,v,''.join(' "%s",\n'%x for x in sorted(deps)))
h=["grovedb","grovedb-merk","grovedb-element","grovedb-query","grovedb-costs","grovedb-path","grovedb-storage","grovedb-version","grovedb-merkle-mountain-range","grovedb-bulk-append-tree","grovedb-dense-fixed-sized-merkle-tree","grovedb-commitment-tree","grovedb-epoch-based-storage-flags","rocksdb","blake3","bincode","serde","serde_json","intmap"]
src+=pkg('gsim','0.1.0',h)+pkg('orchard','0.11.0',['blake3','incrementalmerkletree'])+pkg('rocksdb','0.24.0',[])
open('/verif/sim/harness/Cargo.lock','w').write(src)
