"""debug helper: print all violations of a check"""
import sys, multiprocessing as mp
sys.path[:0]=['/verif/lib','/verif','/repo/src']
import engine
engine.prepare()
mod=engine.load(sys.argv[1]); cases=list(mod.cases(sys.argv[2] if len(sys.argv)>2 else 'quick'))
W=int(sys.argv[3]) if len(sys.argv)>3 else 300
def f(i): return engine._safe(mod,cases[i]).viol
with mp.get_context('fork').Pool(8) as p:
    for i,v in enumerate(p.imap(f,range(len(cases)),chunksize=4)):
        for k,msg in v: print(i,msg[-W:].replace('\n',' '))
