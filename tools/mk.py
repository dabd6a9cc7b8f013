import os,sys
def mk(id,edits,prop,needs,breaks,pkg,demo,race=False,also=(),extra=()):
    d='/tmp/spec/'+id; os.makedirs(d,exist_ok=True)
    open(d+'/spec.py','w').write('EDITS=%r\nPROP=%r\nNEEDS=%r\nBREAKS=%r\nPKG=%r\nRACE=%r\nALSO=%r\nEXTRA=%r\n'%(edits,prop,needs,breaks,pkg,race,list(also),list(extra)))
    open(d+'/demo_test.go','w').write(demo.lstrip())
