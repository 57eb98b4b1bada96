"""Write the .cfg files of the script generators."""
import os
def cfg(name,pre,**k):
    t='SPECIFICATION Spec\n'
    for a in ('Init','Apply','Internal','Calls','Waits','Abs','Op'):
        t+='CONSTANT G%s <- %sG%s\n'%(a,pre,a)
    for a,v in k.items(): t+='CONSTANT %s = %s\n'%(a,v)
    t+='VIEW GView\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n'
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', name + '.cfg'), 'w').write(t)

def c(n,pre,hist=0,trail=5,pend=1,**k): cfg(n,pre,MaxTrail=trail,MaxPend=pend,Hist=hist,**k)
AB='{"a", "b"}'; ABC='{"a", "b", "c"}'
c('GenDeltaFifo','D',GKeys=AB,MaxLen=2,HasKnown='TRUE')
c('GenDeltaFifoNoKnown','D',GKeys=AB,MaxLen=2,HasKnown='FALSE')
c('GenDeltaFifoThorough','D',trail=6,GKeys=AB,MaxLen=3,HasKnown='TRUE')
c('GenFifo','P',trail=6,pend=2,GKeys=ABC)
c('GenFifoThorough','P',trail=6,pend=2,GKeys=ABC,hist=1)
c('GenWorkQueue','Q',trail=9,pend=2,GItems=AB,Delays='{}',hist=1)
c('GenWorkQueueThorough','Q',trail=10,pend=2,GItems=ABC,Delays='{}',hist=1)
c('GenDelayQueue','Q',trail=6,pend=1,GItems=AB,Delays='{0, 2, 4}')
c('GenDelayQueueThorough','Q',trail=7,pend=1,GItems=AB,Delays='{0, 2, 4}',hist=1)
c('GenIndexer','X',trail=3,GKeys='{1, 2}',Ivs='{}')
c('GenIndexerThorough','X',trail=4,GKeys='{1, 2}',Ivs='{}',hist=1)
for n in ('GenIndexer','GenIndexerThorough'):
    p=os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', n + '.cfg'); t=open(p).read().replace('Ivs = {}','Ivs <- CIvs'+('T' if 'Thor' in n else '')); open(p,'w').write(t)
c('GenClock','C',trail=5,Ids='{1, 2}',Ds='{0, 2, 3}',Moves='{0, 1, 2, 4, 9, -2}')
c('GenClockThorough','C',trail=6,Ids='{1, 2}',Ds='{0, 2, 3}',Moves='{0, 1, 2, 4, 9, -2}',hist=1)
for n in ('GenClock','GenClockThorough'):
    p=os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', n + '.cfg'); t=open(p).read().replace('Moves = {0, 1, 2, 4, 9, -2}','Moves <- CMoves'); open(p,'w').write(t)
for n,d,cp in (('GenBroadcastWait0','FALSE',0),('GenBroadcastWait1','FALSE',1),('GenBroadcastDrop','TRUE',1)):
    for t in ('','Thorough'):
        c(n+t,'B',trail=9 if t else 8,pend=2 if t else 1,Drop=d,Cap=cp,MaxW=2,MaxInc=3,QLen=25,hist=1 if t else 0)
