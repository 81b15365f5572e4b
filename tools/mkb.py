import sys
def cfg(name, caps, topics, profile, steps, subs, msgs, calls, burst, opened, ghosts):
    inv="Consistent Room Outside Digesting" + (" Once Faithful InOrder Kept" if ghosts else "")
    open('/verif/spec/MCBroker_%s.cfg'%name,'w').write('''CONSTANTS
  Caps = {%s}
  TopicList <- %s
  Profile = "%s"
  MaxSteps = %d
  MaxSubs = %d
  MaxMsgs = %d
  MaxCalls = %d
  Burst = %s
  Opened = %s
  Ghosts = %s
INIT Init
NEXT Next
VIEW View
INVARIANT %s
'''%(caps,'OneTopic' if topics==1 else 'TwoTopics',profile,steps,subs,msgs,calls,str(burst).upper(),str(opened).upper(),str(ghosts).upper(),inv))
B=lambda n,*a: cfg(n,*a)
#      name      caps   topics profile   steps subs msgs calls burst opened ghosts
cfg('c01','0, 1',2,'messages',7,2,3,4,False,True,False)
cfg('c02','0, 1, 2',1,'order',8,2,4,5,False,True,False)
cfg('c03','0, 1',1,'capacity',7,1,3,4,False,True,False)
cfg('c03b','0, 1, 2',1,'cancelled',6,1,2,3,False,True,False)
cfg('c04','0, 1',1,'sessions',6,2,2,4,False,False,False)
cfg('c05','0, 1',1,'unsub',7,2,2,4,False,True,False)
cfg('c05b','0, 1',1,'unsubend',7,2,2,4,False,True,False)
cfg('c06','0, 1',1,'isolation',6,2,2,4,False,True,False)
cfg('ghost','0, 1',2,'messages',7,2,3,3,False,True,True)
cfg('ghost_t','0, 1',2,'messages',7,2,3,3,True,True,True)
cfg('ghosto','0, 1, 2',1,'order',6,2,4,4,True,True,True)
cfg('ghosto_t','0, 1, 2',1,'order',7,2,4,4,True,True,True)
cfg('ghosts','0, 1',1,'sessions',5,2,2,3,True,False,True)
cfg('ghosts_t','0, 1',1,'sessions',6,2,2,3,True,False,True)
cfg('ghostt','0, 1',1,'capacity',7,1,3,4,True,True,True)
cfg('ghostt_t','0, 1',1,'capacity',8,1,4,4,True,True,True)
cfg('ghostall','0, 1',1,'all',5,2,3,4,True,False,True)
cfg('ghostall_t','0, 1',1,'all',6,2,3,4,True,False,True)

cfg('c08','0, 1',1,'digest',6,2,2,3,False,True,False)
cfg('c08_t','0, 1',1,'digest',7,2,3,3,False,True,False)
