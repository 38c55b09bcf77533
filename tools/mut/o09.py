import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mut import show
T='transparency.go'
L='	tm.syncer.Lock()\n	defer tm.syncer.Unlock()\n'
F='func (tm *TransparencyMap) Find(transparency Transparency) (Transparency, bool) {\n	key := transparency.GetId()\n\n'+L
show('find unlocked',[(T,F,F.replace(L,''))])
show('early unlock',[(T,F+'\n	t, ok := tm.table[key]\n',F.replace('defer tm.syncer.Unlock()','')+'\n	tm.syncer.Unlock()\n	t, ok := tm.table[key]\n')])
show('miss leak',[(T,F+'''
	t, ok := tm.table[key]
	if !ok {
		return Transparency{}, false
	}
''',F.replace('	defer tm.syncer.Unlock()\n','')+'''
	t, ok := tm.table[key]
	if !ok {
		return Transparency{}, false
	}
	tm.syncer.Unlock()
''')])
show('value receiver',[(T,'func (tm *TransparencyMap) Find(','func (tm TransparencyMap) Find(')])
show('save calls find',[(T,'	tm.table[key] = transparency\n','	if old, ok := tm.Find(transparency); ok {\n		return old\n	}\n	tm.table[key] = transparency\n')])
show('rlock write',[(T,'	syncer sync.Mutex','	syncer sync.RWMutex'),(T,'syncer: sync.Mutex{}','syncer: sync.RWMutex{}'),(T,'Save(transparency Transparency) Transparency {\n'+L,'Save(transparency Transparency) Transparency {\n'+L.replace('Lock()','RLock()').replace('Unlock()','RUnlock()'))])
show('all returns table',[(T,'func defineBlendModeType','func (tm *TransparencyMap) All() map[string]Transparency {\n	tm.syncer.Lock()\n	defer tm.syncer.Unlock()\n	return tm.table\n}\n\nfunc defineBlendModeType')])
show('outside write',[('ext_g_state_obj.go','gp.curr.extGStatesMap.Save(opts.GetId(), extGState)','gp.curr.extGStatesMap.table[opts.GetId()] = extGState')])
show('benign rwmutex',[(T,'	syncer sync.Mutex','	syncer sync.RWMutex'),(T,'syncer: sync.Mutex{}','syncer: sync.RWMutex{}'),(T,F,F.replace('.Lock()','.RLock()').replace('.Unlock()','.RUnlock()'))])
show('benign helper',[(T,F,F.replace(L,L+'	return tm.lookup(key)\n}\n\nfunc (tm *TransparencyMap) lookup(key string) (Transparency, bool) {\n'))])
show('benign explicit unlock',[(T,F+'''
	t, ok := tm.table[key]
''',F.replace('	defer tm.syncer.Unlock()\n','')+'''
	t, ok := tm.table[key]
	tm.syncer.Unlock()
''')])
show('benign lock helpers',[(T,L,'	tm.lock()\n	defer tm.unlock()\n',1),(T,'func defineBlendModeType','func (tm *TransparencyMap) lock() { tm.syncer.Lock() }\n\nfunc (tm *TransparencyMap) unlock() { tm.syncer.Unlock() }\n\nfunc defineBlendModeType')])
show('benign closure defer',[(T,L,'	tm.syncer.Lock()\n	defer func() {\n		tm.syncer.Unlock()\n	}()\n',1)])
show('benign inner literal',[(T,F+'''
	t, ok := tm.table[key]
''',F.replace('Unlock()','Unlock()')+'''
	var t Transparency
	var ok bool
	func() {
		t, ok = tm.table[key]
	}()
''')])
show('bug: conditional closure',[(T,F,F.replace('	defer tm.syncer.Unlock()\n','	defer func() {\n		if key != "" {\n			tm.syncer.Unlock()\n		}\n	}()\n'))])
show('benign rlock closure',[(T,'	syncer sync.Mutex','	syncer sync.RWMutex'),(T,'syncer: sync.Mutex{}','syncer: sync.RWMutex{}'),(T,F,F.replace('.Lock()','.RLock()').replace('	defer tm.syncer.Unlock()\n','	defer func() {\n		tm.syncer.RUnlock()\n	}()\n'))])
