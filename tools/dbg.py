import sys,threading,time,os
sys.path.insert(0,'/verif'); sys.setrecursionlimit(30000); threading.stack_size(1<<29)
def run(f):
    t=threading.Thread(target=f); t.start(); t.join()
