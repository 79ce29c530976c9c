import json,subprocess,sys
def mk(id,prop,edits,needs,what,main):
    p=subprocess.run(["python3","/verif/tools/mkseed.py",id,prop],input=json.dumps(dict(edits=edits,needs=needs,what=what,main=main)),text=True,capture_output=True); print(p.stdout[:1800] if '-v' in sys.argv else id, p.stderr[-600:])
