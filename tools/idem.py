import json,sys,difflib
r=json.load(open(sys.argv[1]))
inp=r['input']; det=r['detail']
out=inp.split('output:\n',1)[1]
second=det.split(':\n',1)[1]
print(inp.split('---')[1][:60])
for l in difflib.unified_diff(out.splitlines(),second.splitlines(),lineterm=''): print(l)
if len(sys.argv)>2: print(inp.split('\n---\n')[0])
