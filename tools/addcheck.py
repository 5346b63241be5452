"""usage: addcheck.py ID 'technique' 'bounds' [ (key, desc) ... from stdin lines key|desc ]"""
import sys
cid, tech, bound = sys.argv[1:4]
p='/verif/tools/notes.py'; s=open(p).read()
s=s.replace('''}

NOT_APP''',f'''    "{cid}": ({tech!r},
            {bound!r}),
}}

NOT_APP''')
for line in sys.stdin.read().splitlines():
    if line.strip():
        c,k,d=line.split("|")
        s=s.replace("}\n\nKNOWN",f'    {k!r}: ({c!r}, {d!r}),\n}}\n\nKNOWN')
open(p,'w').write(s)
