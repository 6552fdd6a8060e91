
import os,json
M=[]
for i in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{i}/meta.json'))
    M.append((i,[m['property']],f'/verif/seeded/{i}/patch.diff'))
