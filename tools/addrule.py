import json,sys
# usage: addrule.py ID 'rule' 'states' 'real;real' 'stub;stub' 'assump;assump'
R=json.load(open('/verif/rules.json'))
i,r,s,re_,st,a=sys.argv[1:7]
R[i]=dict(rule=r,states=s,real=re_.split(';'),stub=st.split(';'),assumptions=a.split(';'))
json.dump(dict(sorted(R.items())),open('/verif/rules.json','w'),indent=1)
