import re,random,json,os,sys
R='/tmp/mk/monotone'; random.seed(7)
out=[]
for d,_,fs in os.walk(R):
    for f in sorted(fs):
        p=os.path.join(d,f)
        if '/s3' in p or not f.endswith(('.c','.h')) or f in('data.h','json.c','crc.c','test.c','error.h','logger.h','logger.c','log.h','stats.h','monotone_private.h'): continue
        L=open(p).read().split('\n')
        infn=False
        for i,l in enumerate(L):
            if l=='{': infn=True
            if l=='}': infn=False
            if not infn: continue
            if l.strip().startswith(('//','log(','error(','assert(','#')): continue
            c=[]
            m=re.match(r'^(\t+)((?:[a-zA-Z_][\w\->\.\*\[\]]*)\s*(\(|=|\+=|-=|\+\+|--|\|=).*;)$',l)
            if m and not re.match(r'^\t+(auto|return|guard|goto|int|bool|uint|char|struct|const|static|log|error|assert|list_init|buf_init|str_init|rethrow)\b',l) and not re.match(r'^\t+\w+\*?\s+\w+\s*=',l):
                c.append(('del',m.group(1)+';'))
            if re.match(r'^\t+(break|continue|return);$',l): c.append(('del',re.match(r'^\t+',l).group(0)+';'))
            m=re.match(r'^(\t+)(if|while) ?\((.*)\)( \{)?$',l)
            if m and 'enter(' not in l and 'leave(' not in l and l.count('(')==l.count(')'):
                if m.group(2)=='if':
                    c.append(('neg',f"{m.group(1)}if (!({m.group(3)})){m.group(4) or ''}"))
                    c.append(('false',f"{m.group(1)}if (0 && ({m.group(3)})){m.group(4) or ''}"))
            for a,b in (('<=','<'),(' < ',' <= '),('>=','>'),(' > ',' >= '),('==','!='),('&&','||'),('||','&&'),(' + 1',''),(' - 1',''),('true','false'),('false','true'),(' + ',' - '),('_LOCAL','_CLOUD')):
                for mm in re.finditer(re.escape(a),l):
                    if a in(' < ',' > ',) and '->' in l[mm.start()-1:mm.end()+1]: continue
                    if a=='<=' and l[mm.start()-1]=='<' : continue
                    if '"' in l: continue
                    c.append((a+'>'+b,l[:mm.start()]+b+l[mm.end():]))
            for k,n in c: 
                if n!=l: out.append(dict(file=os.path.relpath(p,'/tmp/mk'),line=i,kind=k,old=l,new=n))
random.shuffle(out)
# at most one mutant per (file,line)
seen=set(); sel=[]
for m in out:
    k=(m['file'],m['line'])
    if k in seen: continue
    seen.add(k); sel.append(m)
print(len(out),len(sel))
json.dump(sel,open('/tmp/mut/all.json','w'))
