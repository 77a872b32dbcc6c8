import numpy as np
S={};T={};A={}
for l in open('out.txt'):
    w=l.split()
    if w[0]=='SPEC': S[(w[1],w[2])]=np.array(list(map(float,w[3:]))).reshape(-1,2)
    elif w[0]=='TRI': T.setdefault(w[1],{})[w[2]]=np.array(list(map(float,w[3:])))
    elif w[0]=='ARR': A[(w[1],w[2])]=np.array(list(map(float,w[3:])))
    else: N=w[1:]
print(len(N),set(N)^set(T['XYZ_D65']))
for k,v in S.items():
    d=np.diff(v[:,0]); 
    print(k,len(v),v[0,0],v[-1,0],set(np.round(d,9)))
# D illum
def D(n): return dict(S[('ILL_'+n,'-')])
ds={n:D(n) for n in ('D50','D55','D60','D65')}
com=sorted(set.intersection(*[set(d) for d in ds.values()]))
M=np.array([[ds[n][w] for w in com] for n in ds])
coef,res,_,_=np.linalg.lstsq(M[[0,1,3]].T,M[2],rcond=None); r=M[2]-coef@M[[0,1,3]]
print('D60 fit',coef,[(w,x) for w,x in zip(com,r) if abs(x)>0.02])
for n,d in ds.items():
    k=sorted(d)
    print(n,[ (w,d[w]-(d[w-5]+d[w+5])/2) for w in k if w%10==5 and abs(d[w]-(d[w-5]+d[w+5])/2)>0.0011], [w for w in k if w%5])
for c in 'xyz':
    v=S[('CMF_%s_bar'%c,'-')]; print(c,v[:,1].sum(), end=' ')
    y=v[:,1]; d4=np.abs(np.diff(y,4)); m=np.argsort(-d4)[:8]; print([(v[i+2,0],d4[i]) for i in m])
X=np.array([T['XYZ_D65'][n] for n in N])
for k in T:
    if k.endswith('_LINEAR') or k in('ACES_FROM_SRGB',):
        L=np.array([T[k][n] for n in N]); c,_,_,_=np.linalg.lstsq(X,L,rcond=None); r=L-X@c
        o=[(N[i],j,r[i,j]) for i,j in zip(*np.where(abs(r)>1e-3))]
        print(k,'max',abs(r).max(),o[:6])
        e=k.replace('_LINEAR','_ENCODED')
        if e in T:
            E=np.array([T[e][n] for n in N]); p=sorted(zip(L.ravel(),E.ravel())); bad=[(a,b) for (a,b) in zip(p,p[1:]) if b[1]<a[1]-1e-9 and b[0]>a[0]+1e-9]
            if bad: print('   nonmono',len(bad),bad[:4])
# spectral
cm={c:dict(S[('CMF_%s_bar'%c,'-')]) for c in 'xyz'}
d65=ds['D65']
W=np.arange(360,781)
dd=np.interp(W,sorted(d65),[d65[k] for k in sorted(d65)])
C=np.array([[cm[c].get(w,0) for w in W] for c in 'xyz'])
k=100/(dd*C[1]).sum()
for n in N:
    v=S[('SPECTRAL',n)]; s=np.interp(W,v[:,0],v[:,1]); x=k*C@(s*dd)
    d=x-T['XYZ_D65'][n]*(1 if T['XYZ_D65'][n].max()>2 else 100)
    if abs(d).max()>0.15: print('spec',n,x,T['XYZ_D65'][n])
    b=A[('BABELCOLOR',n)]; 
    vv=dict(v); w10=np.arange(380,771,10); q=np.interp(w10,v[:,0],v[:,1])
    if abs(b-q).max()>0.002: print('babel',n,[(w,bb,x) for w,bb,x in zip(w10,b,q) if abs(bb-x)>0.002][:5])
print('darkskin',abs(S[('DARK_SKIN','-')]-S[('SPECTRAL','dark_skin')]).max())
for a,b in (('MY_RED','BASIS_R'),('MY_GREEN','BASIS_G'),('MY_BLUE','BASIS_B')):
    print(a,S[(a,'-')].shape,S[(b,'-')].shape,abs(S[(a,'-')]-S[(b,'-')]).max() if S[(a,'-')].shape==S[(b,'-')].shape else '')
t=sum(S[(a,'-')][:,1] for a in('MY_RED','MY_GREEN','MY_BLUE')); print('my sum',t.min(),t.max())
for a in 'XYZ': 
    w=A[('W_'+a,'-')]; w10=np.arange(380,771,10)
    ref=np.array([d65[float(l)]*cm[a.lower()][float(l)] for l in w10]); ref=ref/sum(d65[float(l)]*cm['y'][float(l)] for l in w10)
    print('W',a,w.sum(),ref.sum(),abs(w/w.sum()-ref/ref.sum()).max(), np.argmax(abs(w/w.sum()-ref/ref.sum())))
print('----')
for n in 'WHITE CYAN MAGENTA YELLOW RED GREEN BLUE'.split():
    v=S[('SMITS_'+n,'-')]; print(n,v[:,1].round(4).tolist())
