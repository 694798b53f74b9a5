"""Builds instrumented and native executables from /repo's current working tree."""
import os, sys, subprocess, hashlib, glob, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE)
REPO=os.environ.get('SYM_REPO','/repo')
OUT=os.environ.get('SYM_BUILD',os.path.join(VERIF,'.build'))
LL='/usr/lib/llvm-18/bin/'
COMMON=["-fwrapv",'-O1','-Xclang','-disable-llvm-passes','-emit-llvm','-c','-w','-DNDEBUG','-ffp-contract=off','-fno-vectorize','-fno-slp-vectorize','-fno-math-errno','-fno-strict-aliasing']
INC=['-I'+REPO+'/delynoi/include','-I'+REPO+'/delynoi/src','-I'+REPO+'/lib/utilities/include','-I'+HERE,'-I'+VERIF+'/harness']
CXX=['clang++','-std=gnu++17','-D_GLIBCXX_ASSERTIONS']
CXXREPO=['clang++','-std=gnu++11','-D_GLIBCXX_ASSERTIONS']
CC=['clang','-std=gnu11','-DTRILIBRARY','-DANSI_DECLARATORS']
class BuildError(Exception): pass
def run(cmd):
    p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if p.returncode: raise BuildError(' '.join(cmd)+'\n'+p.stdout[-6000:])
    return p.stdout
def fhash(*files,extra=''):
    h=hashlib.sha256(extra.encode())
    for f in files: h.update(f.encode()); h.update(open(f,'rb').read())
    return h.hexdigest()[:20]
def repo_files():
    src=[]; hdr=[]
    for root in (REPO+'/delynoi/src',REPO+'/delynoi/include',REPO+'/lib/utilities/src',REPO+'/lib/utilities/include'):
        for d,_,fs in os.walk(root):
            for f in fs:
                p=os.path.join(d,f)
                if f.endswith(('.cpp','.c','.cc')): src.append(p)
                elif f.endswith(('.h','.hpp')): hdr.append(p)
    return sorted(src),sorted(hdr)
def tree_hash():
    s,h=repo_files(); return fhash(*s,*h)
class Lock:
    def __init__(s,n): os.makedirs(OUT,exist_ok=True); s.f=open(os.path.join(OUT,n),'w')
    def __enter__(s): fcntl.flock(s.f,fcntl.LOCK_EX)
    def __exit__(s,*a): fcntl.flock(s.f,fcntl.LOCK_UN); s.f.close()
def tool():
    with Lock('tool.lock'):
        src=HERE+'/syminst.cpp'; exe=os.path.join(OUT,'syminst-'+fhash(src))
        if not os.path.exists(exe):
            fl=run([LL+'llvm-config','--cxxflags']).split()
            run(['clang++','-O1']+fl+['-std=c++17','-fno-rtti','-w',src,'-o',exe+'.t','-L/usr/lib/llvm-18/lib','-lLLVM-18']); os.rename(exe+'.t',exe)
        objs=[]
        for f in ('symrt','symnative'):
            s=HERE+'/'+f+'.cpp'; o=os.path.join(OUT,f+'-'+fhash(s)+'.o')
            if not os.path.exists(o): run(['g++','-O2','-w','-c',s,'-o',o+'.t']); os.rename(o+'.t',o)
            objs.append(o)
        return exe,objs[0],objs[1]
def lib(jobs=8):
    """bitcode of the whole repository library"""
    with Lock('lib.lock'):
        src,hdr=repo_files(); hh=fhash(*hdr,extra=' '.join(COMMON))
        bcs=[]; todo=[]
        for s in src:
            if s.endswith('lib/clipper.cpp'): pass
            # sources that other sources include textually keep their dependence through this hash
            key=fhash(s,*[x for x in src if x!=s and not x.endswith('.c')],extra=hh) if not s.endswith('.c') else fhash(s,*hdr)
            o=os.path.join(OUT,os.path.basename(s)+'-'+key+'.bc'); bcs.append(o)
            if not os.path.exists(o): todo.append((s,o))
        def comp(t):
            s,o=t; base=CC if s.endswith('.c') else CXXREPO
            run(base+COMMON+INC+[s,'-o',o+'.t']); os.rename(o+'.t',o)
        with ThreadPoolExecutor(jobs) as ex: list(ex.map(comp,todo))
        o=os.path.join(OUT,'lib-'+fhash(*bcs)+'.bc')
        if not os.path.exists(o): run([LL+'llvm-link','-o',o+'.t']+bcs); os.rename(o+'.t',o)
        return o
def harness(name,native=False,defs=(),asan=False):
    """asan: every memory access of the harness and the library is checked by AddressSanitizer"""
    exe,rt,nat=tool(); l=lib()
    src=os.path.join(VERIF,'harness',name+'.cpp')
    hs=sorted(glob.glob(VERIF+'/harness/*.h'))+[HERE+'/sym.h']
    key=fhash(src,*hs,l,exe,rt,nat,extra=' '.join(defs)+('asan' if asan else ''))
    d=os.path.join(OUT,'h-'+name+'-'+key); os.makedirs(d,exist_ok=True)
    with Lock('h-%s.lock'%name):
        fin=os.path.join(d,'native' if native else 'sym')
        if os.path.exists(fin): return fin
        opt=os.path.join(d,'opt.bc')
        if not os.path.exists(opt):
            run(CXX+COMMON+INC+list(defs)+[src,'-o',d+'/h.bc'])
            run([LL+'llvm-link',d+'/h.bc',l,'-o',d+'/all.bc'])
            run([LL+'opt','-passes=internalize,globaldce','--internalize-public-api-list=main',d+'/all.bc','-o',d+'/int.bc'])
            run([LL+'opt','-passes=default<O1>','-vectorize-loops=false','-vectorize-slp=false',d+'/int.bc','-o',opt+'.t'])
            if asan: os.rename(opt+'.t',d+'/pre.bc'); run([LL+'opt','-passes=forceattrs','--force-attribute=sanitize_address',d+'/pre.bc','-o',opt+'.t'])
            os.rename(opt+'.t',opt)
        sa=['-fsanitize=address'] if asan else []
        if native: run(['clang++','-O1','-w']+sa+[opt,nat,'-o',fin+'.t'])
        else:
            run([exe,opt,d+'/inst.bc']); run(['clang++','-O1','-w']+sa+[d+'/inst.bc',rt,'-o',fin+'.t'])
        if not native: os.rename(d+'/inst.bc.sites',fin+'.sites')
        os.rename(fin+'.t',fin)
        for f in ('h.bc','all.bc','int.bc','inst.bc','pre.bc'):
            try: os.remove(os.path.join(d,f))
            except OSError: pass
        return fin
if __name__=='__main__':
    import time
    t=time.time(); tool(); print('tool',time.time()-t); t=time.time(); print(lib(),time.time()-t)
    for n in sys.argv[1:]: t=time.time(); print(harness(n),time.time()-t)
