#!/usr/bin/env python3
"""Builds the explorer binaries from the current working tree of the library."""
import os, sys, glob, subprocess, hashlib, shutil, concurrent.futures as cf, time
HERE=os.path.dirname(os.path.abspath(__file__))
REPO=os.environ.get('CPUINFO_REPO','/repo')
REDEF="""open open64 openat read pread close malloc calloc realloc free strdup syscall getcpu sched_getcpu getauxval prctl qsort
pthread_once call_once pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock sched_yield write abort __assert_fail __sched_cpualloc __sched_cpufree dlopen dlsym dlclose dlerror __system_property_get""".split()
MAP={'__assert_fail':'venv_assert_fail','__sched_cpualloc':'venv_sched_cpualloc','__sched_cpufree':'venv_sched_cpufree','__system_property_get':'venv_property_get'}
THREAD=['memcpy','memmove','memset','memcmp','strlen','strnlen','strncpy','snprintf']
TOOLS=['printf','fprintf','vprintf','vfprintf','puts','fputs','fputc','putc','putchar','fwrite','fflush','exit']
def redef(threads=False,tools=False):
    r=[]
    for s in TOOLS if tools else []: r+=['--redefine-sym',f'{s}=venv_{s}']
    for s in THREAD if threads else []: r+=['--redefine-sym',f'{s}=vthr_{s}']
    for s in REDEF:
        r+=['--redefine-sym',f"{s}={MAP.get(s,'venv_'+s)}"]
    return r
def g(*pats,exclude=()):
    out=[]
    for p in pats:
        out+=sorted(glob.glob(os.path.join(REPO,p)))
    return [o for o in out if os.path.basename(o) not in exclude]
OS_FILES={'mach':('src/mach/*.c','mach'),'freebsd':('src/freebsd/*.c','freebsd'),'windows':(None,'windows'),'emscripten':('src/emscripten/*.c',None)}
def other_sources(arch,osname):
    own,sub=OS_FILES[osname.split('_')[0]]
    s=g('src/*.c')+(g(own) if own else [])
    if arch=='wasm': return s
    if arch in('x86_64','i386'): return s+g('src/x86/*.c',exclude=('mockcpuid.c',))+g('src/x86/cache/*.c',f'src/x86/{sub}/*.c')
    return s+g('src/arm/uarch.c','src/arm/cache.c',f'src/arm/{sub}/*.c')
def sources(arch,android,osname='linux',mock=False):
    if osname!='linux': return other_sources(arch,osname)
    if mock: return sources(arch,android)+g('src/linux/mockfile.c')+(g('src/x86/mockcpuid.c') if arch in('x86_64','i386') else [])
    common=g('src/*.c')+g('src/linux/*.c',exclude=('mockfile.c',))
    if arch in('x86_64','i386'):
        s=common+g('src/x86/*.c',exclude=('mockcpuid.c',))+g('src/x86/cache/*.c','src/x86/linux/*.c')
    elif arch=='arm64':
        s=common+g('src/arm/uarch.c','src/arm/cache.c')+g('src/arm/linux/*.c',exclude=('aarch32-isa.c',))
    elif arch=='arm32':
        s=common+g('src/arm/uarch.c','src/arm/cache.c')+g('src/arm/linux/*.c',exclude=('aarch64-isa.c',))
    elif arch=='riscv64':
        s=common+g('src/riscv/*.c','src/riscv/linux/*.c')
    if android: s+=g('src/arm/android/*.c')
    return s
CROSS={'arm64':('aarch64-linux-gnu-',168),'arm32':('arm-linux-gnueabihf-',345),'riscv64':('riscv64-linux-gnu-',168),'i386':('i686-linux-gnu-',318)}
def run(cmd,cwd=None):
    p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,cwd=cwd)
    if p.returncode!=0:
        raise RuntimeError('command failed: %s\n%s'%(' '.join(cmd),p.stdout[-4000:]))
    return p.stdout
def target_flags(arch,android,loglevel,san,cross,osname='linux',mock=False):
    f=['-O1','-g1','-std=c99','-D_GNU_SOURCE=1','-Wno-error','-w','-U_FORTIFY_SOURCE','-fno-stack-protector','-fno-pic','-fno-strict-aliasing',
       f'-DCPUINFO_LOG_LEVEL={loglevel}','-DCPUINFO_LOG_TO_STDIO=1']
    if not cross:
        f+=['-fno-builtin-abort']
        if arch not in('x86_64','wasm'): f+=['-include',f'{HERE}/shim/{arch}.h']
        if arch in('arm64','arm32'): f+=['-funsigned-char']
    elif arch=='arm32': f+=['-march=armv6+fp','-marm'] # as the native build, for which the newer architectures are not known at compile time
    elif arch=='riscv64': f+=['-msmall-data-limit=0'] # no further sections of static data
    if arch in('x86_64','i386'): f+=['-DCPUINFO_MOCK=1','-DCPUINFO_VERIF=1','-DVERIF_X86=1']
    elif mock: f+=['-DCPUINFO_MOCK=1']
    if arch in('arm32','arm64') and not mock: f+=[f'-I{HERE}/shim/override']
    if osname!='linux':
        f+=['-include',f'{HERE}/shim/os/{osname}.h',f"-I{HERE}/shim/{osname.split('_')[0]}"]
        if osname=='windows': f+=['-fshort-wchar']
    if android: f+=['-D__ANDROID__=1',f'-I{HERE}/shim/android']
    f+=[f'-I{REPO}/include',f'-I{REPO}/src',f'-I{REPO}/deps/clog/include']
    if san=='asan': f+=['-fsanitize=address','-fsanitize-address-use-after-scope','-fsanitize=bounds','-fno-sanitize-recover=bounds']
    if san=='tsan': f+=['-fsanitize=thread']
    return f
def build(out,arch,harness,android=False,loglevel=2,san='asan',cross=False,jobs=8,extra_defs=(),extra_targets=(),osname='linux',target_defs=(),tools=False,mock=False):
    """Builds one explorer binary; returns its path. cross: with the compiler for the architecture itself, without sanitizers."""
    if cross: san=None
    t0=time.time()
    d=os.path.join(out,f"{arch}{'-android' if android else ''}{'' if osname=='linux' else '-'+osname}-L{loglevel}-{san or 'plain'}{'-cross' if cross else ''}{'-mock' if mock else ''}-"+hashlib.md5(' '.join(harness).encode()).hexdigest()[:6])
    shutil.rmtree(d,ignore_errors=True)
    os.makedirs(d)
    pre=CROSS[arch][0] if cross else ''
    cc,cxx,ld,oc=pre+'gcc',pre+'g++',pre+'ld',pre+'objcopy'
    tf=target_flags(arch,android,loglevel,san,cross,osname,mock)+list(target_defs)
    jobsl=[]
    tobj=[]
    if tools: extra_targets=list(extra_targets)+g('tools/*.c',exclude=('gpu-dump.c',)+(() if arch in('x86_64','i386') else ('cpuid-dump.c',))+(() if osname=='linux' else ('cpuid-dump.c','auxv-dump.c','cpuinfo-dump.c')))
    for s in sources(arch,android,osname,mock)+list(extra_targets):
        o=os.path.join(d,os.path.relpath(s,REPO).replace('/','_').replace('..','up')+'.o')
        fl=list(tf)
        # file access of the library goes to the simulated environment in both modes; only CPUID uses the mock interface
        if arch in('x86_64','i386') and '/src/linux/' in s and not mock: fl=[x for x in fl if x!='-DCPUINFO_MOCK=1']
        jobsl.append([cc]+fl+['-c',s,'-o',o]); tobj.append(o)
    dumpo=os.path.join(d,'dump.o')
    jobsl.append([cc]+[x for x in tf if san=='tsan' or not x.startswith('-fsanitize')]+['-c',os.path.join(HERE,'dump.c'),'-o',dumpo])
    hobj=[]
    for h in harness:
        o=os.path.join(d,'h_'+h.replace('/','_')+'.o')
        fl=['-O1','-g1','-std=c++17','-fno-pic','-Wall','-Wno-unused-function',f'-I{HERE}',f'-I{REPO}/include',f'-DVARCH_{arch}=1',f'-DVOS_{osname}=1',f'-DVLOGLEVEL={loglevel}',f'-DVENV_MOCK={int(mock)}']+list(extra_defs)
        if cross: fl.append(f'-DHOST_NR_GETCPU={CROSS[arch][1]}')
        jobsl.append([cxx]+fl+['-c',os.path.join(HERE,h),'-o',o]); hobj.append(o)
    with cf.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(run,jobsl))
    for o in tobj:
        n=os.path.basename(o)
        if tools and n.startswith('tools_'): run([oc,'--redefine-sym','main=vtool_'+n[6:-4].replace('-','_'),o])
    rel=os.path.join(d,'target.o'); rel2=os.path.join(d,'target2.o')
    run([ld,'-r','-o',rel]+tobj)
    # merge every flavour of data section, so that the whole static state can be restored
    run([oc]+redef(san=='tsan',tools)+['--rename-section','.data=vt_data','--rename-section','.bss=vt_bss',rel,rel2])
    exe=os.path.join(d,'mc')
    link=[cxx,'-no-pie','-Wl,-z,now','-o',exe,rel2,dumpo]+hobj+['-lpthread']
    if san=='asan': link+=['-fsanitize=address,undefined']
    if cross: link+=['-static']
    run(link)
    return exe,time.time()-t0
if __name__=='__main__':
    print(build(sys.argv[1],sys.argv[2],sys.argv[3].split(',')))
