// LD_PRELOAD monitor: sees every file system call below a prefix directory.
// Configured at run time with vf_configure("key=value\n..."):
//   prefix=<dir>        only paths below are events
//   trace=<file>        append one line per event
//   kill=<n>            SIGKILL self before the n-th mutating event (1-based)
//   also=<pid>          with kill: this one first
//   torn=1              with kill: if event n is a write, do half of it first
//   fail=<n>            n-th mutating event fails
//   errno=<e>           with this errno
//   sticky=1            and every later allocating event as well
//   stop=<n>            block before the n-th event (all kinds)
//   stopon=<kind>:<substr>[:<k>]  block before the k-th event of that kind
//                       whose path contains substr
//   failon=<kind>:<substr>[:<k>]
//   ctl=<file>          <ctl>.stopped is created when blocked, <ctl>.go releases
//   statc=1             stat() calls are events too (not counted as mutating)
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdarg.h>
#include <signal.h>
#include <time.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <sys/file.h>
#include <limits.h>

static char prefix[PATH_MAX]; static size_t plen;
static int tracefd = -1;
static long killn, failn, stopn, failerr = ENOSPC; static int torn, sticky;
static char stopkind[32], stopsub[256], failkind[32], failsub[256];
static long stopk, failk, stopseen, failseen;
static char ctl[PATH_MAX];
static volatile long mut, all;
static int active, failing; static long also;
static __thread int inside;

static void out(const char *s){ if(tracefd>=0){ long r=syscall(SYS_write,tracefd,s,strlen(s)); (void)r; } }

static int below(const char *p){ return p && active && !strncmp(p,prefix,plen) && (p[plen]=='/'||p[plen]==0)
   && !strstr(p,"/backy.log"); }

static void fdpath(int fd,char*buf){ char l[64]; snprintf(l,64,"/proc/self/fd/%d",fd);
  ssize_t n=readlink(l,buf,PATH_MAX-1); buf[n<0?0:n]=0; }

static void abspath(int dirfd,const char*p,char*buf){
  if(!p){buf[0]=0;return;}
  if(p[0]=='/'){ strncpy(buf,p,PATH_MAX-1); buf[PATH_MAX-1]=0; return; }
  char d[PATH_MAX];
  if(dirfd==AT_FDCWD){ if(!getcwd(d,sizeof d)) d[0]=0; } else fdpath(dirfd,d);
  if(!strcmp(p,".")) snprintf(buf,PATH_MAX,"%s",d); else
  snprintf(buf,PATH_MAX,"%.2000s/%.2000s",d,p);
}
static void stopnow(void){
  char f[PATH_MAX+16]; snprintf(f,sizeof f,"%s.stopped",ctl);
  int fd=syscall(SYS_openat,AT_FDCWD,f,O_CREAT|O_WRONLY|O_CLOEXEC,0644);
  char pid[16]; snprintf(pid,16,"%d",(int)getpid());
  if(fd>=0) { long r=syscall(SYS_write,fd,pid,strlen(pid)); (void)r; syscall(SYS_close,fd); }
  snprintf(f,sizeof f,"%s.go",ctl);
  out("# stopped\n");
  for(;;){ if(syscall(SYS_faccessat,AT_FDCWD,f,F_OK,0)==0) break;
    struct timespec t={0,1000000}; nanosleep(&t,0);}
  out("# released\n");
}
// returns 1 if the call has to fail (errno is set)
static int alloc_kind(const char*k){ return !strcmp(k,"open-w")||!strcmp(k,"write")||!strcmp(k,"mkdir")||!strcmp(k,"sendfile")||!strcmp(k,"symlink")||!strcmp(k,"fallocate")||!strcmp(k,"rename"); }
static int before(const char*kind,const char*p,int mutating,int *is_torn){
  long a=__sync_add_and_fetch(&all,1), m=0;
  if(mutating) m=__sync_add_and_fetch(&mut,1);
  int dostop = stopn && a==stopn;
  if(stopkind[0] && !strcmp(kind,stopkind) && strstr(p,stopsub)) { if(++stopseen==stopk) dostop=1; }
  if(dostop) stopnow();
  if(mutating && killn && m==killn){
    if(torn && is_torn){ *is_torn=1; return 0; }
    char b[PATH_MAX+128]; snprintf(b,sizeof b,"# killed before %s %s\n",kind,p); out(b);
    if(also>1) kill(also,SIGKILL);
    kill(getpid(),SIGKILL); for(;;) pause();
  }
  int f=0;
  if(mutating && failn && m==failn) f=1;
  if(failkind[0] && !strcmp(kind,failkind) && strstr(p,failsub)) { if(++failseen==failk) f=1; }
  if(f && sticky) failing=1;
  if(failing && mutating && alloc_kind(kind)) f=1;
  if(f){ char b[PATH_MAX+128]; snprintf(b,sizeof b,"# failed %s %s\n",kind,p); out(b); errno=failerr; return 1; }
  return 0;
}
static void after(const char*kind,const char*p,const char*p2,long ret,const char *info){
  if(tracefd<0) return;
  int e=errno; struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t);
  char b[2*PATH_MAX+256];
  snprintf(b,sizeof b,"%ld%09ld\t%d\t%s\t%ld\t%s\t%s\t%s\n",(long)t.tv_sec,t.tv_nsec,(int)getpid(),kind,ret<0?-(long)e:ret,p,p2?p2:"",info?info:"");
  out(b); errno=e;
}
#define REAL(name) static __typeof__(&name) real; if(!real) real=(__typeof__(&name))dlsym(RTLD_NEXT,#name)

void vf_configure(const char*cfg){
  active=0; also=0; killn=failn=stopn=stopk=failk=stopseen=failseen=0; torn=sticky=failing=0; failerr=ENOSPC;
  stopkind[0]=failkind[0]=ctl[0]=prefix[0]=0; mut=all=0;
  if(tracefd>=0){ syscall(SYS_close,tracefd); tracefd=-1; }
  if(!cfg||!*cfg) return;
  char *c=strdup(cfg),*sv=0;
  for(char*l=strtok_r(c,"\n",&sv);l;l=strtok_r(0,"\n",&sv)){
    char*v=strchr(l,'='); if(!v) continue; *v++=0;
    if(!strcmp(l,"prefix")) snprintf(prefix,sizeof prefix,"%s",v);
    else if(!strcmp(l,"trace")){ int fd=syscall(SYS_openat,AT_FDCWD,v,O_CREAT|O_WRONLY|O_APPEND|O_CLOEXEC,0644);
       if(fd>=0){ tracefd=fcntl(fd,F_DUPFD_CLOEXEC,500); syscall(SYS_close,fd);} }
    else if(!strcmp(l,"kill")) killn=atol(v);
    else if(!strcmp(l,"also")) also=atol(v);
    else if(!strcmp(l,"torn")) torn=atoi(v);
    else if(!strcmp(l,"fail")) failn=atol(v);
    else if(!strcmp(l,"errno")) failerr=atol(v);
    else if(!strcmp(l,"sticky")) sticky=atoi(v);
    else if(!strcmp(l,"stop")) stopn=atol(v);
    else if(!strcmp(l,"ctl")) snprintf(ctl,sizeof ctl,"%s",v);
    else if(!strcmp(l,"stopon")||!strcmp(l,"failon")){
       int st=l[0]=='s'; char*s1=strchr(v,':'); char*s2=0; if(s1){*s1++=0; s2=strchr(s1,':'); if(s2)*s2++=0;}
       snprintf(st?stopkind:failkind,32,"%s",v); snprintf(st?stopsub:failsub,256,"%s",s1?s1:"");
       long k=s2?atol(s2):1; if(st) stopk=k; else failk=k; }
  }
  free(c); plen=strlen(prefix); if(plen) active=1;
}
long vf_mut(void){return mut;} long vf_all(void){return all;}

#define ENTER() if(!active||inside)
static int do_open(int dirfd,const char*p,int flags,mode_t mode){
  if(!active||inside) return syscall(SYS_openat,dirfd,p,flags,mode);
  char b[PATH_MAX]; abspath(dirfd,p,b);
  if(!below(b)) return syscall(SYS_openat,dirfd,p,flags,mode);
  int w=(flags&(O_WRONLY|O_RDWR|O_CREAT|O_TRUNC))!=0;
  const char*k=w?"open-w":"open-r"; inside++;
  int r; char inf[32]; snprintf(inf,32,"%x",flags);
  if(before(k,b,w,0)) r=-1; else r=syscall(SYS_openat,dirfd,p,flags,mode);
  after(k,b,0,r,inf); inside--; return r;
}
#define MODE() mode_t mode=0; if(flags&(O_CREAT|O_TMPFILE)){va_list ap;va_start(ap,flags);mode=va_arg(ap,mode_t);va_end(ap);}
int open(const char*p,int flags,...){ MODE() return do_open(AT_FDCWD,p,flags,mode);}
int open64(const char*p,int flags,...){ MODE() return do_open(AT_FDCWD,p,flags|O_LARGEFILE,mode);}
int openat(int d,const char*p,int flags,...){ MODE() return do_open(d,p,flags,mode);}
int openat64(int d,const char*p,int flags,...){ MODE() return do_open(d,p,flags|O_LARGEFILE,mode);}

static ssize_t w_generic(int fd,const void*buf,size_t n,off_t off,int positional,const char*kind){
  char b[PATH_MAX]; 
  if(!active||inside||fd==tracefd) goto raw;
  fdpath(fd,b); if(!below(b)) goto raw;
  { inside++; ssize_t r; int t=0; char inf[64];
    if(before(kind,b,1,&t)) r=-1;
    else if(t){ size_t h=n/2; if(h){ if(positional) syscall(SYS_pwrite64,fd,buf,h,off); else syscall(SYS_write,fd,buf,h);} out("# torn write, killed\n"); if(also>1) kill(also,SIGKILL); kill(getpid(),SIGKILL); for(;;)pause(); }
    else r= positional? syscall(SYS_pwrite64,fd,buf,n,off): syscall(SYS_write,fd,buf,n);
    snprintf(inf,64,"%zu",n); after(kind,b,0,r,inf); inside--; return r; }
raw: return positional? syscall(SYS_pwrite64,fd,buf,n,off): syscall(SYS_write,fd,buf,n);
}
ssize_t write(int fd,const void*buf,size_t n){ return w_generic(fd,buf,n,0,0,"write"); }
ssize_t pwrite(int fd,const void*buf,size_t n,off_t o){ return w_generic(fd,buf,n,o,1,"write"); }
ssize_t pwrite64(int fd,const void*buf,size_t n,off64_t o){ return w_generic(fd,buf,n,o,1,"write"); }

// does the metadata that is being put in place say "complete"?
static const char*rev_info(const char*src,const char*dst){
  size_t n=strlen(dst); if(tracefd<0||n<4||strcmp(dst+n-4,".rev")) return 0;
  static char buf[1<<16]; int fd=syscall(SYS_openat,AT_FDCWD,src,O_RDONLY|O_CLOEXEC); if(fd<0) return 0;
  ssize_t k=syscall(SYS_read,fd,buf,sizeof buf-1); syscall(SYS_close,fd); if(k<0) k=0; buf[k]=0;
  return strstr(buf,"duration:")?"complete":"incomplete"; }
#define FDCALL(kind,mutating,call,info) \
  char b[PATH_MAX]; int yes=0; if(active&&!inside){ fdpath(fd,b); yes=below(b);} \
  if(!yes) return call; inside++; long r; \
  if(before(kind,b,mutating,0)) r=-1; else r=call; \
  after(kind,b,0,r,info); inside--; return r;
#define PCALL(kind,dirfd,p,mutating,call,info) \
  char b[PATH_MAX]; int yes=0; if(active&&!inside){ abspath(dirfd,p,b); yes=below(b);} \
  if(!yes) return call; inside++; long r; \
  if(before(kind,b,mutating,0)) r=-1; else r=call; \
  after(kind,b,0,r,info); inside--; return r;
#define PPCALL(kind,d1,p1,d2,p2,call) \
  char b[PATH_MAX],b2[PATH_MAX]; int yes=0; if(active&&!inside){ abspath(d1,p1,b); abspath(d2,p2,b2); yes=below(b)||below(b2);} \
  if(!yes) return call; inside++; long r; const char*inf=rev_info(b,b2); char both[2*PATH_MAX+8]; snprintf(both,sizeof both,"%s > %s",b,b2); \
  if(before(kind,both,1,0)) r=-1; else r=call; \
  after(kind,b,b2,r,inf); inside--; return r;

ssize_t writev(int fd,const struct iovec*v,int c){ FDCALL("write",1,syscall(SYS_writev,fd,v,c),0) }
int fsync(int fd){ FDCALL("fsync",1,syscall(SYS_fsync,fd),0) }
int fdatasync(int fd){ FDCALL("fsync",1,syscall(SYS_fdatasync,fd),0) }
int syncfs(int fd){ if(active&&!inside){ inside++; long r=0; after("sync","","",r,"syncfs"); inside--; return 0;} return 0; }
void sync(void){ if(active&&!inside){ inside++; if(!before("sync",prefix,1,0)){} after("sync",prefix,0,0,0); inside--; } }
int ftruncate(int fd,off_t l){ char inf[32]; snprintf(inf,32,"%ld",(long)l); FDCALL("truncate",1,syscall(SYS_ftruncate,fd,l),inf) }
int ftruncate64(int fd,off64_t l){ char inf[32]; snprintf(inf,32,"%ld",(long)l); FDCALL("truncate",1,syscall(SYS_ftruncate,fd,l),inf) }
int truncate(const char*p,off_t l){ PCALL("truncate",AT_FDCWD,p,1,syscall(SYS_truncate,p,l),0) }
int truncate64(const char*p,off64_t l){ PCALL("truncate",AT_FDCWD,p,1,syscall(SYS_truncate,p,l),0) }
int fchmod(int fd,mode_t m){ FDCALL("chmod",1,syscall(SYS_fchmod,fd,m),0) }
int chmod(const char*p,mode_t m){ PCALL("chmod",AT_FDCWD,p,1,syscall(SYS_chmod,p,m),0) }
int fchmodat(int d,const char*p,mode_t m,int f){ PCALL("chmod",d,p,1,syscall(SYS_fchmodat,d,p,m),0) }
int unlink(const char*p){ PCALL("unlink",AT_FDCWD,p,1,syscall(SYS_unlink,p),0) }
int unlinkat(int d,const char*p,int f){ PCALL("unlink",d,p,1,syscall(SYS_unlinkat,d,p,f),0) }
int rmdir(const char*p){ PCALL("rmdir",AT_FDCWD,p,1,syscall(SYS_rmdir,p),0) }
int mkdir(const char*p,mode_t m){ PCALL("mkdir",AT_FDCWD,p,1,syscall(SYS_mkdir,p,m),0) }
int mkdirat(int d,const char*p,mode_t m){ PCALL("mkdir",d,p,1,syscall(SYS_mkdirat,d,p,m),0) }
int rename(const char*a,const char*c){ PPCALL("rename",AT_FDCWD,a,AT_FDCWD,c,syscall(SYS_rename,a,c)) }
int renameat(int d,const char*a,int e,const char*c){ PPCALL("rename",d,a,e,c,syscall(SYS_renameat,d,a,e,c)) }
int renameat2(int d,const char*a,int e,const char*c,unsigned f){ PPCALL("rename",d,a,e,c,syscall(SYS_renameat2,d,a,e,c,f)) }
int link(const char*a,const char*c){ PPCALL("link",AT_FDCWD,a,AT_FDCWD,c,syscall(SYS_link,a,c)) }
int linkat(int d,const char*a,int e,const char*c,int f){ PPCALL("link",d,a,e,c,syscall(SYS_linkat,d,a,e,c,f)) }
int symlink(const char*a,const char*p){ PCALL("symlink",AT_FDCWD,p,1,syscall(SYS_symlink,a,p),a) }
int symlinkat(const char*a,int d,const char*p){ PCALL("symlink",d,p,1,syscall(SYS_symlinkat,a,d,p),a) }
int flock(int fd,int op){ char inf[16]; snprintf(inf,16,"%d",op); FDCALL("flock",0,syscall(SYS_flock,fd,op),inf) }
int fallocate(int fd,int m,off_t o,off_t l){ FDCALL("fallocate",1,syscall(SYS_fallocate,fd,m,o,l),0) }
int fallocate64(int fd,int m,off64_t o,off64_t l){ FDCALL("fallocate",1,syscall(SYS_fallocate,fd,m,o,l),0) }
ssize_t sendfile(int fd,int in,off_t*o,size_t n){ FDCALL("sendfile",1,syscall(SYS_sendfile,fd,in,o,n),0) }
ssize_t sendfile64(int fd,int in,off64_t*o,size_t n){ FDCALL("sendfile",1,syscall(SYS_sendfile,fd,in,o,n),0) }
ssize_t copy_file_range(int in,off64_t*o,int fd,off64_t*p,size_t n,unsigned f){ FDCALL("sendfile",1,syscall(SYS_copy_file_range,in,o,fd,p,n,f),0) }
int utimensat(int d,const char*p,const struct timespec t[2],int f){ 
  if(!p) return syscall(SYS_utimensat,d,p,t,f);
  PCALL("utime",d,p,1,syscall(SYS_utimensat,d,p,t,f),0) }
DIR*opendir(const char*p){ REAL(opendir); char b[PATH_MAX]; int yes=0; if(active&&!inside){abspath(AT_FDCWD,p,b); yes=below(b);}
  if(!yes) return real(p); inside++; before("opendir",b,0,0); DIR*r=real(p); after("opendir",b,0,r?0:-1,0); inside--; return r; }
