// Thin client: asks the zygote server ($VF_ZYGOTE) to run the program named
// like this executable with our argv, environment, cwd and stdio.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdint.h>
#include <signal.h>
#include <libgen.h>
#include <fcntl.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/uio.h>
extern char **environ;
static char *buf; static size_t len,cap;
static void add(const char*s){ size_t n=strlen(s)+1; if(len+n>cap){cap=(len+n)*2;buf=realloc(buf,cap);} memcpy(buf+len,s,n); len+=n; }
int main(int argc,char**argv){
  const char*sp=getenv("VF_ZYGOTE"); if(!sp){fprintf(stderr,"VF_ZYGOTE unset\n");return 127;}
  int s=socket(AF_UNIX,SOCK_STREAM|SOCK_CLOEXEC,0); struct sockaddr_un a={.sun_family=AF_UNIX};
  snprintf(a.sun_path,sizeof a.sun_path,"%s",sp);
  if(connect(s,(void*)&a,sizeof a)){perror("zygote");return 127;}
  char cwd[4096]; if(!getcwd(cwd,sizeof cwd)) strcpy(cwd,"/");
  char num[32]; add(basename(strdup(argv[0]))); add(cwd);
  snprintf(num,32,"%d",argc); add(num); for(int i=0;i<argc;i++) add(argv[i]);
  for(char**e=environ;*e;e++) add(*e);
  uint32_t h=len; struct iovec iov={&h,4}; char c[CMSG_SPACE(3*sizeof(int))]; memset(c,0,sizeof c);
  struct msghdr m={.msg_iov=&iov,.msg_iovlen=1,.msg_control=c,.msg_controllen=sizeof c};
  struct cmsghdr*cm=CMSG_FIRSTHDR(&m); cm->cmsg_level=SOL_SOCKET; cm->cmsg_type=SCM_RIGHTS; cm->cmsg_len=CMSG_LEN(3*sizeof(int));
  int fds[3]={0,1,2}; for(int i=0;i<3;i++) if(fcntl(i,F_GETFD)<0) open("/dev/null",O_RDWR);
  memcpy(CMSG_DATA(cm),fds,sizeof fds);
  if(sendmsg(s,&m,0)!=4) return 127;
  for(size_t o=0;o<len;){ ssize_t n=write(s,buf+o,len-o); if(n<=0) return 127; o+=n; }
  close(0); close(1); // keep no pipe ends open
  int32_t st; size_t got=0;
  while(got<8){ static char rb[8]; ssize_t n=read(s,rb+got,8-got); if(n<=0) return 126; got+=n; if(got==8) memcpy(&st,rb+4,4); }
  if((st&0x7f)){ signal(st&0x7f,SIG_DFL); raise(st&0x7f); kill(getpid(),SIGKILL); }
  return (st>>8)&0xff;
}
