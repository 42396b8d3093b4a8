/* containment for the natively run code: calls that change the file system act only inside vs_scratch */
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <sys/stat.h>
char vs_scratch[4096];
static int in(const char *p)
{
  size_t n=strlen(vs_scratch);
  if(!n || strncmp(p,vs_scratch,n) || p[n]!='/' || strstr(p,"..")) return 0;
  return 1;
}
int __real_remove(const char*); int __real_rename(const char*,const char*); int __real_mkdir(const char*,mode_t);
int __real_rmdir(const char*); int __real_unlink(const char*); FILE *__real_fopen(const char*,const char*);
int __wrap_remove(const char *p){ return in(p)?__real_remove(p):-1; }
int __wrap_rmdir(const char *p){ return in(p)?__real_rmdir(p):-1; }
int __wrap_unlink(const char *p){ return in(p)?__real_unlink(p):-1; }
int __wrap_mkdir(const char *p,mode_t m){ return in(p)?__real_mkdir(p,m):-1; }
int __wrap_rename(const char *p,const char *q){ return in(p)&&in(q)?__real_rename(p,q):-1; }
int __real_system(const char*);
int __wrap_system(const char *c)
{ /* only:  cp -pr A B  with both inside */
  char a[4096],b[4096],q[9000]; const char *t;
  if(sscanf(c,"cp -pr %4000s %4000s",a,b)!=2 || !in(a) || !in(b)) return -1;
  for(t=c;*t;t++) if(!strchr("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_/.- ",*t)) return -1;
  snprintf(q,9000,"cp -pr %s %s",a,b); return __real_system(q);
}
int __wrap_execv(const char *p,char *const a[]){ return -1; }
FILE *__wrap_fopen(const char *p,const char *m){ if(m[0]!='r' && vs_scratch[0] && !in(p)) return NULL; return __real_fopen(p,m); }
