/* small driver used by the demonstrations: starts sgrid with given parameters, fills variables with fixed
   pseudo-random numbers, and compares results with reference numbers */
#include "sgrid.h"
#include <sys/stat.h>
void initialize_libraries(void);
static unsigned long long seed_=88172645463325252ULL;
static double rnd(double a,double b){ seed_^=seed_<<13; seed_^=seed_>>7; seed_^=seed_<<17; return a+(b-a)*((seed_>>11)*(1.0/9007199254740992.0)); }
static tGrid *start(const char *parfile)
{
  char *av[3]; tGrid *g; 
  av[0]="sgrid"; av[1]=(char*)parfile; av[2]=NULL;
  initTimeIn_s();
  read_command_line(2,av); parse_parameter_file(Gets("parameterfile")); parse_command_line_options();
  initialize_libraries(); iterate_parameters(0); iterate_parameters(1);
  RunFun(POST_PARAMETERS,0); RunFun(PRE_GRID,0); g=make_grid(0); RunFun(POST_GRID,g); return g;
}
static void coordinates(tGrid *g){ RunFun(PRE_COORDINATES,g); RunFun(COORDINATES,g); }
/* all enabled variables get random values (coordinates and Jacobians excepted) */
static void fill(tGrid *g,double a,double b)
{
  int bi,i,k;
  forallboxes(g,bi) { tBox *box=g->box[bi];
    for(i=0;i<g->nvariables;i++) if(box->v[i]) { const char *n=VarName(i);
      if(!strcmp(n,"X")||!strcmp(n,"Y")||!strcmp(n,"Z")||!strcmp(n,"x")||!strcmp(n,"y")||!strcmp(n,"z")||strstr(n,"dXd")||strstr(n,"dYd")||strstr(n,"dZd")) continue;
      forallpoints(box,k) box->v[i][k]=rnd(a,b); } }
}
/* weighted sum of one variable over the grid */
static double wsum(tGrid *g,int ind)
{
  int bi,k; double s=0; unsigned long long save=seed_; seed_=1234567891011ULL+ind*0;
  forallboxes(g,bi) { tBox *box=g->box[bi]; forallpoints(box,k) s+=box->v[ind][k]*rnd(.5,1.5); }
  seed_=save; return s;
}
static int bad_=0;
static void expect(const char *what,double got,double want,double tol)
{
  if(isnan(want)) return;
  if(!(fabs(got-want)<=tol*(1+fabs(want)))) { fprintf(stderr,"MISMATCH %s: got %.15g expected %.15g\n",what,got,want); bad_++; }
  else fprintf(stderr,"ok %s %.15g\n",what,got);
}
