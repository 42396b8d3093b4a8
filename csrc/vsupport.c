/* vsupport.c: accessors used by the checks, compiled against /repo's headers both to IR (executed symbolically)
   and natively (replay).  Contains no logic under verification. */
#include <stddef.h>
#include "sgrid.h"
#include "SuiteSparseQR_C.h"
tBox  *vs_box(tGrid *g,int b){ return g->box[b]; }
double *vs_v(tBox *box,int i){ return box->v[i]; }
void   vs_setv(tBox *box,int i,double *p){ box->v[i]=p; }
int    vs_nnodes(tBox *box){ return box->nnodes; }
void   vs_setnnodes(tBox *box,int n){ box->nnodes=n; }
int    vs_n(tBox *box,int d){ return d==1?box->n1:d==2?box->n2:box->n3; }
void   vs_setn(tBox *box,int n1,int n2,int n3){ box->n1=n1; box->n2=n2; box->n3=n3; }
void   vs_setbbox(tBox *box,int i,double x){ box->bbox[i]=x; }
double vs_bbox(tBox *box,int i){ return box->bbox[i]; }
void   vs_setibbox(tBox *box,int i,int x){ box->ibbox[i]=x; }
void   vs_setinactive(tBox *box,int x){ box->inactive=x; }
void   vs_setperiodic(tBox *box,int d,int x){ box->periodic[d]=x; }
int    vs_periodic(tBox *box,int d){ return box->periodic[d]; }
tGrid *vs_grid(tBox *box){ return box->grid; }
int    vs_nboxes(tGrid *g){ return g->nboxes; }
double *vs_mat(tBox *box,int w,int d)
{
  switch(w){
  case 0: return d==1?box->D1:d==2?box->D2:box->D3;
  case 1: return d==1?box->DD1:d==2?box->DD2:box->DD3;
  case 2: return d==1?box->F1:d==2?box->F2:box->F3;
  case 3: return d==1?box->Mcoeffs1:d==2?box->Mcoeffs2:box->Mcoeffs3;
  case 4: return d==1?box->Meval1:d==2?box->Meval2:box->Meval3;
  case 5: return d==1?box->Int1:d==2?box->Int2:box->Int3; }
  return NULL;
}
double vs_x_of_X(tBox *box,int i,int ind,double X,double Y,double Z){ return box->x_of_X[i]((void*)box,ind,X,Y,Z); }
int    vs_has_x_of_X(tBox *box,int i){ return box->x_of_X[i]!=NULL; }
double vs_dX_dx(tBox *box,int i,int j,int ind,double X,double Y,double Z){ return box->dX_dx[i][j]((void*)box,ind,X,Y,Z); }
int    vs_has_dX_dx(tBox *box,int i,int j){ return box->dX_dx[i][j]!=NULL; }
double vs_dx_dX(tBox *box,int i,int j,int ind,double X,double Y,double Z){ return box->dx_dX[i][j]((void*)box,ind,X,Y,Z); }
int    vs_has_dx_dX(tBox *box,int i,int j){ return box->dx_dX[i][j]!=NULL; }
double vs_ddX_dxdx(tBox *box,int i,int j,int k,int ind,double X,double Y,double Z){ return box->ddX_dxdx[i][j][k]((void*)box,ind,X,Y,Z); }
int    vs_has_ddX_dxdx(tBox *box,int i,int j,int k){ return box->ddX_dxdx[i][j][k]!=NULL; }
int    vs_has_Sing(tBox *box,int i){ return box->Sing_d_dx[i]!=NULL; }
int    vs_has_isSing(tBox *box){ return box->isSing!=NULL; }
int    vs_isSing(tBox *box,double X,double Y,double Z){ return box->isSing((void*)box,X,Y,Z,0,NULL); }
int    vs_XYZ_of_xyz(tBox *box,int ind,double x,double y,double z,double *X){ return box->XYZ_Of_xyz(box,ind,x,y,z,X,X+1,X+2); }
int    vs_has_XYZ(tBox *box){ return box->XYZ_Of_xyz!=NULL; }
double vs_basis(tBox *box,int d,double a,double b,int k,int n,double X)
{ return d==1?box->basis1((void*)box,a,b,k,n,X):d==2?box->basis2((void*)box,a,b,k,n,X):box->basis3((void*)box,a,b,k,n,X); }
void vs_setCI(tBox *box,int dom,int type,int useF){ box->CI->dom=dom; box->CI->type=type; box->CI->useF=useF; }
void vs_setCIs(tBox *box,int f,double s){ box->CI->s[f]=s; }
void vs_setCIxc(tBox *box,int f,double s){ box->CI->xc[f]=s; }
void vs_setCIi(tBox *box,int f,int iFS,int iSurf,int d1,int d2,int d3){ box->CI->iFS[f]=iFS; box->CI->iSurf[f]=iSurf; box->CI->idSurfdX[f][1]=d1; box->CI->idSurfdX[f][2]=d2; box->CI->idSurfdX[f][3]=d3; }
void vs_setFSurf(tBox *box,int f,double (*F)(tBox*,int,double,double),double (*dF2)(tBox*,int,double,double),double (*dF3)(tBox*,int,double,double))
{ box->CI->FSurf[f]=F; box->CI->dFSurfdX[f][2]=dF2; box->CI->dFSurfdX[f][3]=dF3; }
/* variable lists */
int  vl_n(tVarList *v){ return v->n; }
int  vl_idx(tVarList *v,int i){ return v->index[i]; }
void vl_settime(tVarList *v,double t){ v->time=t; }
double vl_time(tVarList *v){ return v->time; }
void vs_settime(tGrid *g,double t){ g->time=t; }
void vs_setdt(tGrid *g,double t){ g->dt=t; }
double vs_time(tGrid *g){ return g->time; }
double vs_dt(tGrid *g){ return g->dt; }
int vs_iter(tGrid *g){ return g->iteration; }
void vs_setiter(tGrid *g,int i){ g->iteration=i; }
int vs_nvariables(tGrid *g){ return g->nvariables; }
/* physics globals */
#include "ADMvars.h"
extern tVarList *psiandderivs, *K_initial;
#ifdef VS_MAIN
extern tVarList *BSSNvars, *Z4secondOvars;
#endif
tVarList *vs_glob_vl(int k)
{ switch(k){ case 0: return psiandderivs; case 1: return K_initial;
#ifdef VS_MAIN
  case 2: return BSSNvars;
  case 3: return Z4secondOvars;
#endif
  } return NULL; }
void vs_setvlgrid(tVarList *v, tGrid *g){ v->grid=g; }
tGrid *vs_vlgrid(tVarList *v){ return v->grid; }
void vs_runfun(int step,tGrid *g){ RunFun(step,g); }
int vs_COORDINATES(void){ return COORDINATES; }
int vs_PRE_COORDINATES(void){ return PRE_COORDINATES; }
int vs_PRE_INITIALDATA(void){ return PRE_INITIALDATA; }
void *vs_vlPars(tVarList *v){ return v->vlPars; }
void vs_setx_of_X(tBox *box,int i,double (*f)(void*,int,double,double,double)){ box->x_of_X[i]=f; }
extern double (*Coordinates_AnsorgNS_sigmap)(tBox*,int,double,double),(*Coordinates_AnsorgNS_dsigmap_dB)(tBox*,int,double,double),(*Coordinates_AnsorgNS_dsigmap_dphi)(tBox*,int,double,double),(*Coordinates_AnsorgNS_ddsigmap_dBdB)(tBox*,int,double,double),(*Coordinates_AnsorgNS_ddsigmap_dBdphi)(tBox*,int,double,double),(*Coordinates_AnsorgNS_ddsigmap_dphidphi)(tBox*,int,double,double);
extern double (*Coordinates_AnsorgNS_sigmam)(tBox*,int,double,double),(*Coordinates_AnsorgNS_dsigmam_dB)(tBox*,int,double,double),(*Coordinates_AnsorgNS_dsigmam_dphi)(tBox*,int,double,double),(*Coordinates_AnsorgNS_ddsigmam_dBdB)(tBox*,int,double,double),(*Coordinates_AnsorgNS_ddsigmam_dBdphi)(tBox*,int,double,double),(*Coordinates_AnsorgNS_ddsigmam_dphidphi)(tBox*,int,double,double);
/* the user-supplied stellar surface functions of the AnsorgNS coordinates */
void vs_setsigma(int k,double (*f)(tBox*,int,double,double))
{ switch(k){
  case 0: Coordinates_AnsorgNS_sigmap=Coordinates_AnsorgNS_sigmam=f; break;
  case 1: Coordinates_AnsorgNS_dsigmap_dB=Coordinates_AnsorgNS_dsigmam_dB=f; break;
  case 2: Coordinates_AnsorgNS_dsigmap_dphi=Coordinates_AnsorgNS_dsigmam_dphi=f; break;
  case 3: Coordinates_AnsorgNS_ddsigmap_dBdB=Coordinates_AnsorgNS_ddsigmam_dBdB=f; break;
  case 4: Coordinates_AnsorgNS_ddsigmap_dBdphi=Coordinates_AnsorgNS_ddsigmam_dBdphi=f; break;
  case 5: Coordinates_AnsorgNS_ddsigmap_dphidphi=Coordinates_AnsorgNS_ddsigmam_dphidphi=f; break; } }
void vs_setdX(tBox *box,int i,int m,double (*f)(void*,int,double,double,double)){ box->dX_dx[i][m]=f; }
void vs_setddX(tBox *box,int i,int m,int n,double (*f)(void*,int,double,double,double)){ box->ddX_dxdx[i][m][n]=f; }
void vs_setSing(tBox *box,int k,void (*f)(void*,void*,void*,void*,void*)){ box->Sing_d_dx[k]=f; }
/* parameter data bases */
char  *vs_pdb_str(tParameter *p,int i,int k){ return k==0?p[i].name:k==1?p[i].value:p[i].description; }
double vs_pdb_num(tParameter *p,int i){ return p[i].numericalvalue; }
int    vs_pdb_bool(tParameter *p,int i){ return p[i].booleanvalue; }
int    vs_attr(tBox *box,int i){ return box->Attrib[i]; }
void   vs_setattr(tBox *box,int i,int x){ box->Attrib[i]=x; }
int    vs_nbfaces(tBox *box){ return box->nbfaces; }
tBface *vs_bface(tBox *box,int i){ return box->bface[i]; }
void   vs_setbox(tGrid *g,int b,tBox *box){ g->box[b]=box; }
int    vs_inactive(tBox *box){ return box->inactive; }
int    vs_ninactive(tGrid *g){ return g->ninactive; }
/* loop macros: call f for every visited point (int a,int b,int c) */
void vs_planes(int w,int N,int n1,int n2,int n3,int p,void (*f)(int,int,int))
{
  int i,j,k;
  switch(w){
  case 1: forplane1(i,j,k,n1,n2,n3,p) f(i,j,k); break;
  case 2: forplane2(i,j,k,n1,n2,n3,p) f(i,j,k); break;
  case 3: forplane3(i,j,k,n1,n2,n3,p) f(i,j,k); break;
  case 4: forplaneN(N,i,j,k,n1,n2,n3,p) f(i,j,k); break;
  case 5: forinnerplaneN(N,i,j,k,n1,n2,n3,p) f(i,j,k); break;
  case 6: forplane1_nojump(i,j,k,n1,n2,n3,p) f(i,j,k); break;
  case 7: forplane2_nojump(i,j,k,n1,n2,n3,p) f(i,j,k); break;
  case 8: forplane3_nojump(i,j,k,n1,n2,n3,p) f(i,j,k); break; }
}
void vs_boxloops(int w,tGrid *g,tBox *box,void (*f)(int,int,int))
{
  int b,i; tBox *q;
  switch(w){
  case 0: forallpoints(box,i) f(box->b,i,0); break;
  case 1: forallboxes(g,b) f(b,0,0); break;
  case 2: forallActiveAndInactiveboxes(g,b) f(b,0,0); break;
  case 3: forallgridpoints(g,q,b,i) f(b,i,q->b); break;
  case 4: forallbfaces(box,i) f(box->b,i,0); break; }
}
int    vs_activeboxes(tGrid *g){ return activeboxes(g); }
void vs_pointlist(tPointList *pl,tBox *box,void (*f)(int,int,int))
{
  int b,pi,ijk;
  if(box) { forPointList_inbox(pl,box,pi,ijk) f(box->b,pi,ijk); }
  else    { forPointList(pl,b,pi,ijk) f(b,pi,ijk); }
}
int vs_Index(int i,int j,int k,int n1,int n2){ return Index(i,j,k); }
int vs_Ind_n1n2(int i,int j,int k,int n1,int n2){ return Ind_n1n2(i,j,k,n1,n2); }
int vs_ofInd(int d,int ijk,int n1,int n2)
{
  int k=kOfInd_n1n2(ijk,n1,n2), j=jOfInd_n1n2_k(ijk,n1,n2,k);
  return d==3?k:d==2?j:iOfInd_n1n2_jk(ijk,n1,n2,j,k);
}
/* layout of tBox: offsets of the members that own or point to something else */
int vs_boxsize(void){ return sizeof(tBox); }
int vs_boxoff(int k)
{
#define O(m) (int)offsetof(tBox,m)
  static const int o[]={O(grid),O(node),O(v),O(D1),O(D2),O(D3),O(DD1),O(DD2),O(DD3),O(F1),O(F2),O(F3),O(Mcoeffs1),O(Mcoeffs2),O(Mcoeffs3),
   O(Meval1),O(Meval2),O(Meval3),O(Int1),O(Int2),O(Int3),O(bface)};
  return k<(int)(sizeof(o)/sizeof(o[0]))?o[k]:-1;
}
int vs_node(tBox *box,int i,int w){ return w?box->node[i].type:box->node[i].i; }
void vs_setnode(tBox *box,int i,int w,int x){ if(w) box->node[i].type=x; else box->node[i].i=x; }
int vs_gridinfo(tGrid *g,int w){ return w==0?g->nboxes:w==1?g->ninactive:w==2?g->nvariables:g->iteration; }
void vs_setbfaceword(tBface *f,int w,int x){ ((int*)f)[w]=x; }
/* layout of the records of CHOLMOD */
int vs_cc_status(void){ return (int)offsetof(cholmod_common,status); }
int vs_chol_off(int k){ return k==0?(int)offsetof(cholmod_sparse,xtype):(int)offsetof(cholmod_dense,x); }
