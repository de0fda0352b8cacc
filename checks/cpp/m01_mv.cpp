// Sparse matrix times vector(s) with arbitrary strides: y = a*A*x or y += a*A*x.
#include "vp.h"
#define NPY_NO_DEPRECATED_API 0
#include <Python.h>
#include <numpy/ndarrayobject.h>
#undef PyArray_EquivTypenums
#undef PyArray_EquivTypes
static inline bool vp_equiv(int a,int b){ return a==b || (a==NPY_LONGLONG&&b==NPY_LONG) || (a==NPY_LONG&&b==NPY_LONGLONG); }
#define PyArray_EquivTypenums(a,b) vp_equiv(a,b)
#define PyArray_EquivTypes(a,b) ((a)->type_num==(b)->type_num)
#include <stdexcept>
#include <vector>
#include "matvec/_oputils/oputils_impl.h"
typedef IT I; typedef VA T1; typedef VX T3;
template<class T> struct cx { static const bool c=false; static T mk(double a,double){ return (T)a; } static double re(T x){ return x; } static double im(T){ return 0; } };
template<> struct cx<npy_cdouble_wrapper> { typedef npy_cdouble_wrapper T; static const bool c=true; static T mk(double a,double b){ return T(a,b); } static double re(const T&x){ return x.real; } static double im(const T&x){ return x.imag; } };
template<> struct cx<npy_cfloat_wrapper> { typedef npy_cfloat_wrapper T; static const bool c=true; static T mk(double a,double b){ return T((float)a,(float)b); } static double re(const T&x){ return x.real; } static double im(const T&x){ return x.imag; } };
template<class T> static T val(const char*n){ double a=vp_real(n); double b=cx<T>::c?vp_real(n):0; return cx<T>::mk(a,b); }
struct C2 { double r,i; };
static C2 c2(double r,double i){ C2 c; c.r=r; c.i=i; return c; }
template<class T> static C2 of(const T&x){ return c2(cx<T>::re(x),cx<T>::im(x)); }
static C2 mul(C2 a,C2 b){ return c2(a.r*b.r-a.i*b.i,a.r*b.i+a.i*b.r); }
static bool eq(C2 a,C2 b,bool c){ return a.r==b.r && (!c||a.i==b.i); }
// memory layouts (element strides): row, column of x; row, column of y.  The layout is part of the symbolic input.
static const int lay1[][2]={{1,1},{2,1},{1,3},{2,2},{-1,1},{1,-2},{-2,-1}};
static const int layx[][2]={{2,1},{1,3},{4,2},{1,5},{-2,1}}; static const int layy[][2]={{2,1},{1,3},{1,5},{4,2},{2,7},{-1,3},{3,-1},{-4,-2}};
enum { XN=24, YN=24 };
static T3 x[XN],y[YN],yold[YN];
static int XSR,XSC,YSR,YSC,XO,YO; static bool OW;
static int mn(int n,int r,int m,int c){ int a=(n-1)*r,b=(m-1)*c; return (a<0?a:0)+(b<0?b:0); }
static void layout(){
#ifdef MULTI
	int cx_=LX>=0?LX:(int)vp_pin(vp_int("layout_x",0,sizeof(layx)/sizeof(layx[0])-1)), cy_=LY>=0?LY:(int)vp_pin(vp_int("layout_y",0,sizeof(layy)/sizeof(layy[0])-1));
	XSR=layx[cx_][0]; XSC=layx[cx_][1]; YSR=layy[cy_][0]; YSC=layy[cy_][1];
#else
	int c=(int)vp_pin(vp_int("layout",0,sizeof(lay1)/sizeof(lay1[0])-1)); XSR=lay1[c][0]; YSR=lay1[c][1]; XSC=YSC=9;
#endif
	XO=1-mn(NC,XSR,NV,XSC); YO=1-mn(NR,YSR,NV,YSC); OW=vp_pin(vp_int("overwrite",0,1));
}
static int sw(){ PyArray_Descr d[4]; std::memset(d,0,sizeof d); d[0].type_num=sizeof(I)==4?NPY_INT32:NPY_INT64; d[1].type_num=d[2].type_num=TNA; d[3].type_num=TNX; return get_switch_num(d,d+1,d+2,d+3); }
static void fill(){ layout(); for(int k=0;k<XN;k++) x[k]=cx<T3>::mk(0.5*k+7,cx<T3>::c?-3.0*k:0); for(int k=0;k<YN;k++) y[k]=cx<T3>::mk(-0.25*k-5,cx<T3>::c?2.0*k:0);
	for(int r=0;r<NC;r++) for(int v=0;v<NV;v++) x[XO+r*XSR+v*XSC]=val<T3>("x"); 
	for(int r=0;r<NR;r++) for(int v=0;v<NV;v++) y[YO+r*YSR+v*YSC]=val<T3>("y");
	for(int k=0;k<YN;k++) yold[k]=y[k]; }
// entries (ri[k],ci[k],val) of the matrix
static int ri[NNZ+1],ci[NNZ+1]; static T1 ve[NNZ+1]; static int ne;
static void check(T1 a,bool ow){
	bool used[YN]={0};
	for(int r=0;r<NR;r++) for(int v=0;v<NV;v++){ int p=YO+r*YSR+v*YSC; used[p]=true; C2 s=c2(0,0);
		for(int k=0;k<ne;k++) if(ri[k]==r){ C2 m=mul(of(ve[k]),of(x[XO+ci[k]*XSR+v*XSC])); s.r+=m.r; s.i+=m.i; }
		s=mul(of(a),s); if(!ow){ C2 b=of(yold[p]); s.r+=b.r; s.i+=b.i; }
		vp_assert(eq(of(y[p]),s,cx<T3>::c),1); }
	for(int p=0;p<YN;p++) if(!used[p]) vp_assert(eq(of(y[p]),of(yold[p]),true),2);
	vp_reach(1);
}
static T1 scal(){ return val<T1>("a"); }
static const npy_intp SB=sizeof(T3);
// 0 csr, 1 csc
static void compressed(bool csc,bool omp){
	int s=sw(); vp_assert(s>=0,3); fill(); const int M=csc?NC:NR,O=csc?NR:NC; I Ap[M+1],Aj[NNZ]; T1 Ax[NNZ];
	Ap[0]=0; for(int k=1;k<=M;k++){ Ap[k]=(I)vp_pin(vp_int("p",0,NNZ)); vp_assume(Ap[k]>=Ap[k-1]); }
	ne=(int)Ap[M]; for(int k=0;k<NNZ;k++){ Aj[k]=(I)vp_pin(vp_int("j",0,O-1)); Ax[k]=val<T1>("m"); }
	for(int q=0;q<M;q++) for(int k=(int)Ap[q];k<(int)Ap[q+1];k++){ ri[k]=csc?(int)Aj[k]:q; ci[k]=csc?q:(int)Aj[k]; ve[k]=Ax[k]; }
	T1 a=scal(); bool ow=OW;
#ifdef MULTI
	if(!csc){ if(omp) csr_matvecs_nogil(s,ow,NR,NC,NV,Ap,Aj,Ax,&a,XSR*SB,XSC*SB,x+XO,YSR*SB,YSC*SB,y+YO); else csr_matvecs_gil(s,ow,NR,NC,NV,Ap,Aj,Ax,&a,XSR*SB,XSC*SB,x+XO,YSR*SB,YSC*SB,y+YO); }
	else { if(omp) csc_matvecs_nogil(s,ow,NR,NC,NV,Ap,Aj,Ax,&a,XSR*SB,XSC*SB,x+XO,YSR*SB,YSC*SB,y+YO); else csc_matvecs_gil(s,ow,NR,NC,NV,Ap,Aj,Ax,&a,XSR*SB,XSC*SB,x+XO,YSR*SB,YSC*SB,y+YO); }
#else
	if(!csc){ if(omp) csr_matvec_nogil(s,ow,NR,NC,Ap,Aj,Ax,&a,XSR*SB,x+XO,YSR*SB,y+YO); else csr_matvec_gil(s,ow,NR,NC,Ap,Aj,Ax,&a,XSR*SB,x+XO,YSR*SB,y+YO); }
	else { if(omp) csc_matvec_nogil(s,ow,NR,NC,Ap,Aj,Ax,&a,XSR*SB,x+XO,YSR*SB,y+YO); else csc_matvec_gil(s,ow,NR,NC,Ap,Aj,Ax,&a,XSR*SB,x+XO,YSR*SB,y+YO); }
#endif
	check(a,ow);
}
extern "C" void h_csr(){ compressed(false,false); }
extern "C" void h_csr_p(){ compressed(false,true); }
extern "C" void h_csc(){ compressed(true,false); }
extern "C" void h_csc_p(){ compressed(true,true); }
// diagonals: offsets symbolic, L stored columns
static void dia(bool omp){
	int s=sw(); vp_assert(s>=0,3); fill(); I off[ND]; T1 dg[ND*DL]; ne=0;
	for(int k=0;k<ND;k++){ off[k]=(I)(int)vp_pin(vp_int("o",-NR,NC)); for(int q=0;q<k;q++) vp_assume(off[q]!=off[k]); }
	for(int k=0;k<ND*DL;k++) dg[k]=val<T1>("m");
	for(int k=0;k<ND;k++) for(int c=0;c<DL&&c<NC;c++){ int r=c-(int)off[k]; if(r>=0&&r<NR){ ri[ne]=r; ci[ne]=c; ve[ne]=dg[k*DL+c]; ne++; } }
	T1 a=scal(); bool ow=OW;
#ifdef MULTI
	if(omp) dia_matvecs_nogil(s,ow,NR,NC,NV,ND,DL,off,dg,&a,XSR*SB,XSC*SB,x+XO,YSR*SB,YSC*SB,y+YO); else dia_matvecs_gil(s,ow,NR,NC,NV,ND,DL,off,dg,&a,XSR*SB,XSC*SB,x+XO,YSR*SB,YSC*SB,y+YO);
#else
	if(omp) dia_matvec_nogil(s,ow,NR,NC,ND,DL,off,dg,&a,XSR*SB,x+XO,YSR*SB,y+YO); else dia_matvec_gil(s,ow,NR,NC,ND,DL,off,dg,&a,XSR*SB,x+XO,YSR*SB,y+YO);
#endif
	check(a,ow);
}
extern "C" void h_dia(){ dia(false); }
extern "C" void h_dia_p(){ dia(true); }
