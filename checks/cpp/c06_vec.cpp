// Transformation of vectors between a symmetry sector and the full space.
#include "vp_basis.h"
#include "general_basis_op.h"
#include "make_general_basis.h"
#include "general_basis_get_vec.h"
#ifndef NV
#define NV 1
#endif
#ifndef NT_
#define NT_ npy_uint16
#endif
#ifndef VT
#define VT std::complex<double>
#endif
static cplx cmul(cplx a,cplx b){ return cplx(a.real()*b.real()-a.imag()*b.imag(),a.real()*b.imag()+a.imag()*b.real()); }
static void put(double&x,double a,double){ x=a; }
static void put(cplx&x,double a,double b){ x=cplx(a,b); }
static const bool CPX=sizeof(VT)==16;
VPI double in01(const char*n){ double x=vp_real(n); vp_assume(x<=1&&x>=-1); return x; }
static void mkv(VT*v,int n,const char*nm){ for(int k=0;k<n;k++){ double a=in01(nm),b=CPX?in01(nm):0; put(v[k],a,b); } }
static I basis[FULL+1]; static NT_ nn[FULL+1]; static I pb[FULL+1]; static VT in_[FULL*NV],out_[FULL*NV],back[FULL*NV];
VPI I full(){ I f=1; for(int k=0;k<NS;k++) f*=(KIND==KBOSON||KIND==KHSPIN)?SPS:2; return f; }
VPI int pc(I s){ int c=0; for(int k=0;k<NS;k++){ c+=(KIND==KBOSON||KIND==KHSPIN)?(int)(s%SPS):(int)(s&1); s=(KIND==KBOSON||KIND==KHSPIN)?s/SPS:s>>1; } return c; }
// position of a state in the target space (descending)
static npy_intp nfull; static bool pcon;
static npy_intp pos(I s){ if(!pcon) return nfull-1-(npy_intp)s; for(npy_intp k=0;k<nfull;k++) if(pb[k]==s) return k; return -1; }
static npy_intp setup(BT&B){
	nfull=0;
#ifdef ONEP
	// one particle: states 1<<k, enumerated by the library's own fixed-number construction
	pcon=true; for(int k=NS-1;k>=0;k--) pb[nfull++]=(I)((I)1<<k);
	return make_basis_pcon(&B,(npy_intp)NS,(npy_intp)NS+1,(I)1,basis,nn);
#endif
	npy_intp r=make_basis(&B,(npy_intp)full(),(npy_intp)FULL+1,basis,nn);
#ifdef NP
	pcon=true; for(npy_intp s=(npy_intp)full()-1;s>=0;s--) if(pc((I)s)==NP) pb[nfull++]=(I)s;
	npy_intp m=0; for(npy_intp k=0;k<r;k++) if(pc(basis[k])==NP){ basis[m]=basis[k]; nn[m]=nn[k]; m++; } r=m;
#else
	pcon=false; nfull=(npy_intp)full();
#endif
	return r;
}
static bool from(BT&B,npy_intp r,const VT*a,VT*b){ return pcon?project_from_general_pcon_dense<I,NT_,VT,signed char>(&B,basis,nn,NV,r,nfull,pb,a,b):project_from_general_dense<I,NT_,VT,signed char>(&B,basis,nn,NV,r,nfull,a,b); }
static bool to(BT&B,npy_intp r,const VT*a,VT*b){ return pcon?project_to_general_pcon_dense<I,NT_,VT,signed char>(&B,basis,nn,NV,r,nfull,pb,a,b):project_to_general_dense<I,NT_,VT,signed char>(&B,basis,nn,NV,r,nfull,a,b); }
static cplx C(VT x){ return cplx(x); }
static bool realsec(){ for(int k=0;k<NT;k++) if((2*qs_[k])%pers0[k]) return false; return true; }
static bool same(VT a,cplx v){ cplx b(a); if(!CPX) return vp_close(b.real(),v.real()); return vp_close(b,v); }
// coefficients of basis state k in the target space
static cplx cf[FULL+1];
static void coefs(BT&B,npy_intp k){ orbit o; make_orbit(B,basis[k],o); for(npy_intp p=0;p<nfull;p++) cf[p]=0;
	for(int e=0;e<o.G;e++){ npy_intp p=pos(o.t[e]); if(p<0) continue; double th=angle(&o.g[e*NT]); cf[p]+=cplx(o.sg[e]*std::cos(th),-o.sg[e]*std::sin(th)); }
	double f=1/std::sqrt((double)nn[k]*o.G); for(npy_intp p=0;p<nfull;p++) cf[p]=cplx(cf[p].real()*f,cf[p].imag()*f); }
static cplx want[FULL*NV+1];
extern "C" void h_from(){
	vp_qs(); BT B(mk<KIND>::get(NT,maps0[0],pers0,qs_)); npy_intp r=setup(B);
	mkv(in_,r*NV,"v"); for(int k=0;k<nfull*NV;k++) out_[k]=0;
	bool ok=from(B,r,in_,out_);
	if(!CPX&&!realsec()){ vp_reach(1); vp_assert(!ok||r==0,5); return; }
	vp_assert(ok,1);
	for(int p=0;p<nfull*NV;p++) want[p]=0;
	for(npy_intp k=0;k<r;k++){ coefs(B,k); for(npy_intp p=0;p<nfull;p++){ cplx c=cf[p]; if(c.real()!=0||c.imag()!=0) for(int v=0;v<NV;v++) want[p*NV+v]+=cmul(c,C(in_[k*NV+v])); } }
	for(int p=0;p<nfull*NV;p++) vp_assert(same(out_[p],want[p]),2);
	vp_reach(1);
}
extern "C" void h_to(){
	vp_qs(); BT B(mk<KIND>::get(NT,maps0[0],pers0,qs_)); npy_intp r=setup(B);
	mkv(in_,nfull*NV,"v"); for(int k=0;k<FULL*NV;k++) out_[k]=0;
	bool ok=to(B,r,in_,out_);
	if(!CPX&&!realsec()){ vp_reach(1); vp_assert(!ok||r==0,5); return; }
	vp_assert(ok,1);
	for(npy_intp k=0;k<r;k++){ coefs(B,k); for(int v=0;v<NV;v++){ cplx w=0; for(npy_intp p=0;p<nfull;p++){ cplx c=cf[p]; if(c.real()!=0||c.imag()!=0) w+=cmul(cplx(c.real(),-c.imag()),C(in_[p*NV+v])); }
		vp_assert(same(out_[k*NV+v],w),2); } }
	vp_reach(1);
}
// isometry: projecting back recovers the vector
extern "C" void h_round(){
	vp_qs(); BT B(mk<KIND>::get(NT,maps0[0],pers0,qs_)); npy_intp r=setup(B);
	mkv(in_,r*NV,"v"); for(int k=0;k<nfull*NV;k++) out_[k]=0; for(int k=0;k<FULL*NV;k++) back[k]=0;
	if(!CPX&&!realsec()){ vp_assert(true,9); vp_reach(1); return; }
	vp_assert(from(B,r,in_,out_),1); vp_assert(to(B,r,out_,back),2);
	for(int k=0;k<r*NV;k++) vp_assert(same(back[k],C(in_[k])),3);
	vp_reach(1);
}
