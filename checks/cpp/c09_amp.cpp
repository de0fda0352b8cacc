// Amplitude ratio between full space and symmetry sector.
#include "vp_basis.h"
#include "general_basis_op.h"
#include "general_basis_get_amp.h"
#ifndef VT
#define VT std::complex<double>
#endif
static const bool CPX=sizeof(VT)==16;
template<class B> VPI int rep_norm(B &b,I s){ double n=b.check_state(s); if(n!=n) return 0; return (int)vp_split((uint64_t)(npy_intp)n); }
extern "C" void h_rep(){
	vp_qs(); BT B(mk<KIND>::get(NT,maps0[0],pers0,qs_));
	I s[1]={vp_state("s")}; const I s0=s[0]; int n=rep_norm(B,s0); vp_assume(n>0);
	VT out[1]; out[0]=7.0;
	int err=get_amp_general_light<I,VT,signed char>(&B,s,out,(npy_intp)1);
	vp_assert(err==0,1); vp_assert(s[0]==s0,2);
	vp_assert(vp_close(cplx(out[0]),cplx(std::sqrt((double)n/gsize()),0)),3);
	vp_reach(1);
}
extern "C" void h_full(){
	vp_qs(); BT B(mk<KIND>::get(NT,maps0[0],pers0,qs_));
	I s[1]={vp_state("s")}; const I s0=s[0];
	VT out[1]; out[0]=7.0;
	int err=get_amp_general<I,VT,signed char>(&B,s,out,(npy_intp)1);
	orbit o; make_orbit(B,s0,o); I top=s0; for(int e=0;e<o.G;e++) top=o.t[e]>top?o.t[e]:top;
	vp_assert(s[0]==top,1);
	int n=rep_norm(B,top);
	if(n<=0){ vp_assert(err!=0||vp_close(cplx(out[0]),cplx(0,0),1e-6),2); vp_reach(1); return; }
	// psi_s = C psi_r with C the coefficient of s in the normalised sector state of r
	orbit p; make_orbit(B,top,p); double f=1/std::sqrt((double)n*p.G);
	cplx w=0; for(int e=0;e<p.G;e++) if(p.t[e]==s0){ double th=angle(&p.g[e*NT]); w+=cplx(p.sg[e]*std::cos(th)*f,-p.sg[e]*std::sin(th)*f); }
	bool im=std::abs(w.imag())>1e-12;
	if(!CPX){ vp_assert((err!=0)==im,3); if(err==0) vp_assert(vp_close(cplx(out[0]).real(),w.real()),4); }
	else{ vp_assert(err==0,5); vp_assert(vp_close(cplx(out[0]),w),6); }
	vp_reach(1);
}
