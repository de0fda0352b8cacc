// Matrix elements computed on the fly (bra-ket form) and between different symmetry sectors.
#include "vp_basis.h"
#include "general_basis_op.h"
static cplx cmul(cplx a,cplx b){ return cplx(a.real()*b.real()-a.imag()*b.imag(),a.real()*b.imag()+a.imag()*b.real()); }
template<class B> VPI int rep_norm(B &b,I s){ double n=b.check_state(s); if(n!=n) return 0; return (int)vp_split((uint64_t)(npy_intp)n); }
struct TB : public BT { I src[2],dst[2]; cplx c[2]; int e[2];
	TB(const BT&b):BT(b){}
	int op(I&r,cplx&m,const int,const char[],const int[]){
		for(int k=0;k<2;k++) if(r==src[k]){ r=dst[k]; m=cmul(m,c[k]); return e[k]; }
		return -7; } };
VPI void setup(TB&b,const I*basis){ for(int k=0;k<2;k++){ b.src[k]=basis[k]; b.e[k]=0; b.dst[k]=vp_state("d"); }
#ifdef ONECOL
	b.dst[1-ONECOL]=b.src[1-ONECOL];
#endif
	b.c[0]=cplx(1,0); b.c[1]=cplx(0.5,0); }
#ifndef AR
#define AR 0.75
#define AI 0.5
#endif
static int pcount(I s,int a,int b){ int c=0; for(int k=a;k<b;k++) c+=(int)((s>>(NS-1-k))&1); return c; }
#ifdef NPONE
static bool insec(I s){ return pcount(s,0,NS/2)==NP&&pcount(s,NS/2,NS)==NP2; }
#elif defined(NP2)
static bool insec(I s){ return (pcount(s,0,NS/2)==NP&&pcount(s,NS/2,NS)==NP2)||(pcount(s,0,NS/2)==NP2&&pcount(s,NS/2,NS)==NP); }
#elif defined(NP)
static bool insec(I s){ return pcount(s,0,NS)==NP; }
#endif
static void h_bk(bool pcon){
	vp_qs();
	TB B(mk<KIND>::get(NT,maps0[0],pers0,qs_));
	I ket[2],bra[2]; ket[0]=vp_state("a"); ket[1]=vp_state("b");
	int n[2]; for(int i=0;i<2;i++){ n[i]=rep_norm(B,ket[i]); vp_assume(n[i]>0); }
	vp_assume(ket[0]!=ket[1]);
	setup(B,ket); int ix[1]={0}; const cplx A(AR,AI); cplx M[2]; int err;
	bra[0]=bra[1]=77;
	if(pcon){
#ifdef NP
		std::set<std::vector<int>> Np; { std::vector<int> v(1,NP);
#ifdef NP2
		v.push_back(NP2);
#ifndef NPONE
		Np.insert(v); v[0]=NP2; v[1]=NP;
#endif
#endif
		Np.insert(v); }
		for(int i=0;i<2;i++) vp_assume(insec(ket[i]));
		err=general_op_bra_ket_pcon<I,cplx,signed char>(&B,1,"z",ix,A,2,Np,ket,bra,M);
#endif
	} else err=general_op_bra_ket<I,cplx,signed char>(&B,1,"z",ix,A,2,ket,bra,M);
	vp_assert(err==0,1);
	for(int i=0;i<2;i++){
		I r=ket[i]; cplx m=A; B.op(r,m,1,"z",ix);
		const bool diag=(r==ket[i]);
		if(diag){ vp_assert(vp_close(M[i],m),2); vp_assert(bra[i]==ket[i],3); continue; }
		orbit o; make_orbit(B,r,o); I top=r; for(int e=0;e<o.G;e++) top=o.t[e]>top?o.t[e]:top;
		int nb=rep_norm(B,top); bool in=nb>0;
#ifdef NP
		if(pcon) in=in&&insec(top);
#endif
		if(!in){ vp_assert(M[i].real()!=M[i].real()||(M[i].real()==0&&M[i].imag()==0),4); }
		else{ vp_assert(bra[i]==top,5);
			for(int e=0;e<o.G;e++) if(o.t[e]==top){ double th=angle(&o.g[e*NT]), f=o.sg[e]*std::sqrt((double)nb/(double)n[i]);
				vp_assert(vp_close(M[i],cmul(m,cplx(f*std::cos(th),-f*std::sin(th)))),6); } }
	}
	vp_reach(1);
}
#ifndef HQ
extern "C" void h_braket(){ h_bk(false); }
extern "C" void h_braket_pcon(){ h_bk(true); }
#endif
// column states of one sector, rows of another sector of the same group
extern "C" void h_shift(){
	vp_qs();
	int qin[NT]; for(int k=0;k<NT;k++) qin[k]=(int)vp_split(vp_int("qin",0,pers0[k]-1));
	TB B(mk<KIND>::get(NT,maps0[0],pers0,qs_)); BT Bin=mk<KIND>::get(NT,maps0[0],pers0,qin);
	I in[2]; in[0]=vp_state("a"); in[1]=vp_state("b"); vp_assume(in[0]>in[1]);
	npy_int16 ni[2]; for(int i=0;i<2;i++){ ni[i]=rep_norm(Bin,in[i]); vp_assume(ni[i]>0); }
	I out[2]; out[0]=vp_state("c"); out[1]=vp_state("e"); vp_assume(out[0]>out[1]);
	npy_uint8 no[2]; for(int i=0;i<2;i++){ no[i]=rep_norm(B,out[i]); vp_assume(no[i]>0); }
	setup(B,in); int ix[1]={0}; const cplx A(AR,AI);
	const int col=COL; cplx v[2]={cplx(0,0),cplx(0,0)},w[2]={cplx(0,0),cplx(0,0)}; v[col]=cplx(1,0.5);
	int err=general_op_shift_sectors<I,npy_uint8,I,npy_int16,cplx,signed char>(&B,1,"z",ix,A,2,out,no,2,in,ni,1,v,w);
	vp_assert(err==0,1);
	I r=in[col]; cplx m=A; B.op(r,m,1,"z",ix); m=cmul(m,v[col]);
	orbit o; make_orbit(B,r,o);
	for(int j=0;j<2;j++){ bool hit=false;
		for(int e=0;e<o.G;e++) if(o.t[e]==out[j]){ hit=true; double th=angle(&o.g[e*NT]), f=o.sg[e]*std::sqrt((double)no[j]/(double)ni[col]);
			vp_assert(vp_close(w[j],cmul(m,cplx(f*std::cos(th),-f*std::sin(th)))),2); }
		if(!hit) vp_assert(vp_close(w[j],cplx(0,0)),3); }
	vp_reach(1);
}
