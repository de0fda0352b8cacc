// Matrix elements in a symmetry-reduced basis: general_op / general_inplace_op against <b|P O|a>/sqrt(<a|P|a><b|P|b>).
#include "vp_basis.h"
#include "general_basis_op.h"
#include "make_general_basis.h"
#ifndef OPS
#define OPS "+-"
#endif
#ifndef MT
#define MT std::complex<double>
#endif
static const int NOP=sizeof(OPS)-1;
static const char ops[]=OPS;
static cplx cmul(cplx a,cplx b){ return cplx(a.real()*b.real()-a.imag()*b.imag(),a.real()*b.imag()+a.imag()*b.real()); }
template<class B> VPI int rep_norm(B &b,I s){ double n=b.check_state(s); if(n!=n) return 0; return (int)vp_split((uint64_t)(npy_intp)n); }
VPI void get_op(int*ix){ for(int j=0;j<NOP;j++){
#ifdef SITES
	const int s0[]={SITES}; ix[j]=s0[j];
#else
	ix[j]=(int)vp_split(vp_int("ix",0,NS-1));
#endif
	} }
static bool same(double a,cplx v){ return vp_close(a,v.real()); }
static bool same(cplx a,cplx v){ return vp_close(a,v); }
#ifndef TR
#define TR 0
#define CJ 0
#endif
#ifdef MAPS
// the same basis with an arbitrary operator: each basis state goes to an arbitrary state with a given amplitude
struct TB : public BT { I src[2],dst[2]; cplx c[2]; int e[2];
	TB(const BT&b):BT(b){}
	int op(I&r,cplx&m,const int,const char[],const int[]){
		for(int k=0;k<2;k++) if(r==src[k]){ r=dst[k]; m=cmul(m,c[k]); return e[k]; }
		return -7; } };
#ifdef ANYOP
#define BB TB
VPI void setup(TB&b,const I*basis){ for(int k=0;k<2;k++){ b.src[k]=basis[k]; b.e[k]=0; b.dst[k]=vp_state("d"); }
#ifdef ONECOL
	b.dst[1-ONECOL]=b.src[1-ONECOL];
#endif
	b.c[0]=cplx(1,0); b.c[1]=cplx(0.5,0); }
#else
#define BB BT
VPI void setup(BT&,const I*){}
#endif
// two representatives a>b of one symmetry sector, in an otherwise arbitrary sorted basis
extern "C" void h_op(){
	vp_qs();
	BB B(mk<KIND>::get(NT,maps0[0],pers0,qs_));
	I basis[2]; basis[0]=vp_state("a"); basis[1]=vp_state("b"); vp_assume(basis[0]>basis[1]);
	npy_int16 n[2]; for(int i=0;i<2;i++){ n[i]=rep_norm(B,basis[i]); vp_assume(n[i]>0); }
	setup(B,basis); int ix[NOP]; get_op(ix);
	npy_int32 row[2]={9,9},col[2]={9,9}; MT M[2]; npy_intp nme=0; npy_intp bb[1]={0},be[1]={2};
	const cplx A(AR,AI);
	int err=general_op<I,npy_int16,npy_int32,MT,signed char>(&B,NOP,ops,ix,A,false,2,basis,n,bb,be,0,nme,row,col,M);
	bool imagbad=false;
	for(int i=0;i<2;i++){
		I r=basis[i]; cplx m=A; vp_assert(B.op(r,m,NOP,ops,ix)==0,1);
		orbit o; make_orbit(B,r,o);
		bool hit=false; const bool zero=m.real()==0&&m.imag()==0;
		for(int j=0;j<2;j++) for(int e=0;e<o.G;e++) if(o.t[e]==basis[j]){ hit=true;
			double th=angle(&o.g[e*NT]), f=o.sg[e]*std::sqrt((double)n[j]/(double)n[i]);
			cplx want=cmul(m,cplx(f*std::cos(th),-f*std::sin(th)));
			if(r==basis[i]&&j==i) want=m;                     // diagonal
			if(sizeof(MT)==8&&!(want.imag()<1e-12&&want.imag()>-1e-12)) imagbad=true;
			vp_assert(zero||row[i]==j,2); vp_assert(zero||col[i]==i,3); vp_assert(same(M[i],want),4); }
		if(!hit) vp_assert(same(M[i],cplx(0,0)),5);
		vp_assert(row[i]>=0&&row[i]<2&&col[i]>=0&&col[i]<2,6);
	}
	vp_assert((err!=0)==imagbad,7);
	vp_reach(1);
}
// matrix-free action equals the stored matrix elements, for every transpose/conjugate combination
extern "C" void h_inplace(){
	vp_qs();
	BB B(mk<KIND>::get(NT,maps0[0],pers0,qs_));
	I basis[2]; basis[0]=vp_state("a"); basis[1]=vp_state("b"); vp_assume(basis[0]>basis[1]);
	npy_int16 n[2]; for(int i=0;i<2;i++){ n[i]=rep_norm(B,basis[i]); vp_assume(n[i]>0); }
	setup(B,basis); int ix[NOP]; get_op(ix);
	npy_int32 row[2],col[2]; cplx M[2]; npy_intp nme=0; npy_intp bb[1]={0},be[1]={2};
	const cplx A(AR,AI);
	general_op<I,npy_int16,npy_int32,cplx,signed char>(&B,NOP,ops,ix,A,false,2,basis,n,bb,be,0,nme,row,col,M);
#ifndef NV
#define NV 1
#endif
	const cplx v[4]={cplx(3,-2),cplx(0.5,1),cplx(-1,4),cplx(7,0.25)};
	const int tr=TR,cj=CJ;
	cplx out[2*NV]; for(int k=0;k<2*NV;k++) out[k]=cplx(1,k);
	int err=general_inplace_op<I,npy_int16,cplx,signed char>(&B,cj,tr,NOP,ops,ix,A,false,2,NV,basis,n,bb,be,0,v,out);
	vp_assert(err==0,1);
	for(int k=0;k<NV;k++) for(int x=0;x<2;x++){ cplx w(1,x*NV+k);
		for(int i=0;i<2;i++){ int r=tr?col[i]:row[i],c=tr?row[i]:col[i]; cplx m=cj?std::conj(M[i]):M[i];
			for(int y=0;y<2;y++){ cplx d=cmul(m,v[y*NV+k]); if(x==r&&y==c) w=cplx(w.real()+d.real(),w.imag()+d.imag()); } }
		vp_assert(vp_close(out[x*NV+k],w),2); }
	vp_reach(1);
}
#endif
#ifdef NBASIS
// no lattice symmetries: full space (MODE 0), subset of states (MODE 1), subset with prefix blocks (MODE 2)
struct TS : public BT { I src,dst; double c;
	TS(const BT&b):BT(b){}
	int op(I&r,cplx&m,const int,const char[],const int[]){ if(r==src){ r=dst; m=cplx(m.real()*c,m.imag()*c); } return 0; } };
extern "C" void h_plain(){
	TS B(mk<KIND>::get(0,NULL,NULL,NULL));
	I basis[64]; int Ns=0;
	for(int s=(1<<NS)-1;s>=0;s--){ int c=0; for(int k=0;k<NS;k++) c+=(s>>k)&1; if(MODE==0||c==NBASIS) basis[Ns++]=s; }
	int k0=(int)vp_split(vp_int("k",0,Ns-1)); B.src=basis[k0]; B.dst=vp_state("d"); B.c=0.5;
	npy_intp bb[64],be[64]; for(int i=0;i<64;i++) bb[i]=be[i]=-1;
	const int Np=MODE==2?NPRE:0;
	npy_uint8 n[64]; for(int i=0;i<64;i++) n[i]=1;
	if(MODE==2) vp_assert(general_make_basis_blocks<I,signed char>(&B,Np,Ns,basis,bb,be)==0,1);
	npy_int32 row[64],col[64]; cplx M[64]; npy_intp nme; int ix[1]={0};
	vp_assert(general_op<I,npy_uint8,npy_int32,cplx,signed char>(&B,1,"z",ix,cplx(1,2),MODE==0,Ns,basis,n,bb,be,Np,nme,row,col,M)==0,2);
	int want=-1; for(int j=0;j<Ns;j++) if(basis[j]==B.dst) want=j;
	for(int i=0;i<Ns;i++){ if(i!=k0){ vp_assert(row[i]==i&&col[i]==i&&vp_close(M[i],cplx(1,2)),3); }
		else if(want<0) vp_assert(vp_close(M[i],cplx(0,0)),4);
		else vp_assert(row[i]==want&&col[i]==i&&vp_close(M[i],cplx(0.5,1)),5); }
	// matrix-free action
	for(int tr=0;tr<2;tr++) for(int cj=0;cj<2;cj++){
		double vr[64]; cplx v[64],out[64]; for(int i=0;i<Ns;i++){ v[i]=cplx(i+1,0); out[i]=0; }
		vp_assert(general_inplace_op<I,npy_uint8,cplx,signed char>(&B,cj,tr,1,"z",ix,cplx(1,2),MODE==0,Ns,1,basis,n,bb,be,Np,v,out)==0,6);
		for(int i=0;i<Ns;i++){ cplx w(0,0);
			if(i!=k0) w=cplx(i+1,2.0*(i+1));
			if(tr){ if(i==k0&&want>=0) w=cplx(w.real()+0.5*(want+1),w.imag()+want+1); }
			else if(i==want) w=cplx(w.real()+0.5*(k0+1),w.imag()+k0+1);
			if(cj) w=std::conj(w);
			vp_assert(vp_close(out[i],w),7); }
	}
	vp_reach(1);
}
#endif
