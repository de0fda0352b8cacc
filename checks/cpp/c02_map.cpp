// Lattice symmetry maps: implementation vs. definition, and covariance with the operators.
#include "vp.h"
#include "hcb_basis_core.h"
#include "boson_basis_core.h"
#include "higher_spin_basis_core.h"
#include "spinless_fermion_basis_core.h"
#include "spinful_fermion_basis_core.h"
using namespace basis_general;
#ifndef IT
#define IT npy_uint32
#endif
#ifndef NS
#define NS 6
#endif
#ifndef SPS
#define SPS 3
#endif
typedef IT I;
#ifdef MAPS
static const int maps0[][NS]={MAPS};
static const int NM=sizeof(maps0)/sizeof(maps0[0]);
#endif
static void get_maps(int*maps,int&nm){
#ifdef MAPS
	nm=NM; for(int k=0;k<NM;k++) for(int i=0;i<NS;i++) maps[k*NS+i]=maps0[k][i];
#else
	nm=1; unsigned seen=0;
	for(int i=0;i<NS;i++){ int m=(int)vp_split(vp_int("map",0,NS-1)); vp_assume(!((seen>>m)&1)); seen|=1u<<m;
	#ifdef FLIPS
	 maps[i]=vp_split(vp_bool("flip"))? -m-1: m;
	#else
	 maps[i]=m;
	#endif
	}
#endif
}
#ifndef MAPS
#define NMAX 1
#else
#define NMAX (sizeof(maps0)/sizeof(maps0[0]))
#endif
VPI I get_s(const char*n){ I s=(I)vp_u64(n); if(NS<(int)sizeof(I)*8) vp_assume((s>>(NS<(int)sizeof(I)*8?NS:0))==0); return s; }
static I ref_map(I s,const int*map){ I r=0; for(int i=0;i<NS;i++){ int m=map[i]; bool f=m<0; if(f) m=-m-1; I b=(s>>(NS-1-i))&1; if(f) b^=1; r|=b<<(NS-1-m);} return r; }
// spins / hard-core bosons
extern "C" void h_hcb(){
	int maps[NMAX*NS],pers[NMAX],qs[NMAX],nm; get_maps(maps,nm); for(int k=0;k<nm;k++){pers[k]=2;qs[k]=0;}
	hcb_basis_core<I> b(NS,nm,maps,pers,qs); I s=get_s("s");
	for(int k=0;k<nm;k++){
		signed char sg=1; I r=b.map_state(s,k,sg);
		vp_assert(r==ref_map(s,maps+k*NS),1); vp_assert(sg==1,2);
		I a[2]={s,(I)(s^1)}; signed char sgs[2]={1,1}; b.map_state(a,2,k,sgs);
		vp_assert(a[0]==r && a[1]==ref_map(s^1,maps+k*NS) && sgs[0]==1 && sgs[1]==1,3);
	}
	vp_reach(1);
}
// fermions: reference sign from the definition  U c+_i U^-1 = c+_m(i)  (no flips)
static int ref_sign(I s,const int*map){
	int par=0;
	for(int i=0;i<NS;i++) for(int j=i+1;j<NS;j++){ if(map[i]>map[j]) par^=(int)((s>>(NS-1-i))&(s>>(NS-1-j))&1); }
	return par?-1:1;
}
template<class B> VPI void run_f(B &b,const int*maps,int nm){
	I s=get_s("s");
	for(int k=0;k<nm;k++){ const int*map=maps+k*NS; bool flips=false; for(int i=0;i<NS;i++) flips|=map[i]<0;
		signed char sg=1; I r=b.map_state(s,k,sg);
		vp_assert(r==ref_map(s,map),1); vp_assert(sg==1||sg==-1,2);
		if(!flips) vp_assert(sg==ref_sign(s,map),3);
		signed char sn=-1; I r2=b.map_state(s,k,sn); vp_assert(r2==r && sn==-sg,4);
		I a[2]={(I)(s^1),s}; signed char sgs[2]={1,1}; b.map_state(a,2,k,sgs);
		signed char s1=1; I r1=b.map_state((I)(s^1),k,s1);
		vp_assert(a[1]==r && sgs[1]==sg && a[0]==r1 && sgs[0]==s1,5);
		// covariance: U c+_i |s> = eta_i c(+)_m(i) U|s>, eta_i independent of s
#ifdef COV
		const I s2=0;
		for(int i=0;i<NS;i++){
			int m=map[i]; bool f=m<0; if(f) m=-m-1; I bit=(I)1<<(NS-1-i);
			double eta[2];
			for(int w=0;w<2;w++){ I x=(w?s2:s)&~bit, y=x; cplx a(1,0),c(1,0); int ix[1]={i},im[1]={m};
				b.op(y,a,1,"+",ix); signed char p=1; I uy=b.map_state(y,k,p);
				signed char q=1; I ux=b.map_state(x,k,q); I z=ux; b.op(z,c,1,f?"-":"+",im);
				vp_assert(uy==z,6);
				eta[w]=a.real()*p*q*c.real(); }
			vp_assert(eta[0]*eta[0]==1,7);
			vp_assert(eta[0]==eta[1],8);
			if(!flips) vp_assert(eta[0]==1,9);
		}
#endif
	}
	vp_reach(1);
}
extern "C" void h_spf(){
	int maps[NMAX*NS],pers[NMAX],qs[NMAX],nm; get_maps(maps,nm); for(int k=0;k<nm;k++){pers[k]=2;qs[k]=0;}
	spinless_fermion_basis_core<I> b(NS,nm,maps,pers,qs); run_f(b,maps,nm);
}
extern "C" void h_spinful(){
	int maps[NMAX*NS],pers[NMAX],qs[NMAX],nm; get_maps(maps,nm); for(int k=0;k<nm;k++){pers[k]=2;qs[k]=0;}
	spinful_fermion_basis_core<I> b(NS/2,nm,maps,pers,qs,true); run_f(b,maps,nm);
}
static I ipow(int b,int e){ I r=1; for(int k=0;k<e;k++) r*=b; return r; }
template<class B> VPI void run_b(B&b,const int*maps,int nm){
	int d[NS]; I s=0; for(int i=0;i<NS;i++){ d[i]=vp_digit("d",i,SPS); s+=(I)d[i]*ipow(SPS,NS-1-i); }
	for(int k=0;k<nm;k++){ const int*map=maps+k*NS; I rr=0;
		for(int i=0;i<NS;i++){ int m=map[i]; bool f=m<0; if(f) m=-m-1; rr+=(I)(f?SPS-1-d[i]:d[i])*ipow(SPS,NS-1-m); }
		signed char sg=1; I r=b.map_state(s,k,sg); vp_assert(r==rr&&sg==1,1);
		I a[2]={0,s}; signed char sgs[2]={1,1}; b.map_state(a,2,k,sgs); vp_assert(a[1]==r&&sgs[1]==1,2);
	}
	vp_reach(1);
}
extern "C" void h_boson(){ int maps[NMAX*NS],pers[NMAX],qs[NMAX],nm; get_maps(maps,nm); for(int k=0;k<nm;k++){pers[k]=2;qs[k]=0;}
	boson_basis_core<I> b(NS,SPS,nm,maps,pers,qs); run_b(b,maps,nm); }
extern "C" void h_hspin(){ int maps[NMAX*NS],pers[NMAX],qs[NMAX],nm; get_maps(maps,nm); for(int k=0;k<nm;k++){pers[k]=2;qs[k]=0;}
	higher_spin_basis_core<I> b(NS,SPS,nm,maps,pers,qs); run_b(b,maps,nm); }
