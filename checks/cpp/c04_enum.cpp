// Enumeration of basis states: particle counting, successor within a particle sector, collection of representatives.
#include "vp_basis.h"
#include "general_basis_op.h"
#include "make_general_basis.h"
static I pw(int k){ return (KIND==KBOSON||KIND==KHSPIN)?ipow(SPS,k):((I)1)<<k; }
VPI int occ(I s,int site){ const int k=NS-1-site;
	if(KIND==KBOSON||KIND==KHSPIN) return (int)((s/pw(k))%(I)SPS); return (int)((s>>k)&1); }
VPI int cnt(I s,int a,int b){ int c=0; for(int i=a;i<b;i++) c+=occ(s,i); return c; }
static const int NSEC=(KIND==KSPINFUL)?2:1;
VPI bool samesec(I s,I t){ if(NSEC==1) return cnt(s,0,NS)==cnt(t,0,NS); return cnt(s,0,NS/2)==cnt(t,0,NS/2)&&cnt(s,NS/2,NS)==cnt(t,NS/2,NS); }
extern "C" void h_count(){
	BT B(mk<KIND>::get(0,0,0,0));
	I s=vp_state("s"); std::vector<int> v=B.count_particles(s);
	vp_assert((int)v.size()==NSEC,1);
	for(int k=0;k<NSEC;k++) vp_assert(v[k]==cnt(s,k*NS/NSEC,(k+1)*NS/NSEC),2);
	vp_reach(1);
}
// the successor in one particle sector: larger, same sector, nothing of the sector in between
extern "C" void h_next(){
	BT B(mk<KIND>::get(0,0,0,0));
	I s=vp_state("s"),t=vp_state("t");
	vp_assume(t>s); vp_assume(samesec(s,t));
	I r=B.next_state_pcon(s,(I)0);
	vp_assert(r>s,1); vp_assert(r<=t,2); vp_assert(samesec(s,r),3); vp_reach(1);
}
// collection of representatives out of an arbitrary candidate sequence with arbitrary norms
#ifndef NC_
#define NC_ 5
#endif
static const int NC=NC_;
struct EB : public BT { double nrm[8]; I seq[8]; bool pc;
	EB(const BT&b):BT(b){}
	double check_state(I s){ for(int k=0;k<NC;k++) if(s==seq[k]) return nrm[k]; return 17; }
	I next_state_pcon(const I s,const I){ for(int k=0;k+1<NC;k++) if(s==seq[k]) return seq[k+1]; return s; } };
static void h_make(bool pc){
	EB B(mk<KIND>::get(0,0,0,0));
	for(int k=0;k<8;k++){ B.nrm[k]=0; B.seq[k]=k; }
	int w[NC]; const double nan=std::numeric_limits<double>::quiet_NaN();
	for(int k=0;k<NC;k++){ int c=(int)vp_split(vp_int("w",0,3)); w[k]=c==0?0:c==1?0:c==2?1:4; B.nrm[k]=c==0?nan:c==1?1e-16:c==2?1.0:4.0; }
	if(pc) for(int k=0;k<NC;k++){ B.seq[k]=(I)vp_u32("seq"); if(k) vp_assume(B.seq[k]>B.seq[k-1]); }
	int mem=(int)vp_split(vp_int("mem",0,NC+1)); int tot=0; for(int k=0;k<NC;k++) tot+=w[k]>0;
	I basis[NC+2]; npy_uint8 n[NC+2]; for(int k=0;k<NC+2;k++){ basis[k]=99; n[k]=99; }
	npy_intp r=pc?make_basis_pcon(&B,(npy_intp)NC,(npy_intp)mem,B.seq[0],basis,n):make_basis(&B,(npy_intp)NC,(npy_intp)mem,basis,n);
	for(int k=mem;k<NC+2;k++) vp_assert(basis[k]==99&&n[k]==99,1);
	if(tot>mem){ vp_assert(r==-1,2); vp_reach(1); return; }
	if(r==-1){ vp_assert(tot==mem,3); vp_reach(1); return; } // documented: the estimate must leave room
	vp_assert(r==tot,4); int j=0;
	for(int k=NC-1;k>=0;k--) if(w[k]){ vp_assert(basis[j]==B.seq[k]&&n[j]==w[k],5); j++; }
	vp_reach(1);
}
extern "C" void h_make_full(){ h_make(false); }
extern "C" void h_make_pcon(){ h_make(true); }
#ifdef MAPS
// whole sector: every state s belongs to the basis exactly when it is the maximum of its orbit and the character is trivial on its stabiliser
extern "C" void h_sector(){
	vp_qs();
	BT B(mk<KIND>::get(NT,maps0[0],pers0,qs_));
	I full=1; for(int k=0;k<NS;k++) full*=(KIND==KBOSON||KIND==KHSPIN)?SPS:2;
	const int MAXS=FULL; static I basis[MAXS]; static npy_uint16 n[MAXS];
#ifdef NP
	I s0=S0; npy_intp r=make_basis_pcon(&B,(npy_intp)CNT,(npy_intp)MAXS,s0,basis,n);
#else
	npy_intp r=make_basis(&B,(npy_intp)full,(npy_intp)MAXS,basis,n);
#endif
	vp_assert(r>=0&&r<MAXS,1);
	for(int k=1;k<r;k++) vp_assert(basis[k]<basis[k-1],2);
	I s=vp_state("s");
#ifdef NP
	vp_assume(cnt(s,0,NS)==NP);
#endif
	orbit o; make_orbit(B,s,o); bool rep=true,triv=true; int st=0;
	for(int e=0;e<o.G;e++){ rep&=!(o.t[e]>s); bool f=o.t[e]==s; double c=std::cos(angle(&o.g[e*NT])); bool one=(c>1-1e-9&&o.sg[e]==1)||(c<-1+1e-9&&o.sg[e]==-1); triv&=(!f||one); st+=f?1:0; }
	bool in=false; int nn=0; for(int k=0;k<r;k++) if(basis[k]==s){ in=true; nn=n[k]; }
	vp_assert(in==(rep&&triv),3); vp_assert(!in||nn==st,4); vp_reach(1);
}
#endif
