// Representatives and norms of symmetry orbits.
#include "vp_basis.h"
#include "general_basis_rep.h"
extern "C" void h_rep(){
	for(int k=0;k<NT;k++) qs_[k]=0;
	BT b=mk<KIND>::get(NT,maps0[0],pers0,qs_);
	I s=vp_state("s");
	orbit o; make_orbit(b,s,o);
	int g[NT]; for(int k=0;k<NT;k++) g[k]=0; signed char ph=1;
	I r=b.ref_state(s,g,ph);
	bool found=false,reach=false;
	for(int e=0;e<o.G;e++){ vp_assert(r>=o.t[e],1); found|=(o.t[e]==r);
		bool me=true; for(int k=0;k<NT;k++) me&=(g[k]==o.g[e*NT+k]);
		vp_assert(!me||(o.t[e]==r&&o.sg[e]==ph),3); reach|=me; }
	vp_assert(found,2); vp_assert(reach,4);
	vp_reach(1);
}
extern "C" void h_rep_array(){
	for(int k=0;k<NT;k++) qs_[k]=0;
	BT b=mk<KIND>::get(NT,maps0[0],pers0,qs_);
	const int n=2; I s[n],r[n],e[n]; int gg[n*NT],ge[n*NT]; signed char ph[n],pe[n];
	for(int i=0;i<n;i++) s[i]=vp_state("s");
	for(int i=0;i<n;i++){ pe[i]=1; for(int k=0;k<NT;k++) ge[i*NT+k]=0; e[i]=b.ref_state(s[i],ge+i*NT,pe[i]); }
	for(int mode=0;mode<4;mode++){
		for(int i=0;i<n*NT;i++) gg[i]=0;
		for(int i=0;i<n;i++){ r[i]=0; ph[i]=7; }
		general_representative(&b,s,r,(mode&1)?gg:(int*)NULL,(mode&2)?ph:(signed char*)NULL,(npy_intp)n);
		for(int i=0;i<n;i++){ vp_assert(r[i]==e[i],1);
			if(mode&2) vp_assert(ph[i]==pe[i],2);
			if(mode&1) for(int k=0;k<NT;k++) vp_assert(gg[i*NT+k]==ge[i*NT+k],3); }
	}
	vp_reach(1);
}
// number of group elements in the stabiliser, signed with the character; -1 if some orbit element exceeds s
static int ref_norm(const orbit&o,I s,bool&bad){
	double n=0; bad=false; int pos=0,cnt=0; bool trivial=true;
	for(int e=0;e<o.G;e++){ bad|=(o.t[e]>s);
		bool st=(o.t[e]==s); double c=std::cos(angle(&o.g[e*NT])), si=std::sin(angle(&o.g[e*NT]));
		// character is trivial on the stabiliser iff sign*exp(-i angle)==1 for every stabiliser element
		bool one = (c>1-1e-9&&o.sg[e]==1)||(c<-1+1e-9&&o.sg[e]==-1);
		trivial=trivial&&(!st||one); cnt+=st?1:0; }
	return trivial?cnt:0;
}
extern "C" void h_norm(){
	vp_qs();
	BT b=mk<KIND>::get(NT,maps0[0],pers0,qs_);
	I s=vp_state("s");
	orbit o; make_orbit(b,s,o); bool bad; int want=ref_norm(o,s,bad);
	double n=b.check_state(s);
	vp_assert((n!=n)==bad,1);
	if(!bad){ vp_assert(vp_close(n,(double)want),2); npy_intp in=n; vp_assert((in>0)==(want>0),3); }
	vp_reach(1);
}
extern "C" void h_normalization(){
	vp_qs();
	BT b=mk<KIND>::get(NT,maps0[0],pers0,qs_);
	const int n=2; I s[n]; npy_uint16 nn[n]={77,77};
	for(int i=0;i<n;i++) s[i]=vp_state("s");
	int err=general_normalization(&b,s,nn,(npy_intp)n);
	int G=gsize(); bool over=false;
	for(int i=0;i<n;i++){ orbit o; make_orbit(b,s[i],o); bool bad; int want=ref_norm(o,s[i],bad); if(bad) want=0;
		vp_assert((int)nn[i]==want*G,1); }
	vp_assert(err==0,2);
	vp_reach(1);
}
extern "C" void h_overflow(){
	vp_qs();
	BT b=mk<KIND>::get(NT,maps0[0],pers0,qs_);
	I s[1]={vp_state("s")}; npy_uint8 nn[1];
	int err=general_normalization(&b,s,nn,(npy_intp)1);
	orbit o; make_orbit(b,s[0],o); bool bad; int want=ref_norm(o,s[0],bad); if(bad) want=0;
	vp_assert((err!=0)==(want*gsize()>255),1);
	vp_reach(1);
}
