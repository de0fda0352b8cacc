// Lookup of a state in the basis list: plain binary search and search inside prefix blocks.
#include "vp_basis.h"
#include "general_basis_op.h"
#include "make_general_basis.h"
#ifndef NB
#define NB 4
#endif
#ifndef NPRE
#define NPRE 2
#endif
static int blocks(){ int r=1; for(int k=0;k<NPRE;k++) r*=(KIND==KBOSON||KIND==KHSPIN)?SPS:2; return r; }
VPI I prefix(I s){ // leading NPRE digits
	if(KIND==KBOSON||KIND==KHSPIN){ I d=1; for(int k=0;k<NS-NPRE;k++) d*=SPS; return s/d; } return s>>(NS-NPRE); }
static void mkb(I*b){ for(int k=0;k<NB;k++){ b[k]=vp_state("b"); if(k) vp_assume(b[k]<b[k-1]); } }
extern "C" void h_prefix(){
	BT B(mk<KIND>::get(0,0,0,0)); I s=vp_state("s"); vp_assert(B.get_prefix(s,NPRE)==(npy_intp)prefix(s),1); vp_reach(1);
}
extern "C" void h_plain(){
	I b[NB]; mkb(b); I s=vp_state("s"); const int len=(int)vp_split(vp_int("len",0,NB));
	npy_intp j=rep_position<npy_intp,I>((npy_intp)len,b,s); npy_intp e=-1; for(int k=0;k<len;k++) if(b[k]==s) e=k;
	vp_assert(j==e,1); vp_reach(1);
}
extern "C" void h_blocks(){
	BT B(mk<KIND>::get(0,0,0,0)); I b[NB]; mkb(b);
	const int NBL=64; npy_intp bb[NBL],be[NBL]; const int nbl=blocks(); for(int k=0;k<NBL;k++) bb[k]=be[k]=-1;
	// arbitrary prefix of every stored state, fixed per path
	for(int k=0;k<NB;k++){ I p=prefix(b[k]); vp_assert(B.get_prefix(b[k],NPRE)==(npy_intp)p,1); vp_split((long long)p); }
	vp_assert(general_make_basis_blocks<I,signed char>(&B,NPRE,(npy_intp)NB,b,bb,be)==0,2);
	for(int k=nbl;k<NBL;k++) vp_assert(bb[k]==-1&&be[k]==-1,3);
	I s=vp_state("s"); const int p=(int)vp_split((long long)prefix(s));
	npy_intp j=rep_position<npy_intp,I>(bb,be,b,(npy_intp)p,s); npy_intp e=-1; for(int k=0;k<NB;k++) if(b[k]==s) e=k;
	vp_assert(j==e,4);
	npy_intp one[2]; vp_assert(general_make_basis_blocks<I,signed char>(&B,0,(npy_intp)NB,b,one,one+1)==0,5); vp_assert(one[0]==0&&one[1]==NB,6);
	vp_reach(1);
}
// the same lookup as used by operator construction: target state already known / must be reduced to its representative
extern "C" void h_index(){
	BT B(mk<KIND>::get(0,0,0,0)); I b[NB]; mkb(b); npy_intp bb[64],be[64]; for(int k=0;k<64;k++) bb[k]=be[k]=-1;
	for(int k=0;k<NB;k++) vp_split((long long)prefix(b[k]));
	general_make_basis_blocks<I,signed char>(&B,NPRE,(npy_intp)NB,b,bb,be);
	I s=vp_state("s"); vp_split((long long)prefix(s)); signed char sg=1; int g[4];
	npy_intp e=-1; for(int k=0;k<NB;k++) if(b[k]==s) e=k;
	npy_intp j=get_index<I,signed char,false,false,true>::call(&B,0,s,(npy_intp)NB,b,bb,be,NPRE,g,sg); vp_assert(j==e,1);
	j=get_index<I,signed char,false,false,false>::call(&B,0,s,(npy_intp)NB,b,bb,be,NPRE,g,sg); vp_assert(j==e,2);
	vp_reach(1);
}
