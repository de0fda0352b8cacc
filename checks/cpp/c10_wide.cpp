// Multi-word basis integers: bit operations and conversions agree with arithmetic on the individual words.
#include "vp.h"
#include "hcb_basis_core.h"
#include "spinless_fermion_basis_core.h"
#include "general_basis_op.h"
#include "general_basis_bitops.h"
using namespace basis_general;
typedef uint256_t W;
static const int NL=4;
#ifndef SHS
#define SHS 0,1,63,64,65,130
#endif
#ifndef BG
#define BG 0
#endif
#ifndef LCNT
#define LCNT 100
#endif
#ifndef NPAD
#define NPAD 7
#endif
#ifndef MAPF
#define MAPF (i+1)%NW
#endif
#ifndef LIMBS
#define LIMBS 2
#endif
struct raw { uint64_t l[NL]; };
static raw mkraw(const char*n){ raw r; for(int k=0;k<NL;k++) r.l[k]=k<LIMBS?vp_u64(n):0; return r; }
static W mkw(const raw&r){ W x=0; for(int k=LIMBS-1;k>=0;k--){ x<<=64; x|=(W)r.l[k]; } return x; }
static uint64_t limb(const W&x,int k){ return (uint64_t)((x>>(64*k))&(W)0xffffffffffffffffULL); }
static int bit(const raw&r,int k){ return (int)((r.l[k/64]>>(k%64))&1); }
static void same(const W&x,const raw&r,int id){ for(int k=0;k<NL;k++) vp_assert(limb(x,k)==r.l[k],id); }

#define OPB(name) bitwise_op(x,y,(bool*)0,o,(npy_intp)1,name<W>())
extern "C" void h_bits(){
	raw a=mkraw("a"),b=mkraw("b"),e; W x[1]={mkw(a)},y[1]={mkw(b)},o[1];
	OPB(bitwise_and_op); for(int k=0;k<NL;k++) e.l[k]=a.l[k]&b.l[k]; same(o[0],e,1);
	OPB(bitwise_or_op); for(int k=0;k<NL;k++) e.l[k]=a.l[k]|b.l[k]; same(o[0],e,2);
	OPB(bitwise_xor_op); for(int k=0;k<NL;k++) e.l[k]=a.l[k]^b.l[k]; same(o[0],e,3);
	bitwise_not_op_core<W>(x,(bool*)0,o,(npy_intp)1); for(int k=0;k<NL;k++) e.l[k]=~a.l[k]; same(o[0],e,4);
	vp_reach(1);
}
extern "C" void h_shift(){
	raw a=mkraw("a"),e; W x[1]={mkw(a)},o[1]; uint32_t s[1]; const uint32_t cs[]={SHS}; s[0]=cs[vp_split(vp_int("sh",0,(int)(sizeof(cs)/4)-1))];
	bitwise_shift_op(x,s,(bool*)0,o,(npy_intp)1,bitwise_left_shift_op<W,uint32_t>());
	for(int k=0;k<NL;k++){ e.l[k]=0; for(int j=0;j<64;j++){ int p=64*k+j-(int)s[0]; if(p>=0) e.l[k]|=(uint64_t)bit(a,p)<<j; } } same(o[0],e,1);
	bitwise_shift_op(x,s,(bool*)0,o,(npy_intp)1,bitwise_right_shift_op<W,uint32_t>());
	for(int k=0;k<NL;k++){ e.l[k]=0; for(int j=0;j<64;j++){ int p=64*k+j+(int)s[0]; if(p<256) e.l[k]|=(uint64_t)bit(a,p)<<j; } } same(o[0],e,2);
	vp_reach(1);
}
// concrete background (LO/HI words alternate), four symbolic bits straddling a word boundary
extern "C" void h_count(){
	raw a; for(int k=0;k<NL;k++) a.l[k]=BG; int v=(int)vp_split(vp_int("v",0,15)),p=(int)vp_split(vp_int("p",0,3));
	for(int j=0;j<4;j++){ int b=p*64+62+j; if(b>255) b=j; a.l[b/64]&=~(1ULL<<(b%64)); a.l[b/64]|=(uint64_t)((v>>j)&1)<<(b%64); }
	W x=0; for(int k=NL-1;k>=0;k--){ x<<=64; x|=(W)a.l[k]; }
	const int L=LCNT; int c=0; for(int k=0;k<L;k++) c+=bit(a,k);
	vp_assert(bit_count(x,L)==c,1); vp_reach(1);
}
extern "C" void h_cmp(){
	raw a=mkraw("a"),b=mkraw("b"); W x=mkw(a),y=mkw(b); bool lt=false,eq=true;
	for(int k=0;k<NL;k++){ if(a.l[k]!=b.l[k]) lt=a.l[k]<b.l[k]; eq=eq&&a.l[k]==b.l[k]; }
	vp_assert((x<y)==lt,1); vp_assert((x==y)==eq,2); vp_assert((x>y)==(!lt&&!eq),3); vp_reach(1);
}
// operator action and lattice maps on states wider than a machine word
static const int NW=LIMBS*64-NPAD;
// SPARSE: a fixed background with SPARSE symbolic bits starting at position SPOS (stride SSTR), straddling the word boundaries
#ifndef SPOS
#define SPOS 0
#endif
#ifndef SSTR
#define SSTR 1
#endif
static raw mkstate(const char*n){
#ifdef SPARSE
	raw r; uint64_t v=vp_u64(n); for(int k=0;k<NL;k++) r.l[k]=k<LIMBS?(uint64_t)(BG)*(2*k+1):0;
	for(int j=0;j<SPARSE;j++){ int p=(SPOS+j*SSTR)%(LIMBS*64-NPAD); r.l[p/64]=(r.l[p/64]&~(1ULL<<(p%64)))|(((v>>j)&1)<<(p%64)); }
#else
	raw r=mkraw(n);
#endif
	r.l[LIMBS-1]&=(~0ULL)>>NPAD; return r; }
static const int sites[]={0,1,NW-65,NW-64,NW/2,NW-1};
template<class B,bool F> static void opw(){
	B b(NW); raw a=mkstate("a"); W s=mkw(a); int ix[2]; for(int j=0;j<2;j++) ix[j]=sites[vp_split(vp_int("ix",0,5))];
	static const char*const ops[]={"+-","-+","zn","xy","I-"}; const char*op=ops[vp_split(vp_int("o",0,F?2:4))];
	W r=s; cplx m(1,0); int err=b.op(r,m,2,op,ix); vp_assert(err==0,1);
	raw e=a; double re=1,im=0; bool zero=false;
	for(int j=1;j>=0;j--){ int p=NW-1-ix[j]; int o=bit(e,p); int sg=0; if(F) for(int k=0;k<p;k++) sg^=bit(e,k);
		double f=1; bool fl=false,yy=false;
		switch(op[j]){ case 'z': f=o?0.5:-0.5; break; case 'n': f=o; break; case 'x': f=0.5; fl=true; break; case 'y': f=o?0.5:-0.5; fl=yy=true; break;
			case '+': f=o?0:1; fl=true; break; case '-': f=o?1:0; fl=true; break; }
		if((op[j]=='+'||op[j]=='-')&&sg) f=-f;
		if(yy){ double t=re; re=-im*f; im=t*f; } else { re*=f; im*=f; }
		if(fl) e.l[p/64]^=1ULL<<(p%64); }
	vp_assert(vp_close(m,cplx(re,im)),2); zero=re==0&&im==0;
	if(!zero) for(int k=0;k<NL;k++) vp_assert(limb(r,k)==e.l[k],3);
	vp_reach(1);
}
extern "C" void h_op(){ opw<hcb_basis_core<W>,false>(); }
extern "C" void h_fop(){ opw<spinless_fermion_basis_core<W>,true>(); }
extern "C" void h_map(){
	int map[NW],per[1]={1},q[1]={0}; for(int i=0;i<NW;i++) map[i]=MAPF;
	hcb_basis_core<W> b(NW,1,map,per,q); raw a=mkstate("a"),e; for(int k=0;k<NL;k++) e.l[k]=0; W s=mkw(a); signed char sg=1;
	W r=b.map_state(s,0,sg);
	for(int i=0;i<NW;i++){ int m=map[i],o=bit(a,NW-1-i); if(m<0){ m=-m-1; o^=1; } int p=NW-1-m; e.l[p/64]|=(uint64_t)o<<(p%64); }
	for(int k=0;k<NL;k++) vp_assert(limb(r,k)==e.l[k],1); vp_reach(1);
}
