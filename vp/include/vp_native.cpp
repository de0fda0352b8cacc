// runtime of the native replay: argv = harness input-file ; prints OK / ASSUME / FAIL <id>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <cstring>
static std::map<std::string,std::string> in; static std::map<std::string,int> cnt;
static std::string nxt(const char*n){ std::string k=n; int c=cnt[k]++; k+="#"+std::to_string(c); auto it=in.find(k); return it==in.end()?std::string("0"):it->second; }
extern "C" {
uint64_t vp_u64(const char*n){return strtoull(nxt(n).c_str(),0,10);} uint32_t vp_u32(const char*n){return vp_u64(n);} uint16_t vp_u16(const char*n){return vp_u64(n);} uint8_t vp_u8(const char*n){return vp_u64(n);}
double vp_real(const char*n){return strtod(nxt(n).c_str(),0);}
void vp_assume(bool c){ if(!c){ printf("ASSUME\n"); fflush(stdout); _Exit(3);} }
void vp_assert(bool c,int id){ if(!c){ printf("FAIL %d\n",id); fflush(stdout); _Exit(1);} }
void VP_ENTRY(void);
}
int main(int c,char**v){ FILE*f=fopen(v[1],"r"); char k[256],x[256]; while(fscanf(f,"%255s %255s",k,x)==2) in[k]=x; fclose(f);
 VP_ENTRY(); printf("OK\n"); return 0; }
