// kai - abstract interpreter over LLVM IR for the libkripto checks.
//
// A forward abstract interpretation (intervals + known-zero bits for integers,
// object+offset for pointers, per-byte initialisation state, per-byte label
// sets for information flow, allocation typestate).  No concrete data is ever
// supplied for keys, messages, nonces: those bytes are "any value" carrying a
// label.  Lengths / round counts are parameters of the analysed configuration.
// Undecided branches are analysed on both sides and the abstract states are
// joined at the immediate post-dominator; loops whose exit is undecided are
// iterated to a widened fixpoint.  There is no path condition and no solver.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <bitset>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
using namespace llvm;
#include "vn.h"
using std::string; using std::vector; using std::map; using std::set;

[[noreturn]] static void broken(const string &m){ printf("{\"broken\":\"%s\"}\n", m.c_str()); fflush(stdout); exit(3); }
static string esc(const string &s){ string r; for(char c: s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if((unsigned char)c<32) r+=' '; else r+=c; } return r; }

// ------------------------------------------------------------ label sets
enum { CLS_NONE=0, CLS_KEY=1, CLS_DATA=2, CLS_IV=3, CLS_HDR=4, CLS_TAG=5, CLS_OLD=6, CLS_SALT=7, CLS_TWEAK=8, CLS_DATA2=9, CLS_RANDOM=10, CLS_UNINIT=15, NCLS=16 };
static const char *clsname[NCLS]={"none","key","data","iv","header","tag","stale","salt","tweak","data2","random","stale public","c12","c13","c14","uninitialised"};
static const int NL=2560;
typedef std::bitset<NL> BS;
typedef uint32_t Dep;
struct Deps {
  vector<BS> sets; std::unordered_map<size_t,vector<Dep>> intern; std::unordered_map<uint64_t,Dep> memo;
  vector<std::pair<int,int>> labels; map<std::pair<int,int>,int> lid; BS clsmask[NCLS];
  void reset(){ sets.clear(); intern.clear(); memo.clear(); labels.clear(); lid.clear(); for(auto&m:clsmask)m.reset(); sets.push_back(BS()); intern[std::hash<BS>()(BS())].push_back(0);
    label(CLS_UNINIT,0); }
  int label(int c,int i){ auto k=std::make_pair(c,i); auto it=lid.find(k); if(it!=lid.end()) return it->second; int n=labels.size(); if(n>=NL) broken("too many labels"); labels.push_back(k); lid[k]=n; clsmask[c].set(n); return n; }
  Dep mk(const BS&b){ auto &v=intern[std::hash<BS>()(b)]; for(Dep d: v) if(sets[d]==b) return d; sets.push_back(b); v.push_back(sets.size()-1); return sets.size()-1; }
  Dep single(int l){ BS b; b.set(l); return mk(b); }
  Dep join(Dep a, Dep b){ if(a==b||!b) return a; if(!a) return b; if(a>b) std::swap(a,b); uint64_t k=((uint64_t)a<<32)|b; auto it=memo.find(k); if(it!=memo.end()) return it->second; Dep r=mk(sets[a]|sets[b]); memo[k]=r; return r; }
  bool hasCls(Dep d,int c){ return d && (sets[d]&clsmask[c]).any(); }
  bool has(Dep d,int l){ return d && sets[d].test(l); }
  string str(Dep d){ string r; map<int,set<int>> m; for(int i=0;i<(int)labels.size();i++) if(sets[d].test(i)) m[labels[i].first].insert(labels[i].second);
    for(auto&p:m){ if(r.size()) r+=" "; r+=clsname[p.first]; r+="["; int n=0; int prev=-2,start=-2; for(int x:p.second){ if(x==prev+1){prev=x;continue;} if(start>=0){ r+=std::to_string(start); if(prev!=start) r+=".."+std::to_string(prev); r+=","; if(++n>12){ r+="..."; start=-2; break; } } start=prev=x; } if(start>=0){ r+=std::to_string(start); if(prev!=start) r+=".."+std::to_string(prev);} r+="]"; }
    return r; }
};
static Deps D;
static Dep uninitDep(){ static Dep d=0; d=D.single(0); return d; }
static bool secretDep(Dep d){ return D.hasCls(d,CLS_KEY)||D.hasCls(d,CLS_DATA)||D.hasCls(d,CLS_DATA2)||D.hasCls(d,CLS_OLD); }

// ------------------------------------------------------------ values
static inline uint64_t maskw(unsigned w){ return w>=64?~0ull:((1ull<<w)-1); }
struct Alt { int obj; int64_t lo,hi; bool operator<(const Alt&o)const{ return std::tie(obj,lo,hi)<std::tie(o.obj,o.lo,o.hi);} bool operator==(const Alt&o)const{return obj==o.obj&&lo==o.lo&&hi==o.hi;} };
// obj: 0 integer, >0 pointer, -1 pointer set (lo = index), -2 unknown pointer, -3 bottom/undef slot, -4 aggregate (lo=index)
struct Val { uint64_t lo=0,hi=0,kz=0; Dep dep=0; int obj=0; unsigned w=64; vn::W vn=0; // vn: value number (of the offset for a pointer)
  bool isC()const{ return obj==0&&lo==hi; }
};
static vector<vector<Alt>> psets; static map<vector<Alt>,int> psetIdx;
static vector<vector<Val>> aggs;
static int mkpset(vector<Alt> v){ std::sort(v.begin(),v.end()); v.erase(std::unique(v.begin(),v.end()),v.end()); auto it=psetIdx.find(v); if(it!=psetIdx.end()) return it->second; psets.push_back(v); psetIdx[v]=psets.size()-1; return psets.size()-1; }
static Val C(uint64_t c,unsigned w){ Val v; c&=maskw(w); v.lo=v.hi=c; v.kz=~c; v.w=w; return v; }
static void norm(Val&v){ // tighten (integers)
  if(v.obj) return; uint64_t m=maskw(v.w); v.kz|=~m; uint64_t mx=~v.kz; if(v.hi>mx) v.hi=mx; if(v.lo>v.hi) v.lo=v.hi;
  if(v.lo==v.hi){ v.kz=~v.lo; return; }
  // bits above the top set bit of hi are zero
  unsigned lz=__builtin_clzll(v.hi|1); if(v.hi) { uint64_t above = lz? ~(~0ull>>lz):0; v.kz|=above; } 
}
static Val R(uint64_t lo,uint64_t hi,unsigned w,Dep d=0,uint64_t kz=0){ Val v; v.lo=lo; v.hi=hi; v.kz=kz; v.w=w; v.dep=d; norm(v); return v; }
static Val Top(unsigned w,Dep d=0){ return R(0,maskw(w),w,d); }
static Val P(int obj,int64_t lo,int64_t hi,Dep d=0,uint64_t kz=0){ Val v; v.obj=obj; v.lo=lo; v.hi=hi; v.kz=kz; v.dep=d; v.w=64; return v; }
static vector<Alt> alts(const Val&v){ if(v.obj==-1) return psets[v.lo]; if(v.obj>0) return {{v.obj,(int64_t)v.lo,(int64_t)v.hi}}; if(v.obj==0&&v.isC()&&v.lo==0) return {{0,0,0}}; return {}; }
static Val fromAlts(vector<Alt> a, Dep d){ // merge same obj
  map<int,Alt> m; for(auto&x:a){ auto it=m.find(x.obj); if(it==m.end()) m[x.obj]=x; else { it->second.lo=std::min(it->second.lo,x.lo); it->second.hi=std::max(it->second.hi,x.hi);} }
  if(m.size()==1){ auto&x=m.begin()->second; if(x.obj==0){ Val v=C(0,64); v.dep=d; return v;} return P(x.obj,x.lo,x.hi,d); }
  vector<Alt> o; for(auto&p:m) o.push_back(p.second); Val v; v.obj=-1; v.lo=mkpset(o); v.hi=0; v.dep=d; v.w=64; return v; }
static bool sameV(const Val&a,const Val&b){ return a.obj==b.obj&&a.lo==b.lo&&a.hi==b.hi&&a.dep==b.dep&&(a.obj||a.kz==b.kz)&&a.w==b.w&&(a.vn==b.vn||a.lo==a.hi); }
static vn::W wordOf(const Val&v,unsigned w){ if(!vn::on) return 0; if(v.obj==0&&v.lo==v.hi) return vn::cw(v.lo,w); if(v.obj!=0||!v.vn||vn::words[v.vn].size()!=w) return 0; return v.vn; }
static Val joinV(const Val&a,const Val&b,Dep extra,bool force=false){
  if(a.obj==-3) return b; if(b.obj==-3) return a;
  if(a.obj==-4||b.obj==-4){ if(a.obj==-4&&b.obj==-4&&aggs[a.lo].size()==aggs[b.lo].size()){ vector<Val> r; for(size_t i=0;i<aggs[a.lo].size();i++) r.push_back(joinV(aggs[a.lo][i],aggs[b.lo][i],extra,force)); aggs.push_back(r); Val v; v.obj=-4; v.lo=aggs.size()-1; return v; } broken("aggregate join"); }
  bool eqc = a.obj==b.obj&&a.lo==b.lo&&a.hi==b.hi&&(a.obj!=0? true : a.isC());
  if(!force && sameV(a,b)) return a;
  Dep d=D.join(a.dep,b.dep); if(!eqc) d=D.join(d,extra);
  if(a.obj==0&&b.obj==0) { Val v; v.lo=std::min(a.lo,b.lo); v.hi=std::max(a.hi,b.hi); v.kz=a.kz&b.kz; v.dep=d; v.w=a.w; if(vn::on&&a.w==b.w){ vn::W x=wordOf(a,a.w); if(x==wordOf(b,b.w)) v.vn=x; } norm(v); return v; }
  if(a.obj==-2||b.obj==-2){ Val v; v.obj=-2; v.dep=d; return v; }
  auto x=alts(a),y=alts(b); if(x.empty()||y.empty()){ Val v; v.obj=-2; v.dep=d; return v; }
  x.insert(x.end(),y.begin(),y.end()); Val v=fromAlts(x,d); if(v.obj>0&&a.obj>0&&b.obj>0) v.kz=a.kz&b.kz; return v;
}
static Val widenV(const Val&o,const Val&n){ // o: old, n: joined
  if(o.obj==0&&n.obj==0&&!sameV(o,n)){ Val v=n; if(n.lo<o.lo) v.lo=0; if(n.hi>o.hi){ v.hi=maskw(v.w); v.kz=o.kz&n.kz; // keep low zero bits only
      unsigned tz= v.kz==~0ull?64:__builtin_ctzll(~v.kz); v.kz= tz>=64?~0ull:((1ull<<tz)-1); }
    norm(v); return v; }
  if(o.obj>0&&n.obj==o.obj&&(o.lo!=n.lo||o.hi!=n.hi)){ Val v=n; if((int64_t)n.lo<(int64_t)o.lo) v.lo=(uint64_t)-(1ll<<40); if((int64_t)n.hi>(int64_t)o.hi) v.hi=1ll<<40; v.kz=0; return v; }
  return n; }

// ------------------------------------------------------------ memory
enum { F_INIT=1,F_VOL=2,F_SEC=4,F_WR=8 };
struct Byte { uint8_t lo=0,hi=0,fl=0,pf=0; Dep dep=0; vn::W vn=0; };
static inline vn::W relW(vn::W p,int64_t s){ return s? vn::add(p,vn::cw(s,64),64,true):p; } // offset from the start of the range an access may touch
static inline vn::W byteW(const Byte&b){ if(!(b.fl&F_INIT)||b.pf) return 0; if(b.vn) return b.vn; if(b.lo==b.hi) return vn::cw(b.lo,8); return 0; }
enum OKind { OK_GLOBAL, OK_STACK, OK_HEAP, OK_FUNC, OK_HARN };
struct Obj { OKind kind; uint64_t size=0; bool alive=true,ro=false,unal=false,cst=false,maydead=false,dropped=false; string name; const Instruction*site=nullptr; const Function*fn=nullptr; vector<Byte> b; map<uint64_t,Val> cells; };
typedef std::shared_ptr<Obj> OP;
struct Chunk { OP p[64]; };
// objects below NB (functions, constant globals) are shared by every state; the rest live in copy-on-write chunks
static int NB=0;
struct State { vector<std::shared_ptr<Chunk>> c; size_t n=0; bool bot=false;
  const OP& get(size_t i)const{ return c[i>>6]->p[i&63]; }
  OP& mut(size_t i){ auto&k=c[i>>6]; if(k.use_count()>1) k=std::make_shared<Chunk>(*k); return k->p[i&63]; }
  void push(OP o){ if((n&63)==0) c.push_back(std::make_shared<Chunk>()); n++; mut(n-1)=std::move(o); }
  size_t size()const{ return n; } };
static State *S; // current state
struct Mark { vector<Byte> b; StructType*ty=nullptr; bool has=false; };
static map<int,Mark> marks; static int agedN=0;
static vector<OP> baseObjs; static std::unordered_map<const GlobalValue*,int> gobj;

// ------------------------------------------------------------ events
struct Ev { string kind,file,func,detail,ctx; unsigned line; string stack; int count=1; };
static map<string,Ev> events; static string curCtx; static bool quietEv=false;
struct FrameRef { const Function*f; const Instruction*at; };
static vector<FrameRef> callstk;
static Module *M; static const DataLayout *DL; static bool BE; // byte order of the analysed target
static inline unsigned bi(unsigned i,unsigned sz){ return BE?sz-1-i:i; } // place of the byte of significance i in memory
static set<string> libfiles;
static bool isHarnessFn(const Function*f){ if(!f) return true; if(auto*sp=f->getSubprogram()) return sp->getFilename().contains("harness/")||sp->getFilename().contains("kai_"); return f->getName().starts_with("kai_")||f->getName().starts_with("drv_"); }
static void locOf(const Instruction*I,string&file,unsigned&line){ file="?"; line=0; if(!I) return; if(auto &dl=I->getDebugLoc()){ line=dl.getLine(); file=dl->getFilename().str(); } else if(auto*sp=I->getFunction()->getSubprogram()){ line=sp->getLine(); file=sp->getFilename().str(); } }
static string shortf(const string&f){ auto p=f.find("/lib/"); if(p!=string::npos) return f.substr(p+1); p=f.find("include/kripto"); if(p!=string::npos) return f.substr(p); p=f.rfind('/'); return p==string::npos?f:f.substr(p+1); }
static void event(const string&kind,const Instruction*I,const string&detail,bool forceHere=false){
  if(quietEv) return;
  string file; unsigned line; const Function*fn= I?I->getFunction():nullptr; const Instruction*at=I;
  if(!forceHere){ // report in innermost library frame
    if(I&&isHarnessFn(fn)) { for(int i=(int)callstk.size()-1;i>=0;i--) if(!isHarnessFn(callstk[i].f)&&callstk[i].at){ at=callstk[i].at; fn=callstk[i].f; break; } } }
  locOf(at,file,line);
  string stk; for(auto&fr:callstk){ if(!fr.at) continue; string f; unsigned l; locOf(fr.at,f,l); if(stk.size()) stk+=" > "; stk+=fr.f->getName().str()+"@"+shortf(f)+":"+std::to_string(l); }
  string key=kind+"|"+shortf(file)+"|"+std::to_string(line)+"|"+(fn?fn->getName().str():"")+"|"+(forceHere?detail:"")+"|"+ (kind=="leak"||kind=="unwiped_free"||kind=="unwiped_stack"||kind=="expect"||kind=="same"||kind=="dep"||kind=="deponly"||kind=="nodep"||kind=="elidable_wipe"||kind=="uninit_out"?detail:"");
  auto it=events.find(key); if(it!=events.end()){ it->second.count++; return; }
  Ev e; e.kind=kind; e.file=shortf(file); e.line=line; e.func=fn?fn->getName().str():""; e.detail=detail; e.ctx=curCtx; e.stack=stk; events[key]=e; }

// stats
struct Stats { uint64_t insts=0,loads=0,stores=0,branches=0,undecided=0,calls=0,frees=0,mallocs=0,returns=0,configs=0,checks=0,fixpoints=0,faults=0; } st;
static set<const Function*> seenFn; static set<const BasicBlock*> seenBB;

static int newObj(OKind k,uint64_t size,const string&name,const Instruction*site){ auto o=std::make_shared<Obj>(); o->kind=k; o->size=size; o->name=name; o->site=site; o->b.resize(size); S->push(o); return NB+(int)S->size()-1; }
static Obj&rd(int id){ return id<NB? *baseObjs[id] : *S->get(id-NB); }
static Obj&wr(int id){ if(id<NB) broken("write to a constant object "+baseObjs[id]->name); auto&p=S->mut(id-NB); if(p.use_count()>1) p=std::make_shared<Obj>(*p); return *p; }
static string objDesc(int id){ Obj&o=rd(id); string r= o.kind==OK_HEAP?"heap object":o.kind==OK_STACK?"local":o.kind==OK_GLOBAL?"global":o.kind==OK_HARN?"caller buffer":"function"; r+=" '"+o.name+"' ("+std::to_string(o.size)+" bytes)"; return r; }
static string hexish(int64_t lo,int64_t hi){ return lo==hi?std::to_string(lo):("["+std::to_string(lo)+".."+std::to_string(hi)+"]"); }

// in-place tracking
struct InPlace { int in=-1,out=-1; uint64_t off=0,len=0; vector<uint8_t> stored; bool on=false; } ip;

static void noteLoadBytes(int obj,int64_t lo,int64_t hi,unsigned sz,const Instruction*I){
  if(ip.on&&obj==ip.in){ for(int64_t k=lo;k<hi+(int64_t)sz&&k<(int64_t)ip.stored.size();k++) if(k>=0&&ip.stored[k]){ event("inplace",I,"input byte "+std::to_string(k)+" is read after output byte "+std::to_string(k)+" was written: wrong result when input and output are the same buffer"); break; } } }
static void noteStoreBytes(int obj,int64_t lo,int64_t hi,unsigned sz){ if(ip.on&&obj==ip.out) for(int64_t k=lo;k<hi+(int64_t)sz&&k<(int64_t)ip.stored.size();k++) if(k>=0) ip.stored[k]=1; }

// returns resolved alternative list after reporting nulls etc.
static vector<Alt> resolveP(const Val&p,uint64_t sz,const Instruction*I,bool store,unsigned align){
  vector<Alt> out;
  if(p.obj==-2||(p.obj==0&&!p.isC())){ event("wild",I,string(store?"store":"load")+" through a pointer the analysis cannot resolve"); return out; }
  if(p.obj==-3){ event("wild",I,"access through undefined pointer"); return out; }
  if(D.has(p.dep,0)) event("uninit",I,"address computed from uninitialised memory");
  for(auto&a:alts(p)){
    if(a.obj==0){ event("null",I,string(store?"store":"load")+" through a null pointer"); continue; }
    Obj&o=rd(a.obj);
    if(o.kind==OK_FUNC){ event("oob",I,"data access to a function"); continue; }
    if(!o.alive){ event("uaf",I,string(store?"write to":"read of")+" "+objDesc(a.obj)+(o.kind==OK_STACK?" after its function returned":" after it was freed")); if(o.kind!=OK_HEAP) continue; }
    if(o.maydead) event("uaf",I,string(store?"write to":"read of")+" "+objDesc(a.obj)+" that may already be freed");
    int64_t lo=a.lo,hi=a.hi;
    if(lo<0||hi+(int64_t)sz>(int64_t)o.size){ event(store?"oob_write":"oob_read",I,string(store?"write":"read")+" of "+std::to_string(sz)+" byte(s) at offset "+hexish(lo,hi)+" of "+objDesc(a.obj)); 
      if(lo<0) lo=0; if(hi+(int64_t)sz>(int64_t)o.size) hi=(int64_t)o.size-(int64_t)sz; if(lo>hi) continue; }
    if(store){ if(o.cst) event("const_write",I,"write to constant "+objDesc(a.obj));
      else if(o.ro) event("ro_write",I,"write to read-only "+objDesc(a.obj));
      if(o.kind==OK_GLOBAL&&!o.cst&&!isHarnessFn(I->getFunction())) event("global_write",I,"write to static storage '"+o.name+"'"); }
    else if(o.kind==OK_GLOBAL&&!o.cst&&!isHarnessFn(I->getFunction())) event("global_read",I,"read of mutable static storage '"+o.name+"'");
    if(align>1&&o.unal) event("align",I,"access of "+std::to_string(sz)+" bytes assuming "+std::to_string(align)+"-byte alignment of "+objDesc(a.obj));
    out.push_back({a.obj,lo,hi});
  }
  return out; }

struct GKey{ int o; int64_t lo,hi; unsigned sz; uint64_t st; bool operator<(const GKey&k)const{ return std::tie(o,lo,hi,sz,st)<std::tie(k.o,k.lo,k.hi,k.sz,k.st);} };
static map<GKey,Val> gcache;

static Val loadAt(Obj&o,int64_t off,unsigned sz,unsigned w,const Instruction*I){
  // pointer cell?
  if(sz==8){ auto it=o.cells.find(off); if(it!=o.cells.end()){ bool ok=true; for(int i=0;i<8;i++) if(o.b[off+i].pf!=i+1) ok=false; if(ok){ Val v=it->second; v.w=w; return v; } } }
  uint64_t lo=0,hi=0; Dep d=0; bool un=false, frag=false;
  for(unsigned i=0;i<sz;i++){ Byte&b=o.b[off+bi(i,sz)]; if(!(b.fl&F_INIT)){ un=true; hi|=0xffull<<(8*i); continue; } if(b.pf){ frag=true; hi|=0xffull<<(8*i); d=D.join(d,b.dep); continue; } lo|=(uint64_t)b.lo<<(8*i); hi|=(uint64_t)b.hi<<(8*i); d=D.join(d,b.dep); }
  if(un) d=D.join(d,uninitDep());
  (void)frag;
  Val v; v.w=w; v.lo=lo&maskw(w); v.hi=hi&maskw(w); v.kz=0; for(unsigned i=0;i<sz;i++){ unsigned hb=(hi>>(8*i))&255; unsigned lb=(lo>>(8*i))&255; uint64_t kzb; if(hb==lb) kzb=(~hb)&255; else { unsigned m=hb; m|=m>>1;m|=m>>2;m|=m>>4; kzb=(~m)&255; } v.kz|=kzb<<(8*i); } v.dep=d; norm(v); if(vn::on&&lo!=hi&&!un&&!frag){ vector<vn::W> bs(sz); bool ok=true; for(unsigned i=0;i<sz&&ok;i++) ok=(bs[i]=byteW(o.b[off+bi(i,sz)]))!=0; if(ok){ v.vn=vn::concat(bs); if(w<sz*8) v.vn=vn::trunc_(v.vn,w); } } return v; }

static Val load(const Val&p,unsigned sz,unsigned w,const Instruction*I,unsigned align){
  st.loads++; auto as=resolveP(p,sz,I,false,align); Val r; r.obj=-3; 
  uint64_t step=1; if(p.obj>0){ uint64_t tz= p.kz==~0ull?8:__builtin_ctzll(~p.kz); if(tz>3) tz=3; step=1ull<<tz; }
  for(auto&a:as){ Obj&o=rd(a.obj); noteLoadBytes(a.obj,a.lo,a.hi,sz,I);
    if(a.lo==a.hi){ Val v=loadAt(o,a.lo,sz,w,I); r=joinV(r,v,0); }
    else { Val acc; acc.obj=-3; GKey k{a.obj,a.lo,a.hi,sz,step}; bool cacheable=o.cst; auto it=gcache.end(); if(cacheable) it=gcache.find(k);
      if(cacheable&&it!=gcache.end()) acc=it->second; else { int64_t s=a.lo; if(step>1) s=(a.lo+step-1)/step*step; for(int64_t f=s;f<=a.hi;f+=step){ Val v=loadAt(o,f,sz,w,I); acc=joinV(acc,v,0); } if(acc.obj==-3) acc=Top(w); if(cacheable) gcache[k]=acc; }
      acc.w=w; r=joinV(r,acc,0); } }
  if(r.obj==-3){ r=Top(w); }
  r.dep=D.join(r.dep,p.dep); r.w=w;
  if(vn::on&&as.size()==1&&as[0].lo!=as[0].hi){ r.vn=0; Obj&o=rd(as[0].obj); int64_t s=as[0].lo; if(step>1) s=(s+step-1)/step*step; if(p.vn&&r.obj==0&&!r.isC()){
      vn::W x=vn::lut(p.vn,sz,[&](uint64_t off,uint64_t&e){ if(off+sz>o.size) return false; for(unsigned i=0;i<sz;i++){ Byte&b=o.b[off+bi(i,sz)]; if(!(b.fl&F_INIT)||b.pf||b.lo!=b.hi) return false; e|=(uint64_t)b.lo<<(8*i); } return true; });
      vector<uint32_t> un; if(!x&&vn::unknownBits(p.vn,un)&&!un.empty()){ std::sort(un.begin(),un.end()); vector<vn::W> t,e(sz); bool ok=true; std::unordered_map<uint32_t,int> val; for(unsigned q=0;q<1u<<un.size()&&ok;q++){ for(size_t i=0;i<un.size();i++) val[un[i]]=q>>i&1; uint64_t off=vn::evalUnder(p.vn,val); if(off+sz>o.size||off<(uint64_t)as[0].lo||off>(uint64_t)as[0].hi){ ok=false; break; } for(unsigned i=0;i<sz&&ok;i++) if(!(e[i]=byteW(o.b[off+bi(i,sz)]))) ok=false; if(ok) t.push_back(vn::concat(e)); }
        if(ok){ bool eq=true; for(vn::W y:t) if(y!=t[0]) eq=false; vector<vn::B> ib; for(uint32_t y:un) ib.push_back(y<<1); x=eq?t[0]:vn::nodeWord(vn::mkNode(vn::SEL,8*sz,0,{vn::mkWord(ib),0,1,vn::mkTab(t)}),8*sz); } }
      if(!x&&(as[0].hi-s)/(int64_t)step<2048){ vector<vn::W> t,e(sz); bool ok=true; for(int64_t f=s;f<=as[0].hi&&ok;f+=step){ for(unsigned i=0;i<sz&&ok;i++) if(!(e[i]=byteW(o.b[f+bi(i,sz)]))) ok=false; if(ok) t.push_back(vn::concat(e)); } if(ok) x=vn::nodeWord(vn::mkNode(vn::SEL,8*sz,0,{relW(p.vn,s),0u,(uint32_t)step,vn::mkTab(t)}),8*sz); }
      if(x) r.vn= w<sz*8? vn::trunc_(x,w):x; } }
  else if(as.size()>1) r.vn=0;
  return r; }

static void killCells(Obj&o,int64_t off,unsigned sz){ auto it=o.cells.lower_bound(off>=7?off-7:0); while(it!=o.cells.end()&&(int64_t)it->first<off+(int64_t)sz){ if((int64_t)it->first+8>off){ for(int i=0;i<8;i++){ Byte&b=o.b[it->first+i]; if(b.pf){ b.pf=0; b.lo=0; b.hi=255; } } it=o.cells.erase(it);} else ++it; } }
static void putByte(Byte&b,uint8_t lo,uint8_t hi,Dep d,bool vol,bool weak,vn::W vnum=0){
  if(vn::on&&weak&&(!vnum||byteW(b)!=(lo==hi?vn::cw(lo,8):vnum))) b.vn=0; else b.vn=vnum;
  if(weak){ if(b.fl&F_INIT){ b.lo=std::min(b.lo,lo); b.hi=std::max(b.hi,hi);} else { b.lo=0;b.hi=255; d=D.join(d,uninitDep()); b.fl|=F_INIT; } b.dep=D.join(b.dep,d); b.fl|=F_WR; }
  else { b.lo=lo;b.hi=hi;b.dep=d; b.fl|=F_INIT|F_WR; if(vol) b.fl|=F_VOL; else b.fl&=~F_VOL; }
  if(secretDep(b.dep)) b.fl|=F_SEC; b.pf=0; }
static void storeAt(Obj&o,int64_t off,unsigned sz,const Val&v,bool vol,bool weak,Dep extra){
  killCells(o,off,sz); Dep d=D.join(v.dep,extra);
  if(v.obj!=0){ if(sz==8&&!weak&&v.obj!=-3){ o.cells[off]=v; for(int i=0;i<8;i++){ Byte&b=o.b[off+i]; putByte(b,0,255,d,vol,false); b.pf=i+1; } } else for(unsigned i=0;i<sz;i++) putByte(o.b[off+i],0,255,v.obj==-3?D.join(d,uninitDep()):d,vol,weak); return; }
  const vector<vn::W>*sb=nullptr; static const vector<vn::W> none; if(vn::on){ vn::W x=v.obj==0?(v.isC()?0:v.vn):0; if(x){ if(vn::words[x].size()<sz*8) x=vn::zext(x,sz*8); sb=&vn::splitBytes(x); } }
  bool top=true; // bytes above are fixed
  for(int i=(int)sz-1;i>=0;i--){ uint8_t l=v.lo>>(8*i),h=v.hi>>(8*i); if(!top||((i<7)&&(v.lo>>(8*(i+1)))!=(v.hi>>(8*(i+1))))){ top=false; l=0; h=255; }
    uint8_t kz=v.kz>>(8*i); if(l==0&&(uint8_t)~kz<h) h=(uint8_t)~kz; if(l>h) l=0;
    putByte(o.b[off+bi(i,sz)],l,h,(l==h&&v.isC())?d:d,vol,weak,sb&&i<(int)sb->size()?(*sb)[i]:(l==h&&vn::on?vn::cw(l,8):0)); } }
static void store(const Val&p,unsigned sz,const Val&v,const Instruction*I,bool vol,unsigned align){
  st.stores++; auto as=resolveP(p,sz,I,true,align); uint64_t step=1; if(p.obj>0){ uint64_t tz= p.kz==~0ull?8:__builtin_ctzll(~p.kz); if(tz>3) tz=3; step=1ull<<tz; }
  for(auto&a:as){ if(rd(a.obj).cst) continue; Obj&o=wr(a.obj); noteStoreBytes(a.obj,a.lo,a.hi,sz); bool weak=as.size()>1||a.lo!=a.hi;
    if(a.lo==a.hi) storeAt(o,a.lo,sz,v,vol,weak,p.dep); else { vector<std::pair<int64_t,vn::W>> upd;
      if(vn::on&&as.size()==1&&p.vn&&(a.hi-a.lo)/(int64_t)step<2048){ vn::W x=wordOf(v,v.w); if(x){ if(v.w<sz*8) x=vn::zext(x,sz*8); auto sb=vn::splitBytes(x); int64_t s=a.lo; if(step>1) s=(a.lo+step-1)/step*step; std::map<int64_t,vn::W> cur; vn::W rel=relW(p.vn,s); for(int64_t f=s;f<=a.hi;f+=step) for(unsigned i=0;i<sz;i++){ int64_t q=f+bi(i,sz); vn::W old=cur.count(q)?cur[q]:byteW(o.b[q]); cur[q]= old? (old==sb[i]?old:vn::nodeWord(vn::mkNode(vn::UPD,8,0,{rel,(uint32_t)(f-s),sb[i],old}),8)) : 0; } for(auto&kv:cur) upd.push_back(kv); } } int64_t s=a.lo; if(step>1) s=(a.lo+step-1)/step*step; for(int64_t f=s;f<=a.hi;f+=step) storeAt(o,f,sz,v,vol,true,p.dep); for(auto&u:upd) o.b[u.first].vn=u.second; } } }

// ------------------------------------------------------------ integer transfer functions
static unsigned bitsOf(uint64_t x){ return x?64-__builtin_clzll(x):0; }
static uint64_t smear(uint64_t x){ return x? (~0ull>>__builtin_clzll(x)):0; }
static Val binop0(unsigned op,const Val&a,const Val&b,unsigned w,const Instruction*I){
  Dep d=D.join(a.dep,b.dep); uint64_t m=maskw(w);
  // pointer arithmetic through integers
  if(a.obj||b.obj){
    if(a.obj==-3||b.obj==-3) return Top(w,D.join(d,uninitDep()));
    if(op==Instruction::Sub&&a.obj>0&&b.obj==a.obj&&a.lo==a.hi&&b.lo==b.hi) { Val v=C(a.lo-b.lo,w); v.dep=d; return v; }
    if(op==Instruction::Sub&&a.obj>0&&b.obj==a.obj) return Top(w,d);
    if((op==Instruction::Add||op==Instruction::Sub)&&a.obj>0&&b.obj==0){ int64_t bl=b.lo,bh=b.hi; if(op==Instruction::Add) return P(a.obj,a.lo+bl,a.hi+bh,d); return P(a.obj,(int64_t)a.lo-bh,(int64_t)a.hi-bl,d); }
    if(op==Instruction::Add&&b.obj>0&&a.obj==0) return P(b.obj,b.lo+a.lo,b.hi+a.hi,d);
    return Top(w,d); }
  if(a.isC()&&b.isC()){ uint64_t x=a.lo,y=b.lo,r=0; int64_t sx=w>=64?(int64_t)x:((int64_t)(x<<(64-w))>>(64-w)), sy=w>=64?(int64_t)y:((int64_t)(y<<(64-w))>>(64-w));
    switch(op){ case Instruction::Add:r=x+y;break; case Instruction::Sub:r=x-y;break; case Instruction::Mul:r=x*y;break; case Instruction::And:r=x&y;break; case Instruction::Or:r=x|y;break; case Instruction::Xor:r=x^y;break;
     case Instruction::Shl: if(y>=w){event("shift",I,"shift by "+std::to_string(y)+" of a "+std::to_string(w)+"-bit value");r=0;} else r=x<<y; break;
     case Instruction::LShr: if(y>=w){event("shift",I,"shift by "+std::to_string(y)+" of a "+std::to_string(w)+"-bit value");r=0;} else r=x>>y; break;
     case Instruction::AShr: if(y>=w){event("shift",I,"shift by "+std::to_string(y)+" of a "+std::to_string(w)+"-bit value");r=0;} else r=(uint64_t)(sx>>y); break;
     case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: if(!y){ event("div0",I,"division by zero"); return Top(w,d);} 
       if(op==Instruction::UDiv) r=x/y; else if(op==Instruction::URem) r=x%y; else if(sy==-1) r=op==Instruction::SDiv?(uint64_t)-sx:0; else r= op==Instruction::SDiv?(uint64_t)(sx/sy):(uint64_t)(sx%sy); break;
     default: return Top(w,d); }
    Val v=C(r,w); v.dep=d; return v; }
  Val v; v.w=w; v.dep=d; v.lo=0; v.hi=m; v.kz=0;
  auto tzk=[&](uint64_t kz){ return kz==~0ull?64u:(unsigned)__builtin_ctzll(~kz); };
  switch(op){
   case Instruction::Add: { unsigned t=std::min(tzk(a.kz),tzk(b.kz)); v.kz=t>=64?~0ull:((1ull<<t)-1); uint64_t h; if(!__builtin_add_overflow(a.hi,b.hi,&h)&&h<=m){ v.lo=a.lo+b.lo; v.hi=h; } else { uint64_t l; bool lof=__builtin_add_overflow(a.lo,b.lo,&l)||l>m; if(lof){ v.lo=(a.lo+b.lo)&m; v.hi=(a.hi+b.hi)&m; if(v.lo>v.hi){v.lo=0;v.hi=m;} } } break; }
   case Instruction::Sub: { unsigned t=std::min(tzk(a.kz),tzk(b.kz)); v.kz=t>=64?~0ull:((1ull<<t)-1); if(a.lo>=b.hi){ v.lo=a.lo-b.hi; v.hi=a.hi-b.lo; } else if(a.hi<b.lo){ v.lo=(a.lo-b.hi)&m; v.hi=(a.hi-b.lo)&m; } break; }
   case Instruction::Mul: { unsigned t=tzk(a.kz)+tzk(b.kz); v.kz=t>=64?~0ull:((1ull<<t)-1); uint64_t h; if(!__builtin_mul_overflow(a.hi,b.hi,&h)&&h<=m){ v.lo=a.lo*b.lo; v.hi=h; } break; }
   case Instruction::And: { v.kz=a.kz|b.kz; v.hi=std::min(a.hi,b.hi); if(b.isC()&&b.lo==0) {} break; }
   case Instruction::Or: { v.kz=a.kz&b.kz; v.lo=std::max(a.lo,b.lo); v.hi=smear(a.hi|b.hi)&m; break; }
   case Instruction::Xor: { v.kz=a.kz&b.kz; v.hi=smear(a.hi|b.hi)&m; break; }
   case Instruction::Shl: { if(b.isC()){ uint64_t s=b.lo; if(s>=w){ event("shift",I,"shift by "+std::to_string(s)+" of a "+std::to_string(w)+"-bit value"); break; } v.kz=(a.kz<<s)|((1ull<<s)-1); if(s==0) v.kz=a.kz; if(a.hi<=(m>>s)){ v.lo=a.lo<<s; v.hi=a.hi<<s; } } else { if(b.hi>=w) event("shift",I,"shift amount "+hexish(b.lo,b.hi)+" may reach the width of a "+std::to_string(w)+"-bit value"); if(b.hi<w&&a.hi<=(m>>b.hi)){ v.lo=a.lo<<b.lo; v.hi=a.hi<<b.hi; } } break; }
   case Instruction::LShr: { if(b.isC()){ uint64_t s=b.lo; if(s>=w){ event("shift",I,"shift by "+std::to_string(s)+" of a "+std::to_string(w)+"-bit value"); break; } v.lo=a.lo>>s; v.hi=a.hi>>s; v.kz=(a.kz>>s)|~(~0ull>>s); if(s==0) v.kz=a.kz; } else { if(b.hi>=w) event("shift",I,"shift amount "+hexish(b.lo,b.hi)+" may reach the width of a "+std::to_string(w)+"-bit value"); v.hi=a.hi>>(b.lo<64?b.lo:63); } break; }
   case Instruction::AShr: { uint64_t sign=1ull<<(w-1); if(a.hi<sign) { if(b.isC()&&b.lo<w){ v.lo=a.lo>>b.lo; v.hi=a.hi>>b.lo; } else v.hi=a.hi; } if(b.hi>=w) event("shift",I,"shift amount "+hexish(b.lo,b.hi)+" may reach the width of a "+std::to_string(w)+"-bit value"); break; }
   case Instruction::UDiv: if(b.lo){ v.lo=a.lo/b.hi; v.hi=a.hi/b.lo; } else if(b.isC()) event("div0",I,"division by zero"); else event("div0_may",I,"divisor "+hexish(b.lo,b.hi)+" may be zero"); break;
   case Instruction::URem: if(b.hi==0) event("div0",I,"division by zero"); else { if(!b.lo) event("div0_may",I,"divisor may be zero"); v.hi=std::min(a.hi,b.hi-1); if(b.isC()&&a.hi<b.lo){ v.lo=a.lo; v.hi=a.hi; } } break;
   case Instruction::SDiv: case Instruction::SRem: if(b.isC()&&!b.lo) event("div0",I,"division by zero"); { uint64_t sign=1ull<<(w-1); if(a.hi<sign&&b.hi<sign&&b.lo){ if(op==Instruction::SDiv){v.lo=a.lo/b.hi; v.hi=a.hi/b.lo;} else v.hi=std::min(a.hi,b.hi-1);} } break;
   default: break; }
  norm(v); return v; }

// a range that follows from the types alone
static void typeRange(const Value*v,unsigned w,int64_t&l,int64_t&h,int depth=0){
  l=-(1ll<<(w-1)); h=(1ll<<(w-1))-1; auto put=[&](int64_t a,int64_t b){ if(a>l) l=a; if(b<h) h=b; };
  if(auto*c=dyn_cast<ConstantInt>(v)) put(c->getSExtValue(),c->getSExtValue());
  else if(auto*z=dyn_cast<ZExtInst>(v)){ unsigned n=z->getSrcTy()->getIntegerBitWidth(); if(n<w) put(0,(1ll<<n)-1); }
  else if(auto*z=dyn_cast<SExtInst>(v)){ unsigned n=z->getSrcTy()->getIntegerBitWidth(); if(n<w) put(-(1ll<<(n-1)),(1ll<<(n-1))-1); }
  else if(auto*b=dyn_cast<BinaryOperator>(v); b&&depth<6){ if(b->getOpcode()==Instruction::And){ for(int i=0;i<2;i++) if(auto*c=dyn_cast<ConstantInt>(b->getOperand(i))) if(!c->isNegative()) put(0,c->getSExtValue()); }
    else if((b->getOpcode()==Instruction::Add||b->getOpcode()==Instruction::Sub)&&b->hasNoSignedWrap()){ int64_t al,ah,bl,bh; typeRange(b->getOperand(0),w,al,ah,depth+1); typeRange(b->getOperand(1),w,bl,bh,depth+1); if(b->getOpcode()==Instruction::Add) put(al+bl,ah+bh); else put(al-bh,ah-bl); } } }
// arithmetic on signed types: the exact result has to fit
static void signedOverflow(unsigned op,const Val&a,const Val&b,unsigned w,const Instruction*I){
  auto*O=dyn_cast_or_null<OverflowingBinaryOperator>(I); if(!O||!O->hasNoSignedWrap()||w>32||a.obj||b.obj) return; if(op!=Instruction::Add&&op!=Instruction::Sub&&op!=Instruction::Mul) return;
  auto rng=[&](const Val&v,int64_t&l,int64_t&h){ int64_t sg=1ll<<(w-1),f=1ll<<w; if((int64_t)v.hi<sg){ l=v.lo; h=v.hi; } else if((int64_t)v.lo>=sg){ l=(int64_t)v.lo-f; h=(int64_t)v.hi-f; } else { l=-sg; h=sg-1; } };
  int64_t al,ah,bl,bh,l,h; rng(a,al,ah); rng(b,bl,bh); for(int i=0;i<2;i++){ typeRange(I->getOperand(i),w,l,h); int64_t&x=i?bl:al,&y=i?bh:ah; if(l>x) x=l; if(h<y) y=h; }
  if(op==Instruction::Add){ l=al+bl; h=ah+bh; } else if(op==Instruction::Sub){ l=al-bh; h=ah-bl; } else { int64_t c[4]={al*bl,al*bh,ah*bl,ah*bh}; l=*std::min_element(c,c+4); h=*std::max_element(c,c+4); }
  if(h>=(1ll<<(w-1))||l<-(1ll<<(w-1))) event("sovf",I,"signed arithmetic may overflow: a result between "+std::to_string(l)+" and "+std::to_string(h)+" in "+std::to_string(w)+" bits"); }

static Val binop(unsigned op,const Val&a,const Val&b,unsigned w,const Instruction*I){
  signedOverflow(op,a,b,w,I);
  Val r=binop0(op,a,b,w,I); if(!vn::on||r.obj||r.isC()||a.obj||b.obj) return r; r.vn=0;
  vn::W x=wordOf(a,w),y=wordOf(b,w); if(!x||!y) return r; vn::W z=0; uint64_t c;
  if(vn::full()){ vn::on=false; vn::off++; } // values unknown from here on: later comparisons are open
  switch(op){ case Instruction::Add: z=vn::add(x,y,w,false); break; case Instruction::Sub: z=vn::add(x,y,w,true); break; case Instruction::Mul: z=vn::mul(x,y,w); break;
   case Instruction::And: z=vn::bitop('&',x,y,w); break; case Instruction::Or: z=vn::rotIdiom(x,y,w); if(!z) z=vn::bitop('|',x,y,w); break; case Instruction::Xor: z=vn::bitop('^',x,y,w); break;
   case Instruction::Shl: if(vn::isConst(y,&c)) z=c<w?vn::shl(x,c,w):0; else z=vn::op2(vn::SHLV,x,y,w); break;
   case Instruction::LShr: if(vn::isConst(y,&c)) z=c<w?vn::shr(x,c,w,false):0; else z=vn::op2(vn::SHRV,x,y,w); break;
   case Instruction::AShr: if(vn::isConst(y,&c)) z=c<w?vn::shr(x,c,w,true):0; else z=vn::op2(vn::SARV,x,y,w); break;
   case Instruction::UDiv: if(vn::isConst(y,&c)&&c&&!(c&(c-1))) z=vn::shr(x,__builtin_ctzll(c),w,false); else z=vn::op2(vn::UDIV,x,y,w); break;
   case Instruction::URem: if(vn::isConst(y,&c)&&c&&!(c&(c-1))) z=vn::bitop('&',x,vn::cw(c-1,w),w); else z=vn::op2(vn::UREM,x,y,w); break; }
  if(z){ uint64_t kz=r.kz; auto v=vn::words[z]; bool ch=false; for(unsigned i=0;i<w;i++) if((kz>>i&1)&&v[i]){ v[i]=0; ch=true; } if(ch){ vn::W z2=vn::mkWord(v); auto it=vn::lfOf.find(z); if(it!=vn::lfOf.end()&&!vn::lfOf.count(z2)){ auto f=it->second; vn::lfOf.emplace(z2,f); } z=z2; }
    if(vn::isConst(z,&c)){ Dep d=r.dep; r=C(c,w); r.dep=d; } else r.vn=z; }
  return r; }

static int icmpV(unsigned pred,const Val&a,const Val&b,unsigned w){ // 0,1,-1
  if(a.obj==-3||b.obj==-3) return -1;
  if(a.obj||b.obj){
    if(pred!=ICmpInst::ICMP_EQ&&pred!=ICmpInst::ICMP_NE){ if(a.obj>0&&a.obj==b.obj){ int64_t al=a.lo,ah=a.hi,bl=b.lo,bh=b.hi; switch(pred){ case ICmpInst::ICMP_ULT: case ICmpInst::ICMP_SLT: if(ah<bl) return 1; if(al>=bh) return 0; return -1; case ICmpInst::ICMP_ULE: case ICmpInst::ICMP_SLE: if(ah<=bl) return 1; if(al>bh) return 0; return -1; case ICmpInst::ICMP_UGT: case ICmpInst::ICMP_SGT: if(al>bh) return 1; if(ah<=bl) return 0; return -1; default: if(al>=bh) return 1; if(ah<bl) return 0; return -1; } } return -1; }
    auto x=alts(a),y=alts(b); if(x.empty()||y.empty()) return -1; bool anyeq=false,alleq=true; for(auto&p:x)for(auto&q:y){ if(p.obj!=q.obj){ alleq=false; } else { if(p.lo<=q.hi&&q.lo<=p.hi) anyeq=true; if(!(p.lo==p.hi&&q.lo==q.hi&&p.lo==q.lo)) alleq=false; } }
    int r= alleq?1:(anyeq?-1:0); if(r<0) return -1; return pred==ICmpInst::ICMP_EQ?r:!r; }
  uint64_t al=a.lo,ah=a.hi,bl=b.lo,bh=b.hi;
  switch(pred){
   case ICmpInst::ICMP_EQ: case ICmpInst::ICMP_NE: { int r=-1; if(a.isC()&&b.isC()) r= al==bl; else if(ah<bl||bh<al) r=0; else if(a.isC()&&(al&b.kz)) r=0; else if(b.isC()&&(bl&a.kz)) r=0; if(r<0) return -1; return pred==ICmpInst::ICMP_EQ?r:!r; }
   case ICmpInst::ICMP_ULT: if(ah<bl) return 1; if(al>=bh) return 0; return -1;
   case ICmpInst::ICMP_ULE: if(ah<=bl) return 1; if(al>bh) return 0; return -1;
   case ICmpInst::ICMP_UGT: if(al>bh) return 1; if(ah<=bl) return 0; return -1;
   case ICmpInst::ICMP_UGE: if(al>=bh) return 1; if(ah<bl) return 0; return -1;
   default: { uint64_t sign=1ull<<(w-1); auto rng=[&](const Val&v,int64_t&l,int64_t&h){ auto sx=[&](uint64_t x){ return w>=64?(int64_t)x:((int64_t)(x<<(64-w))>>(64-w)); }; if((v.lo&sign)==(v.hi&sign)){ l=sx(v.lo);h=sx(v.hi);} else { l=sx(sign); h=sx(sign-1);} }; int64_t l1,h1,l2,h2; rng(a,l1,h1); rng(b,l2,h2);
     switch(pred){ case ICmpInst::ICMP_SLT: if(h1<l2) return 1; if(l1>=h2) return 0; return -1; case ICmpInst::ICMP_SLE: if(h1<=l2) return 1; if(l1>h2) return 0; return -1; case ICmpInst::ICMP_SGT: if(l1>h2) return 1; if(h1<=l2) return 0; return -1; case ICmpInst::ICMP_SGE: if(l1>=h2) return 1; if(h1<l2) return 0; return -1; } return -1; } } }

static Val castV0(unsigned op,const Val&a,unsigned sw,unsigned dw){
  if(a.obj==-3) return Top(dw,uninitDep());
  if(a.obj){ if(op==Instruction::PtrToInt||op==Instruction::IntToPtr||op==Instruction::BitCast){ Val v=a; v.w=dw; if(dw<64) return Top(dw,a.dep); return v; } return Top(dw,a.dep); }
  Val v=a; v.w=dw;
  switch(op){ case Instruction::ZExt: case Instruction::BitCast: case Instruction::PtrToInt: norm(v); return v;
   case Instruction::IntToPtr: if(v.isC()) return v; { Val u; u.obj=-2; u.dep=a.dep; return u; }
   case Instruction::Trunc: { uint64_t m=maskw(dw); if(a.isC()){ Val c=C(a.lo,dw); c.dep=a.dep; return c; } if((a.lo>>dw)==(a.hi>>dw)&&dw<64){ v.lo=a.lo&m; v.hi=a.hi&m; } else { v.lo=0; v.hi=m; } v.kz=a.kz|~m; norm(v); return v; }
   case Instruction::SExt: { uint64_t sign=1ull<<(sw-1); uint64_t ext=maskw(dw)&~maskw(sw); if(a.hi<sign) { norm(v); return v; } if(a.lo>=sign){ v.lo|=ext; v.hi|=ext; v.kz&=~ext; v.kz&=maskw(sw); if(v.isC()) { Val c=C(v.lo,dw); c.dep=a.dep; return c; } v.kz|=~maskw(dw); norm(v); return v; } Val t=Top(dw,a.dep); unsigned tz=__builtin_ctzll(~a.kz); t.kz|=(1ull<<tz)-1; return t; }
   default: return Top(dw,a.dep); } }

static Val castV(unsigned op,const Val&a,unsigned sw,unsigned dw){
  Val r=castV0(op,a,sw,dw); if(!vn::on||a.obj||r.obj||r.isC()) return r; vn::W x=wordOf(a,sw); r.vn=0; if(!x) return r;
  switch(op){ case Instruction::ZExt: r.vn=vn::zext(x,dw); break; case Instruction::SExt: r.vn=vn::sext(x,dw); break; case Instruction::Trunc: r.vn=vn::trunc_(x,dw); break; case Instruction::BitCast: case Instruction::PtrToInt: if(sw==dw) r.vn=x; break; default: break; }
  uint64_t c; if(r.vn&&vn::isConst(r.vn,&c)){ Dep d=r.dep; r=C(c,dw); r.dep=d; }
  return r; }
static vn::W icmpW(unsigned pred,const Val&a,const Val&b,unsigned w){ if(!vn::on||a.obj||b.obj) return 0; vn::W x=wordOf(a,w),y=wordOf(b,w); if(!x||!y) return 0; vn::B r;
  auto ult=[&](vn::Op o,vn::W p,vn::W q){ return vn::atomBit(vn::mkNode(o,1,0,{p,q}),0); };
  switch(pred){ case ICmpInst::ICMP_EQ: r=vn::eqz(vn::bitop('^',x,y,w)); break; case ICmpInst::ICMP_NE: r=vn::eqz(vn::bitop('^',x,y,w))^1; break;
   case ICmpInst::ICMP_ULT: r=ult(vn::ULT,x,y); break; case ICmpInst::ICMP_UGE: r=ult(vn::ULT,x,y)^1; break; case ICmpInst::ICMP_UGT: r=ult(vn::ULT,y,x); break; case ICmpInst::ICMP_ULE: r=ult(vn::ULT,y,x)^1; break;
   case ICmpInst::ICMP_SLT: r=ult(vn::SLT,x,y); break; case ICmpInst::ICMP_SGE: r=ult(vn::SLT,x,y)^1; break; case ICmpInst::ICMP_SGT: r=ult(vn::SLT,y,x); break; default: r=ult(vn::SLT,y,x)^1; break; }
  return vn::bits1(r); }

// ------------------------------------------------------------ function predecoding
struct DI { const Instruction*I; unsigned op; vector<int> ops; int slot; };
struct BI { const BasicBlock*B; vector<DI> ins; int idx; int ipdom=-1; size_t nphi=0; };
struct FI { const Function*F; vector<BI> bb; std::unordered_map<const BasicBlock*,int> bidx; vector<Val> pool; int nslots; std::unordered_map<const Value*,int> slot; bool harness; };
static std::unordered_map<const Function*,std::unique_ptr<FI>> fis;
static Val constVal(const Constant*c);
static uint64_t tsz(Type*t){ return DL->getTypeAllocSize(t); }
static unsigned twid(Type*t){ if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isPointerTy()) return 64; if(t->isDoubleTy()) return 64; if(t->isFloatTy()) return 32; return 64; }
static int addFnObj(const Function*F);
static Val constVal(const Constant*c){
  if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()>64) broken("wide integer constant"); return C(ci->getZExtValue(),ci->getBitWidth()); }
  if(isa<ConstantPointerNull>(c)) return C(0,64);
  if(isa<UndefValue>(c)){ Val v; v.obj=-3; v.w=twid(c->getType()); return v; }
  if(auto*f=dyn_cast<Function>(c)){ return P(addFnObj(f),0,0); }
  if(auto*g=dyn_cast<GlobalVariable>(c)){ auto it=gobj.find(g); if(it==gobj.end()){ Val v; v.obj=-2; return v; } return P(it->second,0,0); }
  if(auto*ga=dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
  if(auto*ce=dyn_cast<ConstantExpr>(c)){
    if(auto*gep=dyn_cast<GEPOperator>(ce)){ APInt off(64,0); if(gep->accumulateConstantOffset(*DL,off)){ Val b=constVal(cast<Constant>(gep->getPointerOperand())); if(b.obj>0){ b.lo+=off.getSExtValue(); b.hi=b.lo; } return b; } }
    if(ce->isCast()) return castV(ce->getOpcode(),constVal(ce->getOperand(0)),twid(ce->getOperand(0)->getType()),twid(ce->getType()));
    Val v; v.obj=-2; return v; }
  if(isa<ConstantFP>(c)) return Top(64);
  if(isa<ConstantAggregateZero>(c)||isa<ConstantStruct>(c)||isa<ConstantArray>(c)||isa<ConstantDataSequential>(c)){ vector<Val> el; unsigned n= c->getType()->isStructTy()?c->getType()->getStructNumElements(): c->getType()->isArrayTy()?c->getType()->getArrayNumElements():0; for(unsigned i=0;i<n;i++) el.push_back(constVal(c->getAggregateElement(i))); aggs.push_back(el); Val v; v.obj=-4; v.lo=aggs.size()-1; return v; }
  Val v; v.obj=-2; return v; }
static vector<OP>*objStore; // during init
static int addFnObj(const Function*F){ auto it=gobj.find(F); if(it!=gobj.end()) return it->second; broken("function object missing: "+F->getName().str()); }
static void initBytes(Obj&o,uint64_t off,const Constant*c){
  Type*t=c->getType();
  if(isa<UndefValue>(c)) { for(uint64_t i=0;i<tsz(t)&&off+i<o.size;i++){ o.b[off+i].fl|=F_INIT; } return; }
  if(isa<ConstantAggregateZero>(c)||c->isNullValue()){ for(uint64_t i=0;i<DL->getTypeStoreSize(t);i++) o.b[off+i].fl|=F_INIT; return; }
  if(t->isIntegerTy()||t->isPointerTy()){ Val v=constVal(c); storeAt(o,off,DL->getTypeStoreSize(t),v,false,false,0); return; }
  if(auto*ds=dyn_cast<ConstantDataSequential>(c)){ if(!ds->getElementType()->isIntegerTy()){ for(uint64_t i=0;i<tsz(t);i++){ o.b[off+i].fl|=F_INIT;o.b[off+i].hi=255;} return; } unsigned es=ds->getElementByteSize(); for(unsigned i=0;i<ds->getNumElements();i++) storeAt(o,off+(uint64_t)i*es,es,C(ds->getElementAsInteger(i),es*8),false,false,0); return; }
  if(auto*st=dyn_cast<StructType>(t)){ for(uint64_t i=0;i<tsz(t);i++) o.b[off+i].fl|=F_INIT; auto*sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) initBytes(o,off+sl->getElementOffset(i),c->getAggregateElement(i)); return; }
  if(auto*at=dyn_cast<ArrayType>(t)){ for(uint64_t i=0;i<at->getNumElements();i++) initBytes(o,off+i*tsz(at->getElementType()),c->getAggregateElement((unsigned)i)); return; }
  for(uint64_t i=0;i<tsz(t);i++){ o.b[off+i].fl|=F_INIT; o.b[off+i].hi=255; } }

static FI* getFI(const Function*F){
  auto&p=fis[F]; if(p) return p.get(); p.reset(new FI); FI*fi=p.get(); fi->F=F; fi->harness=isHarnessFn(F); int n=0;
  for(auto&a:F->args()) fi->slot[&a]=n++;
  for(auto&B:*F) for(auto&I:B) if(!I.getType()->isVoidTy()) fi->slot[&I]=n++;
  fi->nslots=n;
  std::unordered_map<const Value*,int> cp;
  for(auto&B:*F){ BI b; b.B=&B; b.idx=fi->bb.size(); fi->bidx[&B]=b.idx; for(auto&I:B){ DI d; d.I=&I; d.op=I.getOpcode(); auto s=fi->slot.find(&I); d.slot=s==fi->slot.end()?-1:s->second; if(isa<DbgInfoIntrinsic>(&I)) continue;
      for(auto&U:I.operands()){ const Value*v=U.get(); auto it=fi->slot.find(v); if(it!=fi->slot.end()) d.ops.push_back(it->second); else if(auto*c=dyn_cast<Constant>(v)){ auto q=cp.find(v); int k; if(q!=cp.end()) k=q->second; else { k=fi->pool.size(); fi->pool.push_back(constVal(c)); cp[v]=k; } d.ops.push_back(-1-k); } else d.ops.push_back(INT32_MIN); }
      if(isa<PHINode>(I)) b.nphi++; b.ins.push_back(std::move(d)); } fi->bb.push_back(std::move(b)); }
  // post-dominators ignoring blocks that end in unreachable
  int N=fi->bb.size(); vector<vector<int>> succ(N); vector<bool> dead(N,false), exitb(N,false);
  for(int i=0;i<N;i++){ auto*t=fi->bb[i].B->getTerminator(); if(isa<UnreachableInst>(t)) dead[i]=true; else if(isa<ReturnInst>(t)) exitb[i]=true; for(auto*s:successors(fi->bb[i].B)) succ[i].push_back(fi->bidx[s]); }
  // blocks all of whose successors are dead are dead
  bool ch=true; while(ch){ ch=false; for(int i=0;i<N;i++) if(!dead[i]&&!exitb[i]){ bool all=true; for(int s:succ[i]) if(!dead[s]) all=false; if(all){dead[i]=true;ch=true;} } }
  vector<vector<bool>> pd(N+1,vector<bool>(N+1,true)); // pd[i][j]: j postdominates i ; N = virtual exit
  for(int j=0;j<=N;j++) pd[N][j]=(j==N);
  ch=true; while(ch){ ch=false; for(int i=N-1;i>=0;i--){ if(dead[i]) continue; vector<bool> r(N+1,true); bool any=false; auto meet=[&](int s){ any=true; for(int j=0;j<=N;j++) r[j]=r[j]&&pd[s][j]; }; if(exitb[i]) meet(N); for(int s:succ[i]) if(!dead[s]) meet(s); if(!any) continue; r[i]=true; if(r!=pd[i]){ pd[i]=r; ch=true; } } }
  for(int i=0;i<N;i++){ if(dead[i]) continue; // ipdom = strict pdom that is postdominated by all other strict pdoms
    int best=-1; int bestc=-1; for(int j=0;j<N;j++) if(j!=i&&pd[i][j]){ int c=0; for(int k=0;k<=N;k++) if(pd[j][k]) c++; if(c>bestc){bestc=c;best=j;} } fi->bb[i].ipdom=best; }
  return fi; }

// ------------------------------------------------------------ execution
struct Frame { FI*fi; vector<Val> env; vector<int> allocas; map<const Instruction*,int> active; map<const Instruction*,std::pair<vector<Val>,State>> acc; const Instruction*callsite; };
struct Out { bool reach=false; vector<Val> env; State rs; bool ret=false; Val rv; State ts; };
static Val callFn(const Function*F,vector<Val>&args,const Instruction*site);
static int depth=0; static int failAt=-1, mallocCount=0, failedCount=0; static uint64_t budget=0;
static vector<const Function*> hookFns; static bool vnAllowed=false;

static void joinState(State&a,State&b,Dep extra){ // a := a join b
  if(b.bot) return; if(a.bot){ a=b; return; }
  size_t n=std::max(a.size(),b.size()); 
  for(size_t i=0;i<n;i++){
    if((i&63)==0&&i+64<=a.size()&&i+64<=b.size()&&a.c[i>>6]==b.c[i>>6]){ i+=63; continue; }
    if(i>=a.size()){ a.push(b.get(i)); continue; }
    if(i>=b.size()) continue;
    if(a.get(i)==b.get(i)) continue; 
    const Obj&x=*a.get(i),&y=*b.get(i); if(x.site!=y.site||x.size!=y.size||x.kind!=y.kind){ // objects allocated differently on the two sides: keep a's, mark
      if(!x.alive) { a.mut(i)=b.get(i); continue; } if(!y.alive) continue; event("join_objs",nullptr,"allocation differs between merged paths: "+x.name+" / "+y.name); continue; }
    auto c=std::make_shared<Obj>(x); if(x.alive!=y.alive){ c->maydead=true; c->alive=true; } c->maydead=c->maydead||y.maydead;
    const Obj&src=y; bool useY=!x.alive; (void)useY;
    for(size_t k=0;k<x.size;k++){ Byte&p=c->b[k]; const Byte&q=src.b[k]; if(p.lo==q.lo&&p.hi==q.hi&&p.fl==q.fl&&p.dep==q.dep&&p.pf==q.pf&&(p.vn==q.vn||p.lo==p.hi)) continue; if(vn::on){ vn::W x=byteW(p); p.vn= x&&x==byteW(q)?x:0; }
      bool same=p.lo==q.lo&&p.hi==q.hi&&p.lo==p.hi; uint8_t fl=p.fl; Dep d=D.join(p.dep,q.dep); if(!same) d=D.join(d,extra); bool i1=p.fl&F_INIT,i2=q.fl&F_INIT; if(i1!=i2){ d=D.join(d,uninitDep()); p.lo=0;p.hi=255; } else if(i1){ p.lo=std::min(p.lo,q.lo); p.hi=std::max(p.hi,q.hi);} 
      p.dep=d; p.fl=((i1||i2)?F_INIT:0)|((p.fl&q.fl)&F_VOL)|((fl|q.fl)&(F_SEC|F_WR)); if(p.pf!=q.pf) p.pf=0; }
    for(auto it=c->cells.begin();it!=c->cells.end();){ auto jt=src.cells.find(it->first); if(jt==src.cells.end()){ for(int z=0;z<8;z++){ c->b[it->first+z].pf=0; c->b[it->first+z].lo=0; c->b[it->first+z].hi=255; }
          // join of pointer with null integer
          bool allz=true; for(int z=0;z<8;z++){ const Byte&q=src.b[it->first+z]; if(!(q.fl&F_INIT)||q.lo||q.hi) allz=false; }
          if(allz){ Val nul=C(0,64); it->second=joinV(it->second,nul,extra); for(int z=0;z<8;z++) c->b[it->first+z].pf=z+1; ++it; continue; }
          it=c->cells.erase(it); } else { it->second=joinV(it->second,jt->second,extra); for(int z=0;z<8;z++) c->b[it->first+z].pf=z+1; ++it; } }
    for(auto&kv:src.cells) if(!x.cells.count(kv.first)){ bool allz=true; for(int z=0;z<8;z++){ const Byte&q=x.b[kv.first+z]; if(!(q.fl&F_INIT)||q.lo||q.hi||q.pf) allz=false; } if(allz){ Val nul=C(0,64); c->cells[kv.first]=joinV(kv.second,nul,extra); for(int z=0;z<8;z++) c->b[kv.first+z].pf=z+1; } }
    a.mut(i)=c; } }
static bool leqState(const State&n,const State&o){ if(n.size()>o.size()) return false; for(size_t i=0;i<n.size();i++){ if(n.get(i)==o.get(i)) continue; const Obj&x=*n.get(i),&y=*o.get(i); if(x.site!=y.site||x.size!=y.size) return false; if(x.alive!=y.alive&&!y.maydead) return false; for(size_t k=0;k<x.size;k++){ const Byte&p=x.b[k],&q=y.b[k]; if(p.lo<q.lo||p.hi>q.hi||D.join(p.dep,q.dep)!=q.dep||((p.fl^q.fl)&F_INIT)||p.pf!=q.pf) return false; if(vn::on&&p.vn!=q.vn&&q.vn&&q.lo!=q.hi) return false; } if(x.cells.size()!=y.cells.size()) return false; for(auto&kv:x.cells){ auto it=y.cells.find(kv.first); if(it==y.cells.end()||!sameV(it->second,joinV(it->second,kv.second,0))) return false; } } return true; }
static void widenState(const State&o,State&n){ for(size_t i=0;i<n.size()&&i<o.size();i++){ if(n.get(i)==o.get(i)) continue; auto c=std::make_shared<Obj>(*n.get(i)); const Obj&y=*o.get(i); if(y.size==c->size) for(size_t k=0;k<c->size;k++){ if(c->b[k].lo<y.b[k].lo) c->b[k].lo=0; if(c->b[k].hi>y.b[k].hi) c->b[k].hi=255; } for(auto&kv:c->cells){ auto it=y.cells.find(kv.first); if(it!=y.cells.end()) kv.second=widenV(it->second,kv.second); } n.mut(i)=c; } }

static inline const Val&opv(Frame&fr,int o){ static Val undef; if(o>=0) return fr.env[o]; if(o==INT32_MIN){ undef.obj=-2; return undef; } return fr.fi->pool[-1-o]; }

static void evalPhis(Frame&fr,int b,const BasicBlock*from,Dep extra){ BI&B=fr.fi->bb[b]; vector<std::pair<int,Val>> t; for(size_t i=0;i<B.nphi;i++){ auto&d=B.ins[i]; auto*ph=cast<PHINode>(d.I); int k=ph->getBasicBlockIndex(from); if(k<0) broken("phi"); Val v=opv(fr,d.ops[k]); t.push_back({d.slot,v}); st.insts++; } for(auto&p:t) fr.env[p.first]=p.second; }

static void refine(Frame&fr,const Value*cond,bool taken){
  // refine SSA value of an integer/pointer comparison against a constant
  auto*ic=dyn_cast<ICmpInst>(cond); if(!ic) { if(auto*bo=dyn_cast<BinaryOperator>(cond)){ if(bo->getOpcode()==Instruction::Xor) if(auto*c=dyn_cast<ConstantInt>(bo->getOperand(1))) if(c->isOne()) refine(fr,bo->getOperand(0),!taken); } return; }
  for(int side=0;side<2;side++){ const Value*x=ic->getOperand(side); const Value*y=ic->getOperand(1-side); auto it=fr.fi->slot.find(x); if(it==fr.fi->slot.end()) continue; Val yv; auto jt=fr.fi->slot.find(y); if(jt!=fr.fi->slot.end()) yv=fr.env[jt->second]; else if(auto*c=dyn_cast<Constant>(y)) yv=constVal(c); else continue; auto pred= side==0?ic->getPredicate():ic->getSwappedPredicate(); if(!taken) pred=CmpInst::getInversePredicate(pred);
    Val&v=fr.env[it->second];
    if(v.obj==-1&&yv.obj==0&&yv.isC()&&yv.lo==0&&(pred==ICmpInst::ICMP_EQ||pred==ICmpInst::ICMP_NE)){ vector<Alt> o; for(auto&a:alts(v)) if((a.obj==0)==(pred==ICmpInst::ICMP_EQ)) o.push_back(a); if(!o.empty()) v=fromAlts(o,v.dep); continue; }
    if(v.obj||yv.obj) continue; uint64_t m=maskw(v.w);
    switch(pred){ case ICmpInst::ICMP_EQ: if(yv.isC()){ Dep d=v.dep; v=C(yv.lo,v.w); v.dep=d; } break; case ICmpInst::ICMP_NE: if(yv.isC()){ if(v.lo==yv.lo&&v.lo<v.hi) v.lo++; if(v.hi==yv.lo&&v.hi>v.lo) v.hi--; } break;
     case ICmpInst::ICMP_ULT: if(yv.hi>0&&v.hi>yv.hi-1&&v.lo<=yv.hi-1) v.hi=yv.hi-1; break; case ICmpInst::ICMP_ULE: if(v.hi>yv.hi&&v.lo<=yv.hi) v.hi=yv.hi; break; case ICmpInst::ICMP_UGT: if(yv.lo<m&&v.lo<yv.lo+1&&v.hi>=yv.lo+1) v.lo=yv.lo+1; break; case ICmpInst::ICMP_UGE: if(v.lo<yv.lo&&v.hi>=yv.lo) v.lo=yv.lo; break; default: break; }
    norm(v);
    // propagate to the source of a zext / trunc-free copy and to memory-loaded origin
    if(auto*z=dyn_cast<ZExtInst>(x)){ auto kt=fr.fi->slot.find(z->getOperand(0)); if(kt!=fr.fi->slot.end()){ Val&s=fr.env[kt->second]; if(!s.obj){ uint64_t sm=maskw(s.w); if(v.lo<=sm){ s.lo=std::max(s.lo,v.lo); s.hi=std::min(s.hi,std::min(v.hi,sm)); if(s.lo>s.hi) s.lo=s.hi; norm(s);} } } x=z->getOperand(0); }
    if(auto*ld=dyn_cast<LoadInst>(x)){ // refine memory when nothing was written in between (same block, no stores/calls after)
      bool clean=true; const Instruction*n=ld->getNextNode(); const Instruction*end=ic; if(ld->getParent()!=ic->getParent()) clean=false; for(;clean&&n&&n!=end;n=n->getNextNode()) if(isa<StoreInst>(n)||(isa<CallBase>(n)&&!isa<DbgInfoIntrinsic>(n))) clean=false; for(n=ic->getNextNode();clean&&n;n=n->getNextNode()) if(isa<StoreInst>(n)||(isa<CallBase>(n)&&!isa<DbgInfoIntrinsic>(n))) clean=false;
      if(clean&&!ld->isVolatile()){ auto pt=fr.fi->slot.find(ld->getPointerOperand()); auto xs=fr.fi->slot.find(ld); if(pt!=fr.fi->slot.end()&&xs!=fr.fi->slot.end()){ Val&p=fr.env[pt->second]; Val&nv=fr.env[xs->second]; if(p.obj>0&&p.lo==p.hi&&rd(p.obj).alive&&!rd(p.obj).cst&&nv.obj==0){ Obj&o=wr(p.obj); unsigned sz=(nv.w+7)/8; if((int64_t)p.lo>=0&&p.lo+sz<=o.size){ bool sec=false; (void)sec; for(unsigned i=0;i<sz;i++) if(o.b[p.lo+i].pf||!(o.b[p.lo+i].fl&F_INIT)) clean=false; if(clean){ vector<uint8_t> fl(sz); vector<Dep> dp(sz); for(unsigned i=0;i<sz;i++){ fl[i]=o.b[p.lo+i].fl; dp[i]=o.b[p.lo+i].dep; } storeAt(o,p.lo,sz,nv,false,false,0); for(unsigned i=0;i<sz;i++){ o.b[p.lo+i].fl=fl[i]; o.b[p.lo+i].dep=dp[i]; } } } } } } }
  } }

static Out exec(Frame&fr,int b,const BasicBlock*prev,int stop);

static Out branchBoth(Frame&fr,int curb,const Instruction*T,vector<std::pair<const BasicBlock*,std::function<void()>>> sides,Dep cd,int stop){
  st.undecided++;
  const BasicBlock*cur=fr.fi->bb[curb].B; int ipd=fr.fi->bb[curb].ipdom; int st2= ipd>=0?ipd:stop;
  // fixpoint handling
  int act=fr.active[T];
  if(act>0){ auto&ac=fr.acc[T]; // ac: the state most recently analysed at this branch
    bool leq=leqState(*S,ac.second); if(leq) for(size_t i=0;i<fr.env.size();i++){ if(fr.env[i].obj==-3) continue; Val j=joinV(ac.first[i],fr.env[i],0); if(!sameV(j,ac.first[i])){ leq=false; break; } }
    if(leq){ st.fixpoints++; return Out(); }
    bool progress=false; if(act<300) for(size_t i=0;i<fr.env.size()&&!progress;i++){ const Val&x=ac.first[i],&y=fr.env[i]; if(x.obj==0&&y.obj==0&&x.isC()&&y.isC()&&x.lo!=y.lo) progress=true; }
    if(act>600) broken("fixpoint does not converge in "+fr.fi->F->getName().str());
    if(act>=3&&!progress){ State ns=ac.second; joinState(ns,*S,cd); vector<Val> ne=ac.first; for(size_t i=0;i<ne.size();i++) ne[i]=joinV(ne[i],fr.env[i],cd);
      if(act>=4){ widenState(ac.second,ns); for(size_t i=0;i<ne.size();i++) if(ac.first[i].obj!=-3) ne[i]=widenV(ac.first[i],ne[i]); }
      *S=ns; fr.env=ne; }
  }
  auto savedAcc=act>0?fr.acc[T]:std::pair<vector<Val>,State>(); fr.acc[T]={fr.env,*S};
  fr.active[T]++;
  State s0=*S; vector<Val> e0=fr.env; Out tot; bool first=true; Out res;
  bool haveReach=false; 
  for(auto&sd:sides){ *S=s0; fr.env=e0; sd.second(); int nb=fr.fi->bidx[sd.first]; Out o;
    if(nb==st2){ evalPhis(fr,nb,cur,cd); o.reach=true; o.env=fr.env; o.rs=*S; } else o=exec(fr,nb,cur,st2);
    if(o.reach){ if(!haveReach){ tot.reach=true; tot.env=std::move(o.env); tot.rs=std::move(o.rs); haveReach=true; } else { // join; phis of stop block get extra
        BI&SB=fr.fi->bb[st2]; set<int> ph; for(size_t i=0;i<SB.nphi;i++) ph.insert(SB.ins[i].slot);
        for(size_t i=0;i<tot.env.size();i++) tot.env[i]=joinV(tot.env[i],o.env[i],cd,ph.count(i)>0);
        joinState(tot.rs,o.rs,cd); } }
    if(o.ret){ if(!tot.ret){ tot.ret=true; tot.rv=o.rv; tot.ts=std::move(o.ts);} else { tot.rv=joinV(tot.rv,o.rv,cd,true); joinState(tot.ts,o.ts,cd);} }
    first=false; }
  fr.active[T]--; if(!fr.active[T]) fr.acc.erase(T); else fr.acc[T]=std::move(savedAcc);
  if(st2!=stop&&tot.reach){ fr.env=tot.env; *S=tot.rs; // continue after ipdom
    Out c=exec(fr,st2,nullptr,stop); // phis done
    if(tot.ret){ if(!c.ret){ c.ret=true; c.rv=tot.rv; c.ts=tot.ts; } else { c.rv=joinV(c.rv,tot.rv,cd,true); joinState(c.ts,tot.ts,cd);} }
    return c; }
  return tot; }

static Val doCall(Frame&fr,const DI&d);
static Out exec(Frame&fr,int b,const BasicBlock*prev,int stop){
  // prev==nullptr: phis of b already evaluated
  for(;;){
    BI&B=fr.fi->bb[b]; if(!fr.fi->harness) seenBB.insert(B.B); 
    if(prev) evalPhis(fr,b,prev,0);
    if(prev&&b==stop){ Out o; o.reach=true; o.env=fr.env; o.rs=*S; return o; }
    bool moved=false;
    for(size_t k=B.nphi;k<B.ins.size();k++){ DI&d=B.ins[k]; st.insts++; if(++budget>4000000000ull) broken("instruction budget exhausted"); callstk.back().at=d.I;
      const Instruction*I=d.I;
      switch(d.op){
       case Instruction::Alloca: { auto*ai=cast<AllocaInst>(I); const Val&n=opv(fr,d.ops[0]); uint64_t es=tsz(ai->getAllocatedType()); if(!n.isC()){ event("vla",I,"variable-length array with unbounded size"); fr.env[d.slot]=P(newObj(OK_STACK,es*(n.hi>65536?65536:n.hi),ai->getName().str(),I),0,0); } else { if(n.lo==0&&ai->isArrayAllocation()) event("vla0",I,"variable-length array of size 0"); fr.env[d.slot]=P(newObj(OK_STACK,es*n.lo,ai->getName().str(),I),0,0); }
         fr.allocas.push_back(fr.env[d.slot].obj); break; }
       case Instruction::Load: { auto*l=cast<LoadInst>(I); Type*t=l->getType(); if(t->isAggregateType()) broken("aggregate load"); unsigned w=twid(t); fr.env[d.slot]=load(opv(fr,d.ops[0]),DL->getTypeStoreSize(t),w,I,l->getAlign().value()); if(l->isVolatile()&&false){} if(t->isIntegerTy(1)) { } break; }
       case Instruction::Store: { auto*s=cast<StoreInst>(I); Type*t=s->getValueOperand()->getType(); if(t->isAggregateType()) broken("aggregate store"); store(opv(fr,d.ops[1]),DL->getTypeStoreSize(t),opv(fr,d.ops[0]),I,s->isVolatile(),s->getAlign().value()); break; }
       case Instruction::GetElementPtr: { Val base=opv(fr,d.ops[0]); uint64_t cst=0; Val off=C(0,64); auto*g=cast<GetElementPtrInst>(I); if(!marks.empty()&&base.obj>=NB&&!base.lo&&!base.hi) if(auto*stt=dyn_cast<StructType>(g->getSourceElementType())) marks[base.obj].ty=stt; unsigned oi=1; for(auto gt=gep_type_begin(g),ge=gep_type_end(g);gt!=ge;++gt,++oi){ if(auto*stt=gt.getStructTypeOrNull()){ unsigned f=cast<ConstantInt>(gt.getOperand())->getZExtValue(); cst+=DL->getStructLayout(stt)->getElementOffset(f); } else { uint64_t es=DL->getTypeAllocSize(gt.getIndexedType()); Val x=opv(fr,d.ops[oi]); if(x.obj) { Val t=Top(64,x.dep); x=t; } if(x.w<64) x=castV(Instruction::SExt,x,x.w,64); if(x.isC()){ cst+=x.lo*es; off.dep=D.join(off.dep,x.dep); } else { Val m=binop(Instruction::Mul,x,C(es,64),64,I); off=binop(Instruction::Add,off,m,64,I); } } }
         if(base.obj==-3){ Val u; u.obj=-2; u.dep=uninitDep(); fr.env[d.slot]=u; break; }
         if(base.obj==-2){ base.dep=D.join(base.dep,off.dep); fr.env[d.slot]=base; break; }
         if(base.obj==0){ if(base.isC()&&base.lo==0){ if(cst||!off.isC()){ // null + offset: stays null-ish
               fr.env[d.slot]=base; } else fr.env[d.slot]=base; } else { Val u; u.obj=-2; u.dep=base.dep; fr.env[d.slot]=u; } break; }
         auto app=[&](int64_t lo,int64_t hi,int64_t&nl,int64_t&nh){ uint64_t ol=off.lo,oh=off.hi; if((int64_t)ol>(int64_t)oh){ nl=-(1ll<<40); nh=1ll<<40; } else { nl=lo+(int64_t)cst+(int64_t)ol; nh=hi+(int64_t)cst+(int64_t)oh; } };
         if(base.obj>0){ int64_t nl,nh; app(base.lo,base.hi,nl,nh); Val v=P(base.obj,nl,nh,D.join(base.dep,off.dep)); if(nl!=nh){ auto tz=[&](uint64_t x){ return x?__builtin_ctzll(x):63; }; unsigned t1= base.lo==base.hi? tz(base.lo) : (base.kz==~0ull?63:__builtin_ctzll(~base.kz)); unsigned t2=off.isC()?tz(off.lo):__builtin_ctzll(~off.kz); unsigned t=std::min(std::min(t1,t2),(unsigned)tz(cst)); v.kz=(1ull<<t)-1; if(vn::on){ vn::W bo= base.lo==base.hi?vn::cw(base.lo,64):base.vn, oo=wordOf(off,64); if(bo&&oo) v.vn=vn::add(vn::add(bo,vn::cw(cst,64),64,false),oo,64,false); } } fr.env[d.slot]=v; }
         else { vector<Alt> o; for(auto a:alts(base)){ if(a.obj==0){o.push_back(a);continue;} int64_t nl,nh; app(a.lo,a.hi,nl,nh); o.push_back({a.obj,nl,nh}); } fr.env[d.slot]=fromAlts(o,D.join(base.dep,off.dep)); }
         break; }
       case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
         unsigned w=twid(I->getType()); if(w>64) broken("wide integer"); Val a=opv(fr,d.ops[0]),bb=opv(fr,d.ops[1]); 
         if(I->getOperand(0)==I->getOperand(1)&&!a.obj&&(d.op==Instruction::Xor||d.op==Instruction::Sub)){ fr.env[d.slot]=C(0,w); break; }
         if(a.obj==-3) a=Top(w,uninitDep()); if(bb.obj==-3) bb=Top(w,uninitDep()); fr.env[d.slot]=binop(d.op,a,bb,w,I); break; }
       case Instruction::ICmp: { auto*ic=cast<ICmpInst>(I); const Val&a=opv(fr,d.ops[0]),&c=opv(fr,d.ops[1]); unsigned w=twid(ic->getOperand(0)->getType()); int r=icmpV(ic->getPredicate(),a,c,w); Dep dd=D.join(a.dep,c.dep); if(a.obj==-3||c.obj==-3) dd=D.join(dd,uninitDep()); Val v= r<0?R(0,1,1,dd):C(r,1); v.dep=dd; if(vn::on&&r<0){ v.vn=icmpW(ic->getPredicate(),a,c,w); uint64_t k; if(v.vn&&vn::isConst(v.vn,&k)){ v=C(k,1); v.dep=dd; } } fr.env[d.slot]=v; break; }
       case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: fr.env[d.slot]=castV(d.op,opv(fr,d.ops[0]),twid(I->getOperand(0)->getType()),twid(I->getType())); break;
       case Instruction::Select: { const Val&c=opv(fr,d.ops[0]); if(c.isC()){ Val v=c.lo?opv(fr,d.ops[1]):opv(fr,d.ops[2]); v.dep=D.join(v.dep,c.dep); fr.env[d.slot]=v; } else { Val v=joinV(opv(fr,d.ops[1]),opv(fr,d.ops[2]),c.dep,true); v.dep=D.join(v.dep,c.dep); if(vn::on&&v.obj==0&&!v.isC()){ const Val&p=opv(fr,d.ops[1]),&q=opv(fr,d.ops[2]); vn::W cwd=wordOf(c,1); v.vn= cwd&&p.obj==0&&q.obj==0?vn::sel(vn::words[cwd][0],wordOf(p,v.w),wordOf(q,v.w)):0; } fr.env[d.slot]=v; } break; }
       case Instruction::Freeze: fr.env[d.slot]=opv(fr,d.ops[0]); break;
       case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FNeg: case Instruction::FCmp: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc: { Dep dd=0; for(int o:d.ops){ const Val&v=opv(fr,o); if(v.obj==-3) dd=D.join(dd,uninitDep()); dd=D.join(dd,v.dep);} fr.env[d.slot]=Top(twid(I->getType()),dd); break; }
       case Instruction::ExtractValue: { auto*ev=cast<ExtractValueInst>(I); Val a=opv(fr,d.ops[0]); for(unsigned ix:ev->indices()){ if(a.obj!=-4){ a=Top(twid(I->getType())); a.obj=-3; break;} Val t=aggs[a.lo][ix]; a=t; } fr.env[d.slot]=a; break; }
       case Instruction::InsertValue: { auto*iv=cast<InsertValueInst>(I); if(iv->getNumIndices()!=1) broken("nested insertvalue"); Val a=opv(fr,d.ops[0]); vector<Val> el; if(a.obj==-4) el=aggs[a.lo]; else { unsigned n=I->getType()->isStructTy()?I->getType()->getStructNumElements():I->getType()->getArrayNumElements(); Val u; u.obj=-3; el.assign(n,u); } el[iv->getIndices()[0]]=opv(fr,d.ops[1]); aggs.push_back(el); Val v; v.obj=-4; v.lo=aggs.size()-1; fr.env[d.slot]=v; break; }
       case Instruction::Call: { Val r=doCall(fr,d); if(S->bot){ return Out(); } if(d.slot>=0) fr.env[d.slot]=r; break; }
       case Instruction::Ret: { Out o; o.ret=true; if(d.ops.size()) o.rv=opv(fr,d.ops[0]); o.ts=*S; st.returns++; return o; }
       case Instruction::Unreachable: return Out();
       case Instruction::Br: { auto*br=cast<BranchInst>(I); st.branches++; if(br->isUnconditional()){ prev=B.B; b=fr.fi->bidx[br->getSuccessor(0)]; moved=true; break; }
         const Val&c=opv(fr,d.ops[0]); 
         if(!fr.fi->harness){ if(D.has(c.dep,0)) event("uninit",I,"branch depends on uninitialised memory"); else if(c.obj==-3) event("uninit",I,"branch depends on an uninitialised variable"); }
         if(c.isC()){ prev=B.B; b=fr.fi->bidx[br->getSuccessor(c.lo?0:1)]; moved=true; break; }
         if(!fr.fi->harness&&secretDep(c.dep)) event("secret_branch",I,"branch depends on "+D.str(c.dep));
         const Value*cv=br->getCondition(); vector<std::pair<const BasicBlock*,std::function<void()>>> sd; sd.push_back({br->getSuccessor(0),[&fr,cv]{refine(fr,cv,true);}}); sd.push_back({br->getSuccessor(1),[&fr,cv]{refine(fr,cv,false);}});
         return branchBoth(fr,b,I,sd,c.dep,stop); }
       case Instruction::Switch: { auto*sw=cast<SwitchInst>(I); st.branches++; const Val&c=opv(fr,d.ops[0]); if(D.has(c.dep,0)&&!fr.fi->harness) event("uninit",I,"switch depends on uninitialised memory"); if(c.isC()){ auto*ci=ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()),c.lo); prev=B.B; b=fr.fi->bidx[sw->findCaseValue(ci)->getCaseSuccessor()]; moved=true; break; }
         if(!fr.fi->harness&&secretDep(c.dep)) event("secret_branch",I,"switch depends on "+D.str(c.dep));
         vector<std::pair<const BasicBlock*,std::function<void()>>> sd; set<const BasicBlock*> seen; for(auto cs:sw->cases()){ uint64_t cv=cs.getCaseValue()->getZExtValue(); if(cv<c.lo||cv>c.hi) continue; if(seen.insert(cs.getCaseSuccessor()).second) sd.push_back({cs.getCaseSuccessor(),[]{}}); } if(seen.insert(sw->getDefaultDest()).second) sd.push_back({sw->getDefaultDest(),[]{}});
         return branchBoth(fr,b,I,sd,c.dep,stop); }
       default: broken(string("unsupported instruction ")+I->getOpcodeName()+" in "+fr.fi->F->getName().str()); }
      if(moved) break; }
    if(!moved) broken("fell off block"); } }

static bool isSecretByte(const Byte&b){ return (b.fl&F_INIT)&&secretDep(b.dep); }
static int residueMode=1;
static void checkResidue(int id,const Instruction*at,bool heap){ Obj&o=rd(id); if(!heap) if(auto*ai=dyn_cast_or_null<AllocaInst>(o.site)) if(!ai->isArrayAllocation()&&!ai->getAllocatedType()->isAggregateType()) return; int first=-1,n=0; Dep d=0; int ef=-1,en=0; for(size_t i=0;i<o.b.size();i++){ Byte&b=o.b[i]; if(isSecretByte(b)){ if(first<0) first=i; n++; d=D.join(d,b.dep);} else if((b.fl&F_SEC)&&!(b.fl&F_VOL)){ if(ef<0) ef=i; en++; } }
  string w=heap?"unwiped_free":"unwiped_stack"; 
  string vn=o.name; if(!heap&&o.site&&vn.empty()) vn="(array)"; 
  if(n) event(w,at,string(heap?"freed while ":"function returns while ")+"'"+vn+"' still holds "+(heap?"":"")+"secret-derived data ("+(heap? "object of "+std::to_string(o.size)+" bytes, first at offset "+std::to_string(first):"local array")+")");
  if(en&&!n) event("elidable_wipe",at,string("the last clearing of '")+vn+"' before "+(heap?"free":"return")+" is a plain store the compiler may drop (first at offset "+std::to_string(ef)+")"); }

static Val callFn(const Function*F,vector<Val>&args,const Instruction*site){
  FI*fi=getFI(F); if(!fi->harness) seenFn.insert(F); if(++depth>200) broken("recursion in "+F->getName().str());
  Frame fr; fr.fi=fi; Val und; und.obj=-3; fr.env.assign(fi->nslots,und); unsigned n=0; for(auto&a:F->args()){ (void)a; if(n<args.size()) fr.env[n]=args[n]; n++; }
  callstk.push_back({F,nullptr}); st.calls++;
  Out o=exec(fr,0,nullptr,-1);
  Val rv; rv.obj=-3;
  if(!o.ret){ S->bot=true; } else { *S=o.ts; rv=o.rv;
    const Instruction*at=callstk.back().at; 
    for(int a:fr.allocas){ if(a-NB>=(int)S->size()) continue; if(!fi->harness) checkResidue(a,&*F->back().getTerminator(),false); Obj&ob=wr(a); ob.alive=false; ob.b.clear(); ob.b.shrink_to_fit(); ob.cells.clear(); ob.size=0; }
    (void)at; }
  callstk.pop_back(); depth--; return rv; }

static void memSet(const Val&p,const Val&c,const Val&n,const Instruction*I,bool vol){
  if(n.isC()){ if(n.lo==0) return; if(n.lo>(1ull<<32)){ event("oob_write",I,"memset of "+std::to_string(n.lo)+" bytes"); return; } auto as=resolveP(p,n.lo,I,true,1); st.stores++; for(auto&a:as){ if(rd(a.obj).cst) continue; Obj&o=wr(a.obj); bool weak=as.size()>1||a.lo!=a.hi; for(int64_t f=a.lo;f<=a.hi;f++) noteStoreBytes(a.obj,f,f,n.lo); int64_t end=std::min<int64_t>(a.hi+n.lo,o.size); for(int64_t k=a.lo;k<end;){ killCells(o,k,1); Val v=c; v.w=8; storeAt(o,k,1,v,vol,weak,D.join(p.dep,n.dep)); k++; } } }
  else { auto as=resolveP(p,n.hi>(1u<<20)?(1u<<20):n.hi,I,true,1); for(auto&a:as){ if(rd(a.obj).cst) continue; Obj&o=wr(a.obj); int64_t end=std::min<int64_t>(a.hi+n.hi,o.size); for(int64_t k=a.lo;k<end;k++) storeAt(o,k,1,c,vol,(uint64_t)(k-a.lo)>=n.lo||as.size()>1||a.lo!=a.hi,D.join(p.dep,n.dep)); } } }
static void memCpy(const Val&dst,const Val&src,const Val&n,const Instruction*I,bool move){
  uint64_t len=n.hi; bool weakTail=!n.isC(); if(len==0) return; if(len>(1u<<22)){ event("oob_write",I,"copy of up to "+std::to_string(len)+" bytes"); return; }
  auto ss=resolveP(src,len,I,false,1); auto ds=resolveP(dst,len,I,true,1); if(ss.empty()||ds.empty()) return; st.loads++; st.stores++;
  if(!move&&ss.size()==1&&ds.size()==1&&ss[0].obj==ds[0].obj&&ss[0].lo==ss[0].hi&&ds[0].lo==ds[0].hi){ int64_t a=ss[0].lo,b=ds[0].lo; if(a!=b&&std::llabs(a-b)<(int64_t)len) event("overlap",I,"memcpy between overlapping ranges"); }
  // gather
  vector<Byte> tmp(len); map<uint64_t,Val> cells; bool firstS=true; for(auto&a:ss){ Obj&o=rd(a.obj); noteLoadBytes(a.obj,a.lo,a.hi,len,I); for(int64_t f=a.lo;f<=a.hi;f++){ for(uint64_t k=0;k<len;k++){ if(f+k>=o.size) break; Byte q=o.b[f+k]; if(firstS) tmp[k]=q; else { if((tmp[k].fl^q.fl)&F_INIT){ tmp[k].dep=D.join(D.join(tmp[k].dep,q.dep),uninitDep()); tmp[k].lo=0; tmp[k].hi=255; tmp[k].fl|=F_INIT; } else { tmp[k].lo=std::min(tmp[k].lo,q.lo); tmp[k].hi=std::max(tmp[k].hi,q.hi); tmp[k].dep=D.join(tmp[k].dep,q.dep);} tmp[k].vn=0; if(tmp[k].pf!=q.pf) tmp[k].pf=0; } } if(firstS) for(auto it=o.cells.lower_bound(f);it!=o.cells.end()&&it->first+8<=(uint64_t)f+len;++it) cells[it->first-f]=it->second; else cells.clear(); firstS=false; } }
  Dep ex=D.join(D.join(src.dep,dst.dep),n.dep);
  for(auto&a:ds){ if(rd(a.obj).cst) continue; Obj&o=wr(a.obj); for(int64_t f=a.lo;f<=a.hi;f++) noteStoreBytes(a.obj,f,f,len); bool weak=ds.size()>1||a.lo!=a.hi; for(int64_t f=a.lo;f<=a.hi;f++) for(uint64_t k=0;k<len;k++){ if(f+k>=o.size) break; bool wk=weak||(weakTail&&k>=n.lo); killCells(o,f+k,1); Byte&q=o.b[f+k]; const Byte&s=tmp[k]; if(!(s.fl&F_INIT)){ if(!wk){ uint8_t keep=q.fl&F_SEC; q=Byte(); q.fl=F_WR|keep; q.dep=0; } else { q.dep=D.join(q.dep,uninitDep()); q.fl|=F_INIT|F_WR; q.lo=0;q.hi=255; } } else { putByte(q,s.pf?0:s.lo,s.pf?255:s.hi,D.join(s.dep,ex),false,wk,s.vn); } }
    if(!weak&&!weakTail) for(auto&c:cells){ bool ok=true; for(int z=0;z<8;z++) if(tmp[c.first+z].pf!=z+1) ok=false; if(ok){ o.cells[a.lo+c.first]=c.second; for(int z=0;z<8;z++) o.b[a.lo+c.first+z].pf=z+1; } } } }

static string cstr(const Val&p){ string r; if(p.obj<=0) return "?"; Obj&o=rd(p.obj); for(uint64_t k=p.lo;k<o.size;k++){ if(o.b[k].lo!=o.b[k].hi||!o.b[k].lo) break; r+=(char)o.b[k].lo; } return r; }
static uint64_t cint(const Val&v){ if(!v.isC()) broken("harness intrinsic needs a constant argument in "+curCtx+" got "+hexish(v.lo,v.hi)); return v.lo; }
static map<string,vector<string>> notes; // output info records
static bool chkPtr(const Val&p,uint64_t n,const Instruction*I,const char*w){ if(p.obj<=0||p.lo!=p.hi||!rd(p.obj).alive||(int64_t)p.lo<0||p.lo+n>rd(p.obj).size){ event("harness_ptr",I,string("check on an invalid buffer: ")+w,false); return false; } return true; }

static void reach(int o,set<int>&seen){ if(o<NB||seen.count(o)||rd(o).kind!=OK_HEAP||!rd(o).alive) return; seen.insert(o); for(auto&c:rd(o).cells) for(auto&x:alts(c.second)) reach(x.obj,seen); }
static bool kaiIntrinsic(const string&n,vector<Val>&a,const Instruction*I,Val&r){
  if(n.rfind("kai_",0)!=0) return false;
  if(n=="kai_buf"){ // kai_buf(size,name,flags) flags:1 readonly-unaligned
    int id=newObj(OK_HARN,cint(a[0]),cstr(a[1]),I); wr(id).unal=true; r=P(id,0,0); return true; }
  if(n=="kai_any"){ // ptr,n,cls,base
    uint64_t c=cint(a[1]); int cls=cint(a[2]); int base=cint(a[3]); Obj&o=wr(a[0].obj); for(uint64_t k=0;k<c;k++){ killCells(o,a[0].lo+k,1); putByte(o.b[a[0].lo+k],0,255,D.single(D.label(cls,base+k)),false,false,vn::on?vn::input(cls,base+k):0); o.b[a[0].lo+k].fl&=~(F_SEC); } return true; }
  if(n=="kai_anyint"){ // (lo,hi,cls,idx)
    r=R(cint(a[0]),cint(a[1]),32,cint(a[2])?D.single(D.label(cint(a[2]),cint(a[3]))):0); return true; }
  if(n=="kai_ro"){ if(a[0].obj>=NB) wr(a[0].obj).ro=true; return true; }
  if(n=="kai_rw"){ if(a[0].obj>=NB&&rd(a[0].obj).alive) wr(a[0].obj).ro=false; return true; }
  if(n=="kai_mark"){ set<int> os; if(a[0].obj>0) reach(a[0].obj,os); for(int o:os){ marks[o].b=rd(o).b; marks[o].has=true; } marks[-1].has=true; return true; }
  if(n=="kai_age"){ // whatever was changed since kai_mark is now anything: every history, not just the one interpreted
    set<int> os; if(a[0].obj>0) reach(a[0].obj,os); int cnt=0; Dep old=D.single(D.label(6,2047)); for(int id:os){ auto it=marks.find(id); if(it==marks.end()||!it->second.has) continue; Mark&m=it->second; Obj&o=wr(id); if(m.b.size()!=o.b.size()) continue; vector<char> ch(o.b.size(),0); for(size_t k=0;k<o.b.size();k++){ Byte&p=o.b[k],&q=m.b[k]; if(p.pf||q.pf) continue; ch[k]=p.lo!=q.lo||p.hi!=q.hi||p.dep!=q.dep||((p.fl^q.fl)&F_INIT)||byteW(p)!=byteW(q); }
      auto widen=[&](uint64_t f,uint64_t t){ bool any=false; for(uint64_t k=f;k<t&&k<ch.size();k++) any|=ch[k]; if(any) for(uint64_t k=f;k<t&&k<ch.size();k++) if(!o.b[k].pf) ch[k]=1; };
      if(m.ty){ auto*L=DL->getStructLayout(m.ty); for(unsigned e=0;e<m.ty->getNumElements();e++){ Type*t=m.ty->getElementType(e); bool ar=false; if(auto*at=dyn_cast<ArrayType>(t)) ar=at->getElementType()->isIntegerTy()&&!at->getElementType()->isIntegerTy(8); if(t->isIntegerTy()||ar) widen(L->getElementOffset(e),L->getElementOffset(e)+DL->getTypeAllocSize(t)); } }
      for(size_t k=0;k<ch.size();k++) if(ch[k]){ killCells(o,k,1); putByte(o.b[k],0,255,old,false,false,vn::on?vn::input(30,agedN++):0); cnt++; } } st.checks++; r=C(cnt,32); return true; }
  if(n=="kai_bufdead"){ wr(a[0].obj).alive=false; return true; }
  if(n=="kai_failures"){ r=C(failedCount,32); return true; }
  if(n=="kai_injecting"){ r=C(failAt>=0,32); return true; }
  if(n=="kai_mallocs"){ r=C(mallocCount,32); return true; }
  if(n=="kai_isnull"){ int q=icmpV(ICmpInst::ICMP_EQ,a[0],C(0,64),64); if(q<0){ event("expect",I,"result may or may not be null"); q=1; } r=C(q,32); return true; }
  if(n=="kai_const"){ // returns const value or dflt
    r= a[0].isC()?C(a[0].lo,32):C(cint(a[1]),32); return true; }
  if(n=="kai_known"){ r=C(a[0].isC()?1:0,32); return true; }
  if(n=="kai_expect"){ st.checks++; int q= a[0].isC()?(a[0].lo!=0):-1; if(q<0&&vnAllowed&&failAt<0&&a[0].obj==0){ int z=-1; vn::W x=a[0].vn; if(vn::on&&x){ z=vn::compare(x,vn::cw(0,vn::words[x].size())); vector<uint32_t> roots; for(vn::B b:vn::words[x]) for(uint32_t at:vn::sets[b>>1]) roots.push_back(vn::atomNode[at]); for(uint64_t sd=1;sd<=8&&z!=2;sd++){ vn::Eval e; e.seed=sd; e.run(roots); if(!e.word(x)) z=2; } } if(z!=2){ vn::open_++; auto&vv=notes["open"]; if(vv.size()<4096) vv.push_back(curCtx+": "+cstr(a[1])); return true; } vn::refuted++; } if(q!=1) event("expect",I,cstr(a[1])+(q<0?" (not provable)":"")); return true; }
  if(n=="kai_fail"){ st.checks++; event("expect",I,cstr(a[0])); return true; }
  if(n=="kai_check_init"){ // p,n,what
    uint64_t c=cint(a[1]); st.checks++; if(!c||!chkPtr(a[0],c,I,cstr(a[2]).c_str())) return true; Obj&o=rd(a[0].obj); int f=-1,u=-1; for(uint64_t k=0;k<c;k++){ Byte&b=o.b[a[0].lo+k]; if(!(b.fl&F_INIT)){ if(f<0) f=k; } else if(D.has(b.dep,0)&&u<0) u=k; }
    if(f>=0) event("unwritten",I,cstr(a[2])+": output byte "+std::to_string(f)+" is never written"); if(u>=0) event("uninit_out",I,cstr(a[2])+": output is derived from uninitialised memory"); return true; }
  if(n=="kai_check_dep"){ // p,n,cls,base,count,each,what : dependence on every label
    uint64_t c=cint(a[1]); int cls=cint(a[2]),base=cint(a[3]),cnt=cint(a[4]),each=cint(a[5]); st.checks++; if(!c||!chkPtr(a[0],c,I,"dep")) return true; Obj&o=rd(a[0].obj); BS un; bool done=false; for(uint64_t k=0;k<c&&!done;k++){ Dep d=o.b[a[0].lo+k].dep; un|=D.sets[d]; if(each) for(int j=0;j<cnt;j++) if(!D.has(d,D.label(cls,base+j))){ event("dep",I,cstr(a[6])+": output byte "+std::to_string(k)+" does not depend on "+clsname[cls]+" byte "+std::to_string(base+j)); done=true; break; } }
    if(!each) for(int j=0;j<cnt;j++) if(!un.test(D.label(cls,base+j))){ event("dep",I,cstr(a[6])+": no output byte depends on "+clsname[cls]+" byte "+std::to_string(base+j)); break; } return true; }
  if(n=="kai_dep_count"){ // number of labels of cls in [base,base+cnt) the region depends on
    uint64_t c=cint(a[1]); int cls=cint(a[2]),base=cint(a[3]),cnt=cint(a[4]); Obj&o=rd(a[0].obj); BS un; for(uint64_t k=0;k<c;k++) un|=D.sets[o.b[a[0].lo+k].dep]; int m=0; for(int j=0;j<cnt;j++) if(un.test(D.label(cls,base+j))) m++; r=C(m,32); return true; }
  if(n=="kai_int_dep"){ // value, cls, base, count, what
    st.checks++; int cls=cint(a[1]),base=cint(a[2]),cnt=cint(a[3]); for(int j=0;j<cnt;j++) if(!D.has(a[0].dep,D.label(cls,base+j))){ event("dep",I,cstr(a[4])+": result does not depend on "+clsname[cls]+" byte "+std::to_string(base+j)); break; } return true; }
  if(n=="kai_check_nodep"){ // p,n,cls,what
    uint64_t c=cint(a[1]); int cls=cint(a[2]); st.checks++; if(!c||!chkPtr(a[0],c,I,"nodep")) return true; Obj&o=rd(a[0].obj); for(uint64_t k=0;k<c;k++) if(D.hasCls(o.b[a[0].lo+k].dep,cls)||(cls==CLS_OLD&&D.hasCls(o.b[a[0].lo+k].dep,11))){ event("nodep",I,cstr(a[3])+": output depends on "+clsname[cls]+" data"); break; } return true; }
  if(n=="kai_check_deponly"){ // p,n,cls,base,count,what: no dependence on other labels of cls
    uint64_t c=cint(a[1]); int cls=cint(a[2]),base=cint(a[3]),cnt=cint(a[4]); st.checks++; if(!c||!chkPtr(a[0],c,I,"deponly")) return true; Obj&o=rd(a[0].obj); BS allow; for(int j=0;j<cnt;j++) allow.set(D.label(cls,base+j)); for(uint64_t k=0;k<c;k++){ Dep d=o.b[a[0].lo+k].dep; BS x=D.sets[d]&D.clsmask[cls]&~allow; if(x.any()){ event("deponly",I,cstr(a[5])+": output depends on {"+D.str(D.mk(x))+"} besides "+clsname[cls]+" byte "+std::to_string(base)); break; } } return true; }
  if(n=="kai_vn"){ if(vnAllowed&&failAt<0){ vn::on=true; vn::SETCAP=cint(a[0])?cint(a[0]):24; } return true; } // the run without injected failures carries the values
  if(n=="kai_value"){ // p,q,n,what: same value for every input, decided by value numbers alone
    uint64_t c=cint(a[2]); st.checks++; if(!c) return true; if(!chkPtr(a[0],c,I,"value")||!chkPtr(a[1],c,I,"value")) return true; Obj&x=rd(a[0].obj),&y=rd(a[1].obj); bool open=false; for(uint64_t k=0;k<c;k++){ Byte&p=x.b[a[0].lo+k],&q=y.b[a[1].lo+k]; int r=vn::compare(byteW(p),byteW(q)); if(r==0){ vn::refuted++; event("value",I,cstr(a[3])+": byte "+std::to_string(k)+" has another value"); break; } if(r<0) { if(getenv("KAI_VNDBG")) fprintf(stderr,"open byte %d: %u %u\n",(int)k,byteW(p),byteW(q)); open=true; vn::open_++; break; } vn::proved++; } if(open){ auto&vv=notes["open"]; if(vv.size()<4096) vv.push_back(curCtx+": "+cstr(a[3])); } return true; }
  if(n=="kai_uf"||n=="kai_ufinv"){ // name,bijective,params,np,data,nd,out,nout: out = name(params)(data), uninterpreted
    bool inv=n=="kai_ufinv"; vector<Val> av=a; if(inv) av.insert(av.begin()+1,C(1,32)); vector<Val>&a=av; uint64_t np=cint(a[3]),nd=cint(a[5]),no=cint(a[7]); string nm=cstr(a[0]); int bij=cint(a[1]); uint32_t ix=0; for(;ix<vn::ufNames.size();ix++) if(vn::ufNames[ix]==nm) break; if(ix==vn::ufNames.size()) vn::ufNames.push_back(nm);
    Dep d=0; vector<uint32_t> ar={(uint32_t)np}; bool ok=vn::on; auto take=[&](const Val&p,uint64_t cnt){ if(!cnt) return; auto as=resolveP(p,cnt,I,false,1); if(as.size()!=1||as[0].lo!=as[0].hi) broken("kai_uf argument"); Obj&o=rd(as[0].obj); noteLoadBytes(as[0].obj,as[0].lo,as[0].lo,cnt,I); for(uint64_t k=0;k<cnt;k++){ Byte&b=o.b[as[0].lo+k]; d=D.join(d,b.dep); if(!(b.fl&F_INIT)) d=D.join(d,uninitDep()); vn::W x=ok?byteW(b):0; if(!x) ok=false; ar.push_back(x); } };
    take(a[2],np); take(a[4],nd); if(!no) return true; auto as=resolveP(a[6],no,I,true,1); if(as.size()!=1||as[0].lo!=as[0].hi) broken("kai_uf result"); Obj&o=wr(as[0].obj); noteStoreBytes(as[0].obj,as[0].lo,as[0].lo,no);
    vector<vn::W> res(no,0); if(ok){ bool done=false; if(bij&&nd==no){ // inverse of an application with the same parameters
        vn::B b0=vn::words[ar[1+np]][0]; if(!(b0&1)&&vn::sets[b0>>1].size()==1){ uint32_t q=vn::atomNode[vn::sets[b0>>1][0]]; vn::Node&N=vn::nodes[q]; if(N.op==(inv?vn::UF:vn::UFINV)&&N.aux==(ix<<1|1)&&N.a.size()==ar.size()&&std::equal(ar.begin(),ar.begin()+1+np,N.a.begin())){ bool all=true; for(uint64_t k=0;k<nd&&all;k++) for(int j=0;j<8;j++) if(vn::words[ar[1+np+k]][j]!=vn::atomBit(q,8*k+j)){ all=false; break; } if(all){ for(uint64_t k=0;k<no;k++) res[k]=N.a[1+np+k]; done=true; } } } }
      if(!done){ uint32_t q=vn::mkNode(inv?vn::UFINV:vn::UF,no*8,ix<<1|(bij?1:0),ar); for(uint64_t k=0;k<no;k++){ vector<vn::B> v(8); for(int j=0;j<8;j++) v[j]=vn::atomBit(q,8*k+j); res[k]=vn::mkWord(v); } } }
    for(uint64_t k=0;k<no;k++){ killCells(o,as[0].lo+k,1); putByte(o.b[as[0].lo+k],0,255,d,false,false,res[k]); } return true; }
  if(n=="kai_same"){ // p,q,n,what
    uint64_t c=cint(a[2]); st.checks++; if(!c) return true; if(!chkPtr(a[0],c,I,"same")||!chkPtr(a[1],c,I,"same")) return true; Obj&x=rd(a[0].obj),&y=rd(a[1].obj);
    if(vn::on){ bool all=true; for(uint64_t k=0;k<c&&all;k++){ Byte&p=x.b[a[0].lo+k],&q=y.b[a[1].lo+k]; int r=vn::compare(byteW(p),byteW(q)); if(r==0){ vn::refuted++; event("same",I,cstr(a[3])+": results differ (value of byte "+std::to_string(k)+")"); return true; } if(r<0){ all=false; vn::open_++; } else vn::proved++; } if(all) return true; } for(uint64_t k=0;k<c;k++){ Byte&p=x.b[a[0].lo+k],&q=y.b[a[1].lo+k]; if((p.fl^q.fl)&F_INIT||((p.fl&F_INIT)&&(p.dep!=q.dep||p.lo!=q.lo||p.hi!=q.hi))){ event("same",I,cstr(a[3])+": results differ (byte "+std::to_string(k)+": {"+D.str(p.dep)+"} vs {"+D.str(q.dep)+"})"); break; } } return true; }
  if(n=="kai_same_consts"){ // object p vs object q: bytes that are constants in both must agree; p freshly created, q recreated
    st.checks++; if(a[0].obj<=0||a[1].obj<=0) return true; Obj&x=rd(a[0].obj),&y=rd(a[1].obj); if(!x.alive||!y.alive) return true; if(x.size!=y.size) return true; for(uint64_t k=0;k<x.size;k++){ Byte&p=x.b[k],&q=y.b[k]; if(!(p.fl&q.fl&F_INIT)||p.pf||q.pf) continue; if(p.lo==p.hi&&q.lo==q.hi&&p.lo!=q.lo){ event("same_const",I,cstr(a[2])+": byte "+std::to_string(k)+" of the "+std::to_string(x.size)+"-byte object is "+std::to_string(p.lo)+" in one and "+std::to_string(q.lo)+" in the other"); break; } }
    // follow pointers to heap objects
    for(auto&c:x.cells){ auto it=y.cells.find(c.first); if(it==y.cells.end()) continue; if(c.second.obj>0&&it->second.obj>0&&c.second.obj!=it->second.obj&&rd(c.second.obj).kind==OK_HEAP&&rd(it->second.obj).kind==OK_HEAP&&c.second.obj!=a[0].obj&&it->second.obj!=a[1].obj&&c.second.lo==0&&it->second.lo==0){ vector<Val> b={c.second,it->second,a[2]}; Val rr; kaiIntrinsic(n,b,I,rr); } }
    return true; }
  if(n=="kai_find"){ // object p contains constant byte string q[0..n) contiguous ?
    Obj&x=rd(a[0].obj); Obj&y=rd(a[1].obj); uint64_t c=cint(a[2]); bool f=false; for(uint64_t s=0;s+c<=x.size&&!f;s++){ bool ok=true; for(uint64_t k=0;k<c;k++){ Byte&p=x.b[s+k]; Byte&q=y.b[a[1].lo+k]; if(!(p.fl&F_INIT)||p.pf||p.lo!=p.hi||p.lo!=q.lo){ok=false;break;} } f=ok; } r=C(f,32); return true; }
  if(n=="kai_poke"){ // p,old,new,width: the only place in object p where the little-endian constant `old' stands gets `new'; number of places
    Obj&x=wr(a[0].obj); uint64_t ov=cint(a[1]),nv=cint(a[2]),c=cint(a[3]); vector<uint64_t> at; for(uint64_t s=0;s+c<=x.size;s++){ bool ok=true; for(uint64_t k=0;k<c&&ok;k++){ Byte&p=x.b[s+k]; uint64_t t=bi(k,c); uint8_t want=t<8?ov>>(8*t):0; ok=(p.fl&F_INIT)&&!p.pf&&p.lo==p.hi&&p.lo==want; } if(ok) at.push_back(s); }
    if(at.size()==1) for(uint64_t k=0;k<c;k++){ uint64_t t=bi(k,c); uint8_t v=t<8?nv>>(8*t):0; killCells(x,at[0]+k,1); putByte(x.b[at[0]+k],v,v,0,false,false,vn::on?vn::cw(v,8):0); } r=C(at.size(),32); return true; }
  if(n=="kai_inplace"){ // in,out,len
    ip.on=true; ip.in=a[0].obj; ip.out=a[1].obj; ip.len=cint(a[2]); ip.stored.assign(ip.len,0); if(a[0].lo||a[1].lo) broken("kai_inplace offset"); return true; }
  if(n=="kai_inplace_end"){ ip.on=false; st.checks++; return true; }
  if(n=="kai_leakcheck"){ st.checks++; for(size_t i=NB;i<NB+S->size();i++){ Obj&o=rd(i); if(o.kind==OK_HEAP&&(o.alive)&&!o.dropped){ string f;unsigned l; locOf(o.site,f,l); string fn=o.site->getFunction()->getName().str(); 
        // report at allocation site
        auto save=callstk; event("leak",o.site,"memory allocated here is "+string(o.maydead?"possibly ":"")+"never released"); wr(i).dropped=true; callstk=save; } } return true; }
  if(n=="kai_ctx"){ string c; for(size_t i=0;i<a.size();i++){ if(i) c+=","; if(a[i].obj>0) c+=cstr(a[i]); else if(a[i].isC()) c+=std::to_string((int64_t)(int32_t)a[i].lo); else c+="?"; } curCtx=c+(failAt>=0?" allocfail="+std::to_string(failAt):""); return true; }
  if(n=="kai_clearwr"){ Obj&o=wr(a[0].obj); for(auto&b:o.b) b.fl&=~F_WR; return true; }
  if(n=="kai_copies"){ // count of bytes in heap objects reachable from p that are exact copies of label (cls,base+j) and not written since mark
    return false; }
  if(n=="kai_note"){ string k=cstr(a[0]); string v; for(size_t i=1;i<a.size();i++){ if(i>1) v+=","; v+= a[i].obj>0?cstr(a[i]):a[i].isC()?std::to_string((int64_t)a[i].lo):"?"; } auto&vv=notes[k]; if(vv.size()<4096) vv.push_back(v); return true; }
  if(n=="kai_dump"){ Obj&o=rd(a[0].obj); fprintf(stderr,"dump %s size %lu\n",o.name.c_str(),(unsigned long)o.size); for(size_t k=0;k<o.size;k++) fprintf(stderr," %zu: [%d,%d] fl%d pf%d {%s}\n",k,o.b[k].lo,o.b[k].hi,o.b[k].fl,o.b[k].pf,D.str(o.b[k].dep).c_str()); return true; }
  broken("unknown intrinsic "+n); }

static Val doMalloc(uint64_t sz,const Instruction*I,bool zero){
  st.mallocs++; int k=mallocCount++; if(k==failAt){ failedCount++; st.faults++; return C(0,64); }
  if(sz>(64u<<20)){ event("alloc_huge",I,"allocation of "+std::to_string(sz)+" bytes requested"); }
  string nm=I->getFunction()->getName().str(); int id=newObj(OK_HEAP,sz>(256u<<20)?(256u<<20):sz,nm,I); if(zero) for(auto&b:wr(id).b) b.fl|=F_INIT; return P(id,0,0); }
static void doFree(const Val&p,const Instruction*I){
  st.frees++; if(p.obj==0&&p.isC()&&p.lo==0) return; if(p.obj==-1){ for(auto&a:alts(p)){ if(a.obj==0) continue; Obj&o=rd(a.obj); if(!o.alive) event("double_free",I,"double free of "+objDesc(a.obj)); checkResidue(a.obj,I,true); wr(a.obj).maydead=true; } return; }
  if(p.obj<=0){ event("bad_free",I,"free of a pointer the analysis cannot resolve"); return; }
  Obj&o=rd(p.obj); if(o.kind!=OK_HEAP||p.lo||p.hi){ event("bad_free",I,"free of "+objDesc(p.obj)+" at offset "+hexish(p.lo,p.hi)); return; }
  if(!o.alive){ event("double_free",I,"double free of "+objDesc(p.obj)); return; }
  const Instruction*at=I; checkResidue(p.obj,at,true);
  Obj&q=wr(p.obj); q.alive=false; }

static const char*extIgnore[]={"llvm.dbg.declare","llvm.dbg.value","llvm.dbg.label","llvm.lifetime.start.p0","llvm.lifetime.end.p0","llvm.stacksave.p0","llvm.stackrestore.p0","llvm.assume",0};
static set<string> extSeen;

static Val doExternal(Frame&fr,const DI&d,const Function*F,vector<Val>&a){
  const CallBase*cb=cast<CallBase>(d.I); const Instruction*I=d.I; string n=F->getName().str(); Val r; r.obj=-3; Type*rt=cb->getType(); if(rt->isIntegerTy()) r=Top(twid(rt)); 
  for(int i=0;extIgnore[i];i++) if(n==extIgnore[i]){ if(n=="llvm.stacksave.p0") { r=C(0,64);} return r; }
  if(kaiIntrinsic(n,a,I,r)) return r;
  if(!isHarnessFn(I->getFunction())) extSeen.insert(n);
  if(n=="__assert_fail"){ event("assert",I,"assertion '"+cstr(a[0])+"' fails"); S->bot=true; return r; }
  if(n=="abort"||n=="exit"||n=="_exit"){ event("abort",I,"call to "+n); S->bot=true; return r; }
  if(n=="malloc") { if(a[0].obj==0&&!a[0].isC()){ event("alloc_size",I,"allocation size not determined"); return doMalloc(a[0].hi>65536?65536:a[0].hi,I,false);} return doMalloc(a[0].lo,I,false); }
  if(n=="calloc"){ if(!a[0].isC()||!a[1].isC()) broken("calloc size"); unsigned __int128 t=(unsigned __int128)a[0].lo*a[1].lo; return doMalloc((uint64_t)t,I,true); }
  if(n=="realloc"){ if(!a[1].isC()) broken("realloc size"); Val nv=doMalloc(a[1].lo,I,false); if(nv.obj>0&&a[0].obj>0){ uint64_t m=std::min(rd(a[0].obj).size,rd(nv.obj).size); if(m) memCpy(nv,a[0],C(m,64),I,true); doFree(a[0],I);} return nv; }
  if(n=="free"){ doFree(a[0],I); return r; }
  if(n.rfind("llvm.memset",0)==0){ bool vol=a.size()>3&&a[3].isC()&&a[3].lo; Val c=castV(Instruction::Trunc,a[1],a[1].w,8); if(a[1].w==8) c=a[1]; memSet(a[0],c,a[2],I,vol); return r; }
  if(n=="memset"){ Val c=a[1].w==8?a[1]:castV(Instruction::Trunc,a[1],a[1].w,8); memSet(a[0],c,a[2],I,false); return a[0]; }
  if(n=="explicit_bzero"){ memSet(a[0],C(0,8),a[1],I,true); return r; }
  if(n.rfind("llvm.memcpy",0)==0){ memCpy(a[0],a[1],a[2],I,false); return r; }
  if(n.rfind("llvm.memmove",0)==0){ memCpy(a[0],a[1],a[2],I,true); return r; }
  if(n=="memcpy"||n=="memmove"||n=="__memcpy_chk"||n=="__memmove_chk"){ memCpy(a[0],a[1],a[2],I,n!="memcpy"); return a[0]; }
  if(n=="memcmp"||n=="bcmp"||n=="strcmp"||n=="strncmp"){ Dep dd=D.join(a[0].dep,a[1].dep); if(n!="strcmp"&&a.size()>2&&a[2].isC()){ for(int q=0;q<2;q++){ auto as=resolveP(a[q],a[2].lo,I,false,1); for(auto&x:as){ Obj&o=rd(x.obj); for(uint64_t k=x.lo;k<x.lo+a[2].lo&&k<o.size;k++){ dd=D.join(dd,o.b[k].dep); if(!(o.b[k].fl&F_INIT)) dd=D.join(dd,uninitDep()); } } } } if(secretDep(dd)||D.hasCls(dd,CLS_TAG)) event("secret_branch",I,n+" is not constant-time and compares "+D.str(dd)); return Top(32,dd); }
  if(n=="strlen"){ return Top(64,a[0].dep); }
  if(n=="getenv"){ Val u; vector<Alt> o; int id=newObj(OK_HARN,64,"env",I); for(auto&b:wr(id).b){ b.fl|=F_INIT; b.hi=255; } wr(id).b[63].hi=0; o.push_back({0,0,0}); o.push_back({id,0,0}); return fromAlts(o,0); }
  if(n=="fopen"){ int k=mallocCount++; if(k==failAt){ failedCount++; st.faults++; return C(0,64);} int id=newObj(OK_HEAP,8,"FILE",I); return P(id,0,0); }
  if(n=="fclose"){ if(a[0].obj>0&&rd(a[0].obj).alive) wr(a[0].obj).alive=false; else if(a[0].obj==0&&a[0].isC()) event("null",I,"fclose of a null pointer"); else event("double_free",I,"fclose of a closed stream"); return Top(32); }
  if(n=="fread"||n=="read"||n=="getrandom"){ const Val&pp= n=="read"?a[1]:a[0]; Val len; if(n=="fread") len=binop(Instruction::Mul,a[1],a[2],64,I); else len=n=="read"?a[2]:a[1]; if(n=="fread"){ if(a[3].obj==0) event("null",I,"fread from a null stream"); else if(a[3].obj>0&&!rd(a[3].obj).alive) event("uaf",I,"fread from a closed stream"); }
     int k=mallocCount++; bool fl=(k==failAt); if(fl){ failedCount++; st.faults++; }
     uint64_t got= fl? (len.isC()&&len.lo?len.lo-1:0) : len.hi; // short read under the injected fault
     static int rl; uint64_t L=got>4096?4096:got; auto as=resolveP(pp,got,I,true,1); for(auto&x:as){ if(rd(x.obj).cst) continue; Obj&o=wr(x.obj); for(uint64_t z=0;z<got&&x.lo+z<o.size;z++){ killCells(o,x.lo+z,1); putByte(o.b[x.lo+z],0,255,D.single(D.label(CLS_RANDOM,z%512)),false,false); } } (void)L;(void)rl;
     if(n=="fread"){ uint64_t es=a[1].lo?a[1].lo:1; return C(got/es,64);} return C(got,64); }
  if(n=="log2"||n.rfind("llvm.fmuladd",0)==0||n=="sqrt"||n=="floor"||n=="ceil"){ Dep dd=0; for(auto&v:a) dd=D.join(dd,v.dep); return Top(64,dd); }
  if(n=="printf"||n=="puts"||n=="fprintf"||n=="putchar"||n=="perror"){ for(auto&v:a) if(secretDep(v.dep)) event("secret_output",I,n+" prints secret-derived data"); event("output",I,"call to "+n); return Top(32); }
  if(n.rfind("llvm.umin",0)==0||n.rfind("llvm.umax",0)==0){ Val v; bool mn=n.find("umin")!=string::npos; v=a[0]; v.dep=D.join(a[0].dep,a[1].dep); v.lo=mn?std::min(a[0].lo,a[1].lo):std::max(a[0].lo,a[1].lo); v.hi=mn?std::min(a[0].hi,a[1].hi):std::max(a[0].hi,a[1].hi); v.kz=a[0].kz&a[1].kz; norm(v); return v; }
  if((n.rfind("llvm.fshl",0)==0||n.rfind("llvm.fshr",0)==0)&&d.I->getOperand(0)==d.I->getOperand(1)&&twid(rt)<=64){ // rotate
    unsigned w=twid(rt); bool ror=n[8]=='r'; Val rv=Top(w,D.join(a[0].dep,a[2].dep)); if(a[0].obj==-3||a[2].obj==-3) rv.dep=D.join(rv.dep,uninitDep());
    if(a[0].isC()&&!a[0].obj&&a[2].isC()&&!a[2].obj){ unsigned sh=a[2].lo%w; if(ror) sh=(w-sh)%w; uint64_t m=maskw(w),x=a[0].lo&m; Val r=C(sh?((x<<sh)|(x>>(w-sh)))&m:x,w); r.dep=rv.dep; return r; }
    if(vn::on&&(w==8||w==16||w==32||w==64)){ vn::W x=wordOf(a[0],w), y=wordOf(a[2],w); uint64_t c; if(x&&y){ y=vn::trunc_(y,w==8?3:w==16?4:w==32?5:6); rv.vn=vn::isConst(y,&c)?vn::rol(x,ror?(w-c)%w:c,w):vn::rolv(x,y,w,ror); } }
    return rv; }
  if(n.rfind("llvm.bswap",0)==0&&vn::on&&twid(rt)<=64){ Val rv=Top(twid(rt),a[0].dep); vn::W x=wordOf(a[0],twid(rt)); if(x){ auto b=vn::splitBytes(x); std::reverse(b.begin(),b.end()); rv.vn=vn::concat(b); } return rv; }
  if(n.rfind("llvm.fshl",0)==0||n.rfind("llvm.fshr",0)==0||n.rfind("llvm.bswap",0)==0||n.rfind("llvm.ctpop",0)==0||n.rfind("llvm.ctlz",0)==0||n.rfind("llvm.cttz",0)==0||n.rfind("llvm.abs",0)==0){ Dep dd=0; for(auto&v:a) dd=D.join(dd,v.dep); return Top(twid(rt),dd); }
  if(n.rfind("llvm.umul.with.overflow",0)==0||n.rfind("llvm.uadd.with.overflow",0)==0){ broken("overflow intrinsic"); }
  event("external",I,"call to external function '"+n+"' the analysis has no model for"); 
  if(rt->isPointerTy()){ r.obj=-2; } return r; }

static Val doCall(Frame&fr,const DI&d){
  const CallBase*cb=cast<CallBase>(d.I); const Instruction*I=d.I; unsigned na=cb->arg_size(); vector<Val> args; for(unsigned i=0;i<na;i++) args.push_back(opv(fr,d.ops[i]));
  if(cb->isInlineAsm()){ auto*ia=cast<InlineAsm>(cb->getCalledOperand()); string as=ia->getAsmString(), cs=ia->getConstraintString(); if(cs.find("memory")!=string::npos&&as.empty()) { Val r=na?args[0]:Top(64); return r; } 
    Dep dd=0; bool un=false; for(auto&v:args){ if(v.obj==-3) un=true; dd=D.join(dd,v.dep);} if(un) dd=D.join(dd,uninitDep()); if(cb->getType()->isVoidTy()){ if(!as.empty()) event("external",I,"inline assembly without outputs"); Val r; return r; }
    if(as.empty()&&na>=1) { Val r=args[0]; return r; }
    unsigned w=twid(cb->getType());
    // rotates of constants stay constants: "rol"/"ror" with $imm or cl
    { bool rol=as.rfind("rol",0)==0, ror=as.rfind("ror",0)==0; if((rol||ror)&&na>=1&&args[0].isC()&&!args[0].obj){ int sh=-1; auto p=as.find("$$"); if(p!=string::npos) sh=atoi(as.c_str()+p+2); else if(as.find("cl")!=string::npos&&na>=2&&args[1].isC()) sh=args[1].lo&63; if(sh>=0&&w<=64){ sh%=w; uint64_t m=maskw(w),x=args[0].lo&m; if(ror) sh=(w-sh)%w; uint64_t y= sh? ((x<<sh)|(x>>(w-sh)))&m : x; Val r=C(y,w); r.dep=dd; return r; } } }
    Val rv=Top(w,dd); if(vn::on){ bool rol=as.rfind("rol",0)==0, ror=as.rfind("ror",0)==0; vn::W x=na?wordOf(args[0],w):0;
      if(x&&(rol||ror)){ auto p=as.find("$$"); if(p!=string::npos){ int sh=atoi(as.c_str()+p+2)%w; rv.vn=vn::rol(x,ror?(w-sh)%w:sh,w); } else if(as.find("cl")!=string::npos&&na>=2){ unsigned lg= w==8?3:w==16?4:w==32?5:6; vn::W y=wordOf(args[1],args[1].w); if(y){ y=vn::trunc_(y,lg); uint64_t c; rv.vn= vn::isConst(y,&c)? vn::rol(x,ror?(w-c)%w:c,w) : vn::rolv(x,y,w,ror); } } }
      else if(x&&as.rfind("bswap",0)==0){ auto b=vn::splitBytes(x); std::reverse(b.begin(),b.end()); rv.vn=vn::concat(b); } }
    return rv; }
  const Value*co=cb->getCalledOperand(); const Function*F=dyn_cast<Function>(co->stripPointerCasts());
  vector<const Function*> targets; if(F) targets.push_back(F); else { const Val&fv=opv(fr,d.ops.back()); if(D.has(fv.dep,0)) event("uninit",I,"call through an uninitialised function pointer"); for(auto&x:alts(fv)){ if(x.obj==0){ event("null",I,"call through a null function pointer"); continue; } Obj&o=rd(x.obj); if(o.kind!=OK_FUNC){ event("wild",I,"indirect call to data"); continue; } if(!o.fn) continue; targets.push_back(o.fn); } if(targets.empty()){ if(alts(fv).empty()) event("wild",I,"indirect call the analysis cannot resolve"); S->bot=true; Val r; return r; } }
  if(targets.size()==1){ F=targets[0]; if(F->isDeclaration()) return doExternal(fr,d,F,args); 
    return callFn(F,args,I); }
  State s0=*S; State acc; acc.bot=true; Val rv; rv.obj=-3; for(auto*T:targets){ *S=s0; Val r= T->isDeclaration()?doExternal(fr,d,T,args):callFn(T,args,I); if(!S->bot){ joinState(acc,*S,0); rv=joinV(rv,r,0);} } *S=acc; return rv; }

// ------------------------------------------------------------ main
static void initGlobals(State&s){
  S=&s; baseObjs.push_back(std::make_shared<Obj>()); baseObjs[0]->kind=OK_FUNC; // id 0 unused
  for(auto&F:*M){ auto o=std::make_shared<Obj>(); o->kind=OK_FUNC; o->fn=&F; o->name=F.getName().str(); gobj[&F]=baseObjs.size(); baseObjs.push_back(o); }
  auto mk=[&](GlobalVariable&G){ auto o=std::make_shared<Obj>(); o->kind=OK_GLOBAL; o->size=tsz(G.getValueType()); o->name=G.getName().str(); o->cst=G.isConstant(); o->b.resize(o->size); return o; };
  for(auto&G:M->globals()) if(G.isConstant()){ gobj[&G]=baseObjs.size(); baseObjs.push_back(mk(G)); }
  NB=baseObjs.size();
  for(auto&G:M->globals()) if(!G.isConstant()){ s.push(mk(G)); gobj[&G]=NB+(int)s.size()-1; }
  for(auto&G:M->globals()){ Obj&o= G.isConstant()? *baseObjs[gobj[&G]] : wr(gobj[&G]); if(G.hasInitializer()) initBytes(o,0,G.getInitializer()); else for(auto&b:o.b){ b.fl=F_INIT; b.hi=255; } }
}
int main(int argc,char**argv){
  vnAllowed=argc>3&&!strcmp(argv[3],"vn");
  if(argc<3){ fprintf(stderr,"usage: kai linked.bc jobs.txt\n"); return 2; }
  LLVMContext ctx; SMDiagnostic err; auto m=parseIRFile(argv[1],err,ctx); if(!m){ broken("cannot read bitcode"); } M=m.get(); DL=&M->getDataLayout(); BE=DL->isBigEndian();
  D.reset(); State base; initGlobals(base);
  // jobs: lines "entry maxfault a b c ..."
  FILE*f=fopen(argv[2],"r"); if(!f) broken("jobs"); char line[65536]; int njobs=0;
  while(fgets(line,sizeof line,f)){ char*tok=strtok(line," \n"); if(!tok||tok[0]=='#') continue; string entry=tok; tok=strtok(nullptr," \n"); int maxf=atoi(tok); vector<Val> args; string cfg=entry; 
    const Function*E=M->getFunction(entry); if(!E||E->isDeclaration()) broken("no harness entry "+entry); unsigned ai=0; while((tok=strtok(nullptr," \n"))){ cfg+=string(" ")+tok; 
      if(ai>=E->arg_size()) broken("too many args for "+entry); Type*t=E->getFunctionType()->getParamType(ai); if(t->isPointerTy()){ auto*g=M->getNamedGlobal(tok); const Function*gf=M->getFunction(tok); if(g) args.push_back(P(gobj[g],0,0)); else if(gf) args.push_back(P(gobj[gf],0,0)); else if(!strcmp(tok,"0")) args.push_back(C(0,64)); else broken(string("no global ")+tok); } else args.push_back(C(strtoull(tok,0,0),twid(t))); ai++; }
    if(ai!=E->arg_size()) broken("argument count for "+entry+": "+cfg);
    int total=0; for(int k=-1;k<=maxf;k++){ if(k>=0&&k>=total) break; D.reset(); if(psets.size()>100000){} vn::reset(); marks.clear(); agedN=0; State s=base; S=&s; failAt=k; mallocCount=0; failedCount=0; budget=0; depth=0; callstk.clear(); ip=InPlace(); curCtx=cfg+(k>=0?" allocfail="+std::to_string(k):""); vector<Val> a=args; callFn(E,a,nullptr); st.configs++; if(k<0) total=mallocCount; if(S->bot){ bool has=false; (void)has; notes["aborted"].push_back(curCtx); } }
    njobs++; }
  for(auto&p:events){ auto&e=p.second; printf("{\"ev\":\"%s\",\"file\":\"%s\",\"line\":%u,\"func\":\"%s\",\"detail\":\"%s\",\"ctx\":\"%s\",\"stack\":\"%s\",\"count\":%d}\n",e.kind.c_str(),esc(e.file).c_str(),e.line,esc(e.func).c_str(),esc(e.detail).c_str(),esc(e.ctx).c_str(),esc(e.stack).c_str(),e.count); }
  for(auto&n:notes) for(auto&v:n.second) printf("{\"note\":\"%s\",\"v\":\"%s\"}\n",esc(n.first).c_str(),esc(v).c_str());
  int totF=0,totB=0; for(auto&F:*M) if(!F.isDeclaration()&&!isHarnessFn(&F)){ totF++; totB+=F.size(); }
  printf("{\"functions\":["); bool first=true; for(auto*F:seenFn){ printf("%s\"%s\"",first?"":",",esc(F->getName().str()).c_str()); first=false; } printf("]}\n");
  printf("{\"blocks\":["); first=true; for(auto&F:*M) if(!F.isDeclaration()&&!isHarnessFn(&F)) { int bi=0; for(auto&B:F){ if(seenBB.count(&B)){ printf("%s\"%s#%d\"",first?"":",",esc(F.getName().str()).c_str(),bi); first=false; } bi++; } } printf("]}\n");
  printf("{\"externals\":["); first=true; for(auto&n:extSeen){ printf("%s\"%s\"",first?"":",",n.c_str()); first=false; } printf("]}\n");
  printf("{\"stats\":{\"jobs\":%d,\"configs\":%lu,\"insts\":%lu,\"loads\":%lu,\"stores\":%lu,\"branches\":%lu,\"undecided\":%lu,\"calls\":%lu,\"mallocs\":%lu,\"frees\":%lu,\"faults\":%lu,\"checks\":%lu,\"fixpoints\":%lu,\"lib_functions\":%d,\"lib_blocks\":%d,\"labelsets\":%zu,\"vn_proved\":%lu,\"vn_refuted\":%lu,\"vn_open\":%lu,\"vn_capped\":%lu,\"vn_off\":%lu,\"vn_sets\":%lu}}\n",njobs,(unsigned long)st.configs,(unsigned long)st.insts,(unsigned long)st.loads,(unsigned long)st.stores,(unsigned long)st.branches,(unsigned long)st.undecided,(unsigned long)st.calls,(unsigned long)st.mallocs,(unsigned long)st.frees,(unsigned long)st.faults,(unsigned long)st.checks,(unsigned long)st.fixpoints,totF,totB,D.sets.size(),(unsigned long)vn::proved,(unsigned long)vn::refuted,(unsigned long)vn::open_,(unsigned long)vn::capHits,(unsigned long)vn::off,(unsigned long)vn::sets.size());
  return 0; }
