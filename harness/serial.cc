// Bounded check of the binary format on the real code: size, exact write, refusal of short buffers, round trip,
// truncated and corrupted input.  One line per case: container to write, container that receives the read value.
// Every buffer is a heap block of exactly the announced length (address sanitizer sees any access outside).
#include "driver.hh"
static string text(GCn const&g){ g_out.clear(); wr(g); return g_out; }
static long calls=0;
// exactly k bytes, also for k==0 (a pointer just past a block of one byte)
struct Exact { uint8_t*b; uint8_t*p; explicit Exact(size_t k){ b=(uint8_t*)malloc(k?k:1); p=k?b:b+1; } ~Exact(){ free(b); } };
static bool fail(string const&s){ std::cout<<"fail "<<s<<std::endl; return false; }
static bool one(string const&line,bool full){
  Tok t(line); GCn g,prior; rdgc(t,g); rdgc(t,prior);
  string const before=text(g),pr=text(prior);
  int32_t n=g.mem_size(); ++calls;
  if(text(g)!=before) return fail("mem_size changes the container");
  if(n<4) return fail("mem_size returns "+std::to_string(n));
  std::vector<uint8_t> enc;
  { Exact b(n); memset(b.p,0xA5,n); int32_t w=-1; ++calls;
    try{ w=g.serialize(n,b.p); } catch(std::exception const&e){ return fail("serialize refuses a buffer of mem_size() = "+std::to_string(n)+" bytes"); }
    if(w!=n) return fail("serialize returns "+std::to_string(w)+", mem_size() is "+std::to_string(n));
    enc.assign(b.p,b.p+n); }
  { Exact b(n+9); memset(b.p,0x5A,n+9); ++calls; int32_t w=g.serialize(n+9,b.p);
    if(w!=n) return fail("serialize into a larger buffer returns "+std::to_string(w)+", mem_size() is "+std::to_string(n));
    if(memcmp(b.p,enc.data(),n)) return fail("the bytes written depend on previous buffer content");
    for(int i=n;i<n+9;++i) if(b.p[i]!=0x5A) return fail("serialize writes beyond the announced size"); }
  { std::vector<uint8_t> v(n); ++calls; int32_t w=g.serialize(v); if(w!=n||v!=enc) return fail("serialize(vector) writes something else"); }
  if(text(g)!=before) return fail("serialize changes the container");
  std::vector<int> cuts; int step=full||n<=200?1:1+n/200; for(int k=0;k<n;k+=step) cuts.push_back(k); cuts.push_back(n-1);
  for(int k:cuts){ Exact b(k); ++calls; bool thr=false; try{ g.serialize(k,b.p); } catch(std::exception const&){ thr=true; }
    if(!thr) return fail("serialize accepts a buffer of "+std::to_string(k)+" bytes, mem_size() is "+std::to_string(n)); }
  // round trip
  auto rd=[&](std::vector<uint8_t> const&e,int k,string&out,int32_t&r)->bool{ Exact b(k); memcpy(b.p,e.data(),k); ++calls;
    GCn h; { Tok q(pr); rdgc(q,h); } r=-1;
    try{ r=h.de_serialize(k,b.p); } catch(std::runtime_error const&){ out=text(h); return false; }
    out=text(h); return true; };
  string out; int32_t r;
  if(!rd(enc,n,out,r)) return fail("de_serialize refuses a buffer written by serialize");
  if(out!=before) return fail("read back as "+out+" instead of "+before);
  if(r!=n) return fail("de_serialize returns "+std::to_string(r)+" for an encoding of "+std::to_string(n)+" bytes");
  { std::vector<uint8_t> e(enc); for(int i=0;i<7;++i) e.push_back(uint8_t(0xC3+i)); if(!rd(e,n+7,out,r)||out!=before||r!=n) return fail("de_serialize from a larger buffer gives something else"); }
  { GCn h; Tok q(pr); rdgc(q,h); ++calls; int32_t w=h.de_serialize(enc); if(w!=n||text(h)!=before) return fail("de_serialize(vector) gives something else"); }
  for(int k:cuts) if(rd(enc,k,out,r)) return fail("de_serialize accepts the first "+std::to_string(k)+" of "+std::to_string(n)+" bytes and returns "+std::to_string(r));
  // corrupted bytes: memory safe, refuses or returns a count within the buffer
  static int const val[]={0,1,2,3,4,6,7,8,9,12,13,14,15,18,19,20,21,127,128,255};
  int lim=std::min<int>(n,full?400:48);
  for(int i=0;i<lim;++i) for(int v:val){ if(enc[i]==v) continue; std::vector<uint8_t> e(enc); e[i]=uint8_t(v);
    if(rd(e,n,out,r)&&(r<4||r>n)) return fail("de_serialize returns "+std::to_string(r)+" for a corrupted buffer of "+std::to_string(n)+" bytes (byte "+std::to_string(i)+" = "+std::to_string(v)+")");
    if(out.find("BADTAG")!=string::npos) return fail("de_serialize leaves an invalid type (byte "+std::to_string(i)+" = "+std::to_string(v)+")"); }
  return true;
}
int main(int c,char**v){
  bool full=c>1&&v[1][0]=='f'; string l; long k=0;
  while(std::getline(std::cin,l)){ std::cout<<"begin "<<k<<std::endl; bool ok; calls=0;
    try{ ok=one(l,full); } catch(std::exception const&e){ ok=fail(string("unexpected exception ")+e.what()); }
    if(ok) std::cout<<"ok "<<calls<<std::endl; ++k; }
  return 0; }
