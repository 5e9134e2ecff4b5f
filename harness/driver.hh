// Runtime of the replay driver: builds containers in an arbitrary state, calls one real function, prints what happened.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <string_view>
#include <vector>
#include <map>
#include <complex>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <fstream>
#include <algorithm>
#include <limits>
#include <initializer_list>
#include <memory>
#include <functional>
#include <typeinfo>
#include <stdexcept>
#include <new>
#include <regex>
#include <set>
#include <cmath>
#include <mutex>
#include <type_traits>
#include <utility>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include "GenericContainer/GenericContainer.hh"
using namespace GC_namespace;
using std::string; using std::string_view;
typedef GenericContainer GCn;
typedef std::istringstream Tok;
static long g_live=0; static bool g_count=false;
void *operator new(size_t n){ void*p=malloc(n?n:1); if(!p) throw std::bad_alloc(); if(g_count) ++g_live; return p; }
void *operator new[](size_t n){ void*p=malloc(n?n:1); if(!p) throw std::bad_alloc(); if(g_count) ++g_live; return p; }
void operator delete(void*p) noexcept { if(p&&g_count) --g_live; free(p); }
void operator delete[](void*p) noexcept { if(p&&g_count) --g_live; free(p); }
void operator delete(void*p,size_t) noexcept { if(p&&g_count) --g_live; free(p); }
void operator delete[](void*p,size_t) noexcept { if(p&&g_count) --g_live; free(p); }

static string hx(string_view s){ static char const*d="0123456789abcdef"; string r="x"; for(unsigned char c:s){ r+=d[c>>4]; r+=d[c&15]; } return r; }
static string unhx(string const&t){ string r; for(size_t i=1;i+1<t.size();i+=2) r+=char(strtol(t.substr(i,2).c_str(),nullptr,16)); return r; }
template<class T> struct Rd;
static string word(Tok&t){ string s; t>>s; return s; }
static double bits(Tok&t){ string s=word(t); uint64_t u=strtoull(s.c_str(),nullptr,16); double d; memcpy(&d,&u,8); return d; }
template<> struct Rd<bool>{ static bool rd(Tok&t){ return word(t)=="1"; } };
template<> struct Rd<int>{ static int rd(Tok&t){ return int(strtoll(word(t).c_str(),nullptr,10)); } };
template<> struct Rd<unsigned>{ static unsigned rd(Tok&t){ return unsigned(strtoull(word(t).c_str(),nullptr,10)); } };
template<> struct Rd<long>{ static long rd(Tok&t){ return strtoll(word(t).c_str(),nullptr,10); } };
template<> struct Rd<unsigned long>{ static unsigned long rd(Tok&t){ return strtoull(word(t).c_str(),nullptr,10); } };
template<> struct Rd<unsigned char>{ static unsigned char rd(Tok&t){ return (unsigned char)strtoull(word(t).c_str(),nullptr,10); } };
template<> struct Rd<double>{ static double rd(Tok&t){ return bits(t); } };
template<> struct Rd<float>{ static float rd(Tok&t){ return float(bits(t)); } };
template<> struct Rd<void*>{ static void* rd(Tok&t){ return (void*)(uintptr_t)strtoull(word(t).c_str(),nullptr,10); } };
template<> struct Rd<string>{ static string rd(Tok&t){ return unhx(word(t)); } };
template<> struct Rd<std::complex<double>>{ static std::complex<double> rd(Tok&t){ double a=bits(t),b=bits(t); return {a,b}; } };
template<> struct Rd<std::complex<float>>{ static std::complex<float> rd(Tok&t){ float a=float(bits(t)),b=float(bits(t)); return {a,b}; } };
template<> struct Rd<GC_type>{ static GC_type rd(Tok&t){ return GC_type(Rd<int>::rd(t)); } };
template<class T> struct Rd<std::vector<T>>{ static std::vector<T> rd(Tok&t){ size_t n=Rd<unsigned long>::rd(t); std::vector<T> v; v.reserve(n); for(size_t i=0;i<n;++i) v.push_back(Rd<T>::rd(t)); return v; } };
template<class T> struct Rd<mat_type<T>>{ static mat_type<T> rd(Tok&t){ unsigned r=Rd<unsigned>::rd(t),c=Rd<unsigned>::rd(t); mat_type<T> m; std::vector<T> v=Rd<std::vector<T>>::rd(t); static_cast<std::vector<T>&>(m)=v; m.m_num_rows=r; m.m_num_cols=c; return m; } };
static void rdgc(Tok&t,GCn&g);
template<> struct Rd<GCn>{ static GCn rd(Tok&t){ GCn g; rdgc(t,g); return g; } };
static void rdgc(Tok&t,GCn&g){
  int T=Rd<int>::rd(t); g.m_data_type=GC_type(T);
  switch(T){
  case 0: break;
  case 1: g.m_data.p=Rd<void*>::rd(t); break;
  case 2: g.m_data.b=Rd<bool>::rd(t); break;
  case 3: g.m_data.i=Rd<int>::rd(t); break;
  case 4: g.m_data.l=Rd<long>::rd(t); break;
  case 5: g.m_data.r=Rd<double>::rd(t); break;
  case 6: g.m_data.c=new complex_type(Rd<complex_type>::rd(t)); break;
  case 7: g.m_data.s=new string_type(Rd<string>::rd(t)); break;
  case 8: g.m_data.v_p=new vec_pointer_type(Rd<vec_pointer_type>::rd(t)); break;
  case 9: g.m_data.v_b=new vec_bool_type(Rd<vec_bool_type>::rd(t)); break;
  case 10: g.m_data.v_i=new vec_int_type(Rd<vec_int_type>::rd(t)); break;
  case 11: g.m_data.v_l=new vec_long_type(Rd<vec_long_type>::rd(t)); break;
  case 12: g.m_data.v_r=new vec_real_type(Rd<vec_real_type>::rd(t)); break;
  case 13: g.m_data.v_c=new vec_complex_type(Rd<vec_complex_type>::rd(t)); break;
  case 14: g.m_data.v_s=new vec_string_type(Rd<vec_string_type>::rd(t)); break;
  case 15: g.m_data.m_i=new mat_int_type(Rd<mat_int_type>::rd(t)); break;
  case 16: g.m_data.m_l=new mat_long_type(Rd<mat_long_type>::rd(t)); break;
  case 17: g.m_data.m_r=new mat_real_type(Rd<mat_real_type>::rd(t)); break;
  case 18: g.m_data.m_c=new mat_complex_type(Rd<mat_complex_type>::rd(t)); break;
  case 19: { size_t n=Rd<unsigned long>::rd(t); g.m_data.v=new vector_type(n); for(size_t i=0;i<n;++i) rdgc(t,(*g.m_data.v)[i]); } break;
  case 20: { size_t n=Rd<unsigned long>::rd(t); g.m_data.m=new map_type(); for(size_t i=0;i<n;++i){ string k=Rd<string>::rd(t); rdgc(t,(*g.m_data.m)[k]); } } break;
  default: fprintf(stderr,"bad tag\n"); _exit(90);
  }
}
// ---------------------------------------------------------------- output
static string g_out;
static void o(string const&s){ g_out+=s; g_out+=' '; }
static void wb(double d){ uint64_t u; memcpy(&u,&d,8); char b[32]; snprintf(b,32,"%llx",(unsigned long long)u); o(b); }
static void wr(bool x){ o(x?"1":"0"); }
static void wr(int x){ o(std::to_string(x)); }
static void wr(unsigned x){ o(std::to_string(x)); }
static void wr(long x){ o(std::to_string(x)); }
static void wr(unsigned long x){ o(std::to_string(x)); }
static void wr(unsigned char x){ o(std::to_string(unsigned(x))); }
static void wr(double x){ wb(x); }
static void wr(float x){ wb(double(x)); }
static void wr(void*x){ o(std::to_string((unsigned long)(uintptr_t)x)); }
static void wr(void const*x){ o(std::to_string((unsigned long)(uintptr_t)x)); }
static void wr(string const&x){ o(hx(x)); }
static void wr(string_view x){ o(hx(x)); }
static void wr(char const*x){ o(hx(x)); }
static void wr(std::complex<double> const&x){ wb(x.real()); wb(x.imag()); }
static void wr(std::complex<float> const&x){ wb(x.real()); wb(x.imag()); }
static void wr(GC_type x){ wr(int(x)); }
static void wr(GCn const&g);
template<class T> static void wr(std::vector<T> const&v){ wr((unsigned long)v.size()); for(size_t i=0;i<v.size();++i) wr((T)v[i]); }
static void wr(vector_type const&v){ wr((unsigned long)v.size()); for(auto const&e:v) wr(e); }
static void wr(map_type const&v){ wr((unsigned long)v.size()); for(auto const&e:v){ wr(e.first); wr(e.second); } }
template<class T> static void wr(mat_type<T> const&m){ wr(m.m_num_rows); wr(m.m_num_cols); wr(static_cast<std::vector<T> const&>(m)); }
static void wr(GCn const&g){
  int T=int(g.m_data_type); wr(T);
  switch(T){
  case 0: break;
  case 1: wr(g.m_data.p); break;
  case 2: { unsigned char b; memcpy(&b,&g.m_data,1); wr(unsigned(b)); } break;
  case 3: wr(g.m_data.i); break;
  case 4: wr(g.m_data.l); break;
  case 5: wr(g.m_data.r); break;
  case 6: wr(*g.m_data.c); break;
  case 7: wr(*g.m_data.s); break;
  case 8: wr(*g.m_data.v_p); break;
  case 9: wr(*g.m_data.v_b); break;
  case 10: wr(*g.m_data.v_i); break;
  case 11: wr(*g.m_data.v_l); break;
  case 12: wr(*g.m_data.v_r); break;
  case 13: wr(*g.m_data.v_c); break;
  case 14: wr(*g.m_data.v_s); break;
  case 15: wr(*g.m_data.m_i); break;
  case 16: wr(*g.m_data.m_l); break;
  case 17: wr(*g.m_data.m_r); break;
  case 18: wr(*g.m_data.m_c); break;
  case 19: wr(*g.m_data.v); break;
  case 20: wr(*g.m_data.m); break;
  default: o("BADTAG"); break;
  }
}
// ---------------------------------------------------------------- locations
struct Loc { string s; };
static std::vector<std::pair<string,void const*>> g_args; static GCn *g_self=nullptr;
template<class V> static bool inv(V const&v,void const*p,string&r){ for(size_t i=0;i<=v.size();++i) if(v.data()+i==p && (i<v.size()||i==0)){ r="elem:"+std::to_string(i); return true; } return false; }
static string locin(GCn const&g,void const*p){
  string r;
  if(p==(void const*)&g) return "self";
  int T=int(g.m_data_type);
  if(T>=6 && T<=20 && p==(void const*)g.m_data.p) return "payload";
  switch(T){
  case 8: if(inv(*g.m_data.v_p,p,r)) return r; break;
  case 10: if(inv(*g.m_data.v_i,p,r)) return r; break;
  case 11: if(inv(*g.m_data.v_l,p,r)) return r; break;
  case 12: if(inv(*g.m_data.v_r,p,r)) return r; break;
  case 13: if(inv(*g.m_data.v_c,p,r)) return r; break;
  case 14: if(inv(*g.m_data.v_s,p,r)) return r; break;
  case 15: if(inv(*g.m_data.m_i,p,r)) return r; break;
  case 16: if(inv(*g.m_data.m_l,p,r)) return r; break;
  case 17: if(inv(*g.m_data.m_r,p,r)) return r; break;
  case 18: if(inv(*g.m_data.m_c,p,r)) return r; break;
  case 19: if(inv(*g.m_data.v,p,r)) return r;
           for(size_t i=0;i<g.m_data.v->size();++i){ string q=locin((*g.m_data.v)[i],p); if(!q.empty()) return "in:"+std::to_string(i)+":"+q; } break;
  case 20: for(auto const&e:*g.m_data.m){ if(p==(void const*)&e.second) return "map:"+hx(e.first); string q=locin(e.second,p); if(!q.empty()) return "inm:"+hx(e.first)+":"+q; } break;
  }
  return "";
}
template<class V> static string argvec(V const&v,void const*p){ string r; if(inv(v,p,r)) return r; return ""; }
static std::vector<std::function<string(void const*)>> g_finders;
static string loc(void const*p){
  if(!p) return "null";
  if(g_self){ string r=locin(*g_self,p); if(!r.empty()) return r; }
  for(auto&a:g_args) if(a.second==p) return a.first;
  for(auto&f:g_finders){ string r=f(p); if(!r.empty()) return r; }
  return "other";
}
template<class T> static void ret_ref(T const&x){ o("ref"); o(loc(&x)); }
template<class T> static void ret_ptr(T const*x){ o("ref"); o(loc(x)); }
struct RetV { };
#define VALRET(T) static void ret_val(T x){ o("val"); wr(x); }
VALRET(bool) VALRET(int) VALRET(unsigned) VALRET(long) VALRET(unsigned long) VALRET(double) VALRET(float) VALRET(string) VALRET(string_view) VALRET(std::complex<double>) VALRET(GC_type)
template<class T> static void ret_val(std::vector<T> const&x){ o("val"); wr(x); }
static void ret_val(void*x){ string l=loc(x); if(l=="other"||l=="null"){ o("val"); wr(x);} else { o("ref"); o(l);} }
static void ret_val(char const*x){ o("val"); wr(x); }
template<class T> static void ret_val(T*x){ ret_ptr(x); }
static void ret_val(std::vector<bool>::reference const&r){ o("bit"); string l="other"; if(g_self && int(g_self->m_data_type)==9){ auto&v=*g_self->m_data.v_b; for(size_t i=0;i<v.size();++i){ auto q=v[i]; if(q._M_p==r._M_p && q._M_mask==r._M_mask) l="elem:"+std::to_string(i); } } o(l); }
#define CALL(E) do { typedef decltype(E) R_; fin<R_>([&]()->R_ { return E; }); } while(0)
template<class R,class F> static void fin(F f){
  int code=0; g_live=0; g_count=true;
  try {
    if constexpr(std::is_void<R>::value){ f(); g_count=false; g_out="ret "; o("void"); g_count=true; }
    else if constexpr(std::is_reference<R>::value){ auto&& x=f(); g_count=false; g_out="ret "; ret_ref(x); g_count=true; }
    else { R x=f(); g_count=false; g_out="ret "; ret_val(x); g_count=true; }
  }
  catch(std::runtime_error const&){ code=1; }
  catch(std::exception const&){ code=2; }
  catch(...){ code=3; }
  g_count=false;
  if(code) g_out=code==1?"throw runtime ":code==2?"throw std ":"throw other ";
}
struct Buf { char*p; size_t n; Buf(string const&s,bool nul):p((char*)malloc(s.size()+(nul?1:0)+(s.empty()&&!nul))),n(s.size()){ memcpy(p,s.data(),s.size()); if(nul) p[n]=0; } ~Buf(){ free(p);} string_view sv()const{ return string_view(p,n);} };
template<class T> struct IL { std::vector<T> v; std::initializer_list<T> il() const { struct { T const*p; size_t n; } x{v.data(),v.size()}; std::initializer_list<T> r; static_assert(sizeof(x)==sizeof(r),""); memcpy((void*)&r,&x,sizeof(r)); return r; } };
// allocations owned by a value (used to detect storage lost by the call)
static long owned(GCn const&g);
static long owned_s(string const&s){ return (s.data()>=(char const*)&s && s.data()<(char const*)(&s+1))?0:1; }
template<class T> static long owned_v(std::vector<T> const&v){ return v.capacity()?1:0; }
static long owned(GCn const&g){
  switch(int(g.m_data_type)){
  case 6: return 1; case 7: return 1+owned_s(*g.m_data.s);
  case 8: return 1+owned_v(*g.m_data.v_p); case 9: return 1+owned_v(*g.m_data.v_b); case 10: return 1+owned_v(*g.m_data.v_i); case 11: return 1+owned_v(*g.m_data.v_l);
  case 12: return 1+owned_v(*g.m_data.v_r); case 13: return 1+owned_v(*g.m_data.v_c);
  case 14: { long n=1+owned_v(*g.m_data.v_s); for(auto&s:*g.m_data.v_s) n+=owned_s(s); return n; }
  case 15: return 1+owned_v(*g.m_data.m_i); case 16: return 1+owned_v(*g.m_data.m_l); case 17: return 1+owned_v(*g.m_data.m_r); case 18: return 1+owned_v(*g.m_data.m_c);
  case 19: { long n=1+owned_v(*g.m_data.v); for(auto&s:*g.m_data.v) n+=owned(s); return n; }
  case 20: { long n=1; for(auto&s:*g.m_data.m) n+=1+owned_s(s.first)+owned(s.second); return n; }
  }
  return 0;
}

static long owned(string const&s){ return owned_s(s); }
template<class T> static long owned(std::vector<T> const&v){ return owned_v(v); }
static long owned(std::vector<string> const&v){ long n=owned_v(v); for(auto&s:v) n+=owned_s(s); return n; }
template<class T> static long owned(mat_type<T> const&v){ return owned_v(static_cast<std::vector<T> const&>(v)); }
template<class T> static long owned(T const&){ return 0; }
typedef void (*Fn)(Tok&);
static void runner(Fn f,string const&line){
  fflush(stdout);
  pid_t p=fork();
  if(p==0){
    alarm(5); struct rlimit rl{20,20}; setrlimit(RLIMIT_CPU,&rl);
    Tok t(line); f(t); g_out+='\n';
    size_t k=0; while(k<g_out.size()){ ssize_t w=write(1,g_out.data()+k,g_out.size()-k); if(w<=0) break; k+=size_t(w); }
    _exit(0);
  }
  int st=0; waitpid(p,&st,0);
  if(WIFEXITED(st)&&WEXITSTATUS(st)==0) return;
  if(WIFSIGNALED(st)) printf("crash signal %d\n",WTERMSIG(st)); else printf("crash exit %d\n",WEXITSTATUS(st));
  fflush(stdout);
}
