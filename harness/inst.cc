// Instantiates the inline and template members of the public header so that their bodies appear in the verified IR.
// It contains no logic of its own: every function below only names a member of the real header.
#include "GenericContainer/GenericContainer.hh"
#include <new>
using namespace GC_namespace;
using std::complex; using std::string; using std::string_view;
typedef GenericContainer GCn;
#define SETM(N,T) __attribute__((used)) void (GCn::*h_set_##N)(T) = &GCn::set; 
#define ASM(N,T)  __attribute__((used)) GCn & (GCn::*h_as_##N)(T) = &GCn::operator=;
#define CT(N,T)   void h_ct_##N(void *p,T a) { new (p) GCn(a); }
SETM(bool,bool const&) SETM(uint,uint_type const&) SETM(int,int_type const&) SETM(ulong,ulong_type const&) SETM(long,long_type const&)
SETM(float,float const&) SETM(double,double const&) SETM(cf,complex<float> const&) SETM(cd,complex<double> const&)
SETM(cstr,char const*) SETM(sv,string_view) SETM(ptr,pointer_type)
ASM(bool,bool const&) ASM(uint,uint_type const&) ASM(int,int_type const&) ASM(ulong,ulong_type const&) ASM(long,long_type const&)
ASM(float,float const&) ASM(double,double const&) ASM(cf,complex<float> const&) ASM(cd,complex<double> const&)
ASM(cstr,char const*) ASM(str,string const&) ASM(sv,string_view) ASM(ptr,pointer_type)
CT(bool,bool const&) CT(uint,uint_type const&) CT(int,int_type const&) CT(ulong,ulong_type const&) CT(long,long_type const&)
CT(float,float const&) CT(double,double const&) CT(cf,complex<float> const&) CT(cd,complex<double> const&)
CT(cstr,char const*) CT(str,string const&) CT(sv,string_view) CT(ptr,pointer_type) CT(gc,GCn const&)
void h_ct_def(void *p) { new (p) GCn(); }
void h_dt(GCn *p) { p->~GCn(); }
__attribute__((used)) GCn const & (GCn::*h_as_gc)(GCn const&) = &GCn::operator=;
__attribute__((used)) void (GCn::*h_load)(GCn const&) = &GCn::load;
__attribute__((used)) TypeAllowed (GCn::*h_get_type)() const = &GCn::get_type;
__attribute__((used)) string_view (GCn::*h_get_type_name)() const = &GCn::get_type_name;
__attribute__((used)) unsigned (GCn::*h_nr)() const = &GCn::get_numRows;
__attribute__((used)) unsigned (GCn::*h_nc)() const = &GCn::get_numCols;
typedef void * PV;
__attribute__((used)) PV & (GCn::*h_gp)() = &GCn::get_pointer<PV>;
__attribute__((used)) PV (GCn::*h_gpc)() const = &GCn::get_pointer<PV>;
__attribute__((used)) PV & (GCn::*h_gpa)(unsigned) = &GCn::get_pointer_at<PV>;
__attribute__((used)) PV (GCn::*h_gpac)(unsigned) const = &GCn::get_pointer_at<PV>;
#define GIE(N,T) __attribute__((used)) bool (GCn::*h_giev_##N)(vec_string_type const&, T&) const = &GCn::get_if_exists<T>; __attribute__((used)) bool (GCn::*h_giec_##N)(char const[], T&) const = &GCn::get_if_exists<T>;
GIE(int,int_type) GIE(uint,uint_type) GIE(long,long_type) GIE(ulong,ulong_type) GIE(real,real_type) GIE(cplx,complex_type) GIE(str,string_type)
__attribute__((used)) bool (GCn::*h_giec_bool)(char const[], bool&) const = &GCn::get_if_exists<bool>;
template class GC_namespace::mat_type<int_type>;
template class GC_namespace::mat_type<long_type>;
template class GC_namespace::mat_type<real_type>;
template class GC_namespace::mat_type<complex_type>;
