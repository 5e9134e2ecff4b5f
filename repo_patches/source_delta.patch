From 291e562163898fe696a1eb621c05f4a10a808e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:54 +0000
Subject: [PATCH 01/25] fix: assigning an empty vector to a container of the
 same type left the old elements in place

---
 src/GenericContainer.cc | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 039ae28..68885e3 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -338,42 +338,42 @@ namespace GC_namespace {
   GenericContainer &
   GenericContainer::operator = ( vec_bool_type const & a ) {
     set_vec_bool( static_cast<unsigned>(a.size()) );
-    std::copy( a.begin(), a.end(), m_data.v_b->begin() );
+    *m_data.v_b = a;
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_int_type const & a ) {
     set_vec_int( static_cast<unsigned>(a.size()) );
-    std::copy( a.begin(), a.end(), m_data.v_i->begin() );
+    *m_data.v_i = a;
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_long_type const & a ) {
     set_vec_long( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_l->begin() );
+    *m_data.v_l = a;
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_real_type const & a ) {
     set_vec_real( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_r->begin() );
+    *m_data.v_r = a;
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_complex_type const & a ) {
     set_vec_complex( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_c->begin() );
+    *m_data.v_c = a;
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_string_type const & a ) {
     set_vec_string( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_s->begin() );
+    *m_data.v_s = a;
     return *this;
   }
 
@@ -992,7 +992,7 @@ namespace GC_namespace {
   vec_pointer_type &
   GenericContainer::set_vec_pointer( vec_pointer_type const & v ) {
     allocate_vec_pointer( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_p->begin() );
+    *m_data.v_p = v;
     return *m_data.v_p;
   }
 
@@ -1004,7 +1004,7 @@ namespace GC_namespace {
   vec_bool_type &
   GenericContainer::set_vec_bool( vec_bool_type const & v ) {
     allocate_vec_bool( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_b->begin() );
+    *m_data.v_b = v;
     return *m_data.v_b;
   }
 
@@ -1017,7 +1017,7 @@ namespace GC_namespace {
   vec_int_type &
   GenericContainer::set_vec_int( vec_int_type const & v ) {
     allocate_vec_int( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_i->begin() );
+    *m_data.v_i = v;
     return *m_data.v_i;
   }
 
@@ -1030,7 +1030,7 @@ namespace GC_namespace {
   vec_long_type &
   GenericContainer::set_vec_long( vec_long_type const & v ) {
     allocate_vec_long( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_l->begin() );
+    *m_data.v_l = v;
     return *m_data.v_l;
   }
 
@@ -1043,7 +1043,7 @@ namespace GC_namespace {
   vec_real_type &
   GenericContainer::set_vec_real( vec_real_type const & v ) {
     allocate_vec_real( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_r->begin() );
+    *m_data.v_r = v;
     return *m_data.v_r;
   }
 
@@ -1056,7 +1056,7 @@ namespace GC_namespace {
   vec_complex_type &
   GenericContainer::set_vec_complex( vec_complex_type const & v ) {
     allocate_vec_complex( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_c->begin() );
+    *m_data.v_c = v;
     return *m_data.v_c;
   }
 
@@ -1121,7 +1121,7 @@ namespace GC_namespace {
   vec_string_type &
   GenericContainer::set_vec_string( vec_string_type const & v ) {
     allocate_vec_string( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_s->begin() );
+    *m_data.v_s = v;
     return *m_data.v_s;
   }
 
-- 
2.43.0


From f1e8560bd2a362fd6db0bff96fc2541d8b0db16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:09 +0000
Subject: [PATCH 02/25] fix: get_number_at and get_complex_number_at read past
 the end for an index out of range

---
 src/GenericContainer.cc | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 68885e3..83bd839 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -1941,14 +1941,14 @@ namespace GC_namespace {
   real_type
   GenericContainer::get_number_at( unsigned const i, string_view const where ) const {
     switch (m_data_type) {
-    case GC_type::VEC_BOOL:    return (*m_data.v_b)[i] ? 1 : 0;
-    case GC_type::VEC_INTEGER: return (*m_data.v_i)[i];
-    case GC_type::VEC_LONG:    return (*m_data.v_l)[i];
-    case GC_type::VEC_REAL:    return (*m_data.v_r)[i];
-    case GC_type::MAT_INTEGER: return (*m_data.m_i)[i];
-    case GC_type::MAT_LONG:    return (*m_data.m_l)[i];
-    case GC_type::MAT_REAL:    return (*m_data.m_r)[i];
-    case GC_type::VECTOR:      return (*m_data.v)[i].get_number();
+    case GC_type::VEC_BOOL:    return m_data.v_b->at(i) ? 1 : 0;
+    case GC_type::VEC_INTEGER: return m_data.v_i->at(i);
+    case GC_type::VEC_LONG:    return m_data.v_l->at(i);
+    case GC_type::VEC_REAL:    return m_data.v_r->at(i);
+    case GC_type::MAT_INTEGER: return m_data.m_i->at(i);
+    case GC_type::MAT_LONG:    return m_data.m_l->at(i);
+    case GC_type::MAT_REAL:    return m_data.m_r->at(i);
+    case GC_type::VECTOR:      return m_data.v->at(i).get_number();
     case GC_type::NOTYPE:
     case GC_type::POINTER:
     case GC_type::BOOL:
@@ -1973,16 +1973,16 @@ namespace GC_namespace {
   complex_type
   GenericContainer::get_complex_number_at( unsigned const i, string_view const where ) const {
     switch (m_data_type) {
-    case GC_type::VEC_BOOL:    return {static_cast<real_type>( (*m_data.v_b)[i]?1:0 ),0};
-    case GC_type::VEC_INTEGER: return {static_cast<real_type>( (*m_data.v_i)[i] ),0};
-    case GC_type::VEC_LONG:    return {static_cast<real_type>( (*m_data.v_l)[i] ),0};
-    case GC_type::VEC_REAL:    return {(*m_data.v_r)[i],0};
-    case GC_type::VEC_COMPLEX: return (*m_data.v_c)[i];
-    case GC_type::MAT_INTEGER: return {static_cast<real_type>( (*m_data.m_i)[i] ),0};
-    case GC_type::MAT_LONG:    return {static_cast<real_type>( (*m_data.m_l)[i] ),0};
-    case GC_type::MAT_REAL:    return {(*m_data.m_r)[i],0};
-    case GC_type::MAT_COMPLEX: return (*m_data.m_c)[i];
-    case GC_type::VECTOR:      return (*m_data.v)[i].get_complex_number();
+    case GC_type::VEC_BOOL:    return {static_cast<real_type>( m_data.v_b->at(i)?1:0 ),0};
+    case GC_type::VEC_INTEGER: return {static_cast<real_type>( m_data.v_i->at(i) ),0};
+    case GC_type::VEC_LONG:    return {static_cast<real_type>( m_data.v_l->at(i) ),0};
+    case GC_type::VEC_REAL:    return {m_data.v_r->at(i),0};
+    case GC_type::VEC_COMPLEX: return m_data.v_c->at(i);
+    case GC_type::MAT_INTEGER: return {static_cast<real_type>( m_data.m_i->at(i) ),0};
+    case GC_type::MAT_LONG:    return {static_cast<real_type>( m_data.m_l->at(i) ),0};
+    case GC_type::MAT_REAL:    return {m_data.m_r->at(i),0};
+    case GC_type::MAT_COMPLEX: return m_data.m_c->at(i);
+    case GC_type::VECTOR:      return m_data.v->at(i).get_complex_number();
     case GC_type::NOTYPE:
     case GC_type::POINTER:
     case GC_type::BOOL:
-- 
2.43.0


From 29bceef4a92795f662456ab7989ffaa9abc9ac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:27 +0000
Subject: [PATCH 03/25] fix: promoting a vector to an integer, long or complex
 matrix wrote through the wrong matrix type

---
 src/GenericContainerPromote.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 4368a21..2db60cc 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -1571,7 +1571,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_int(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
-          (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
+          (*m_data.m_i)(i,0) = ((*v_b)[i]?1:0);
         delete v_b;
       }
       break;
@@ -1580,7 +1580,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_int(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
-          (*m_data.m_r)(i,0) = static_cast<real_type>((*v_i)[i]);
+          (*m_data.m_i)(i,0) = (*v_i)[i];
         delete v_i;
       }
       break;
@@ -1627,9 +1627,9 @@ namespace GC_namespace {
     case GC_type::VEC_BOOL:
       { vec_bool_type const * v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
-        set_mat_real(static_cast<unsigned>(v_b->size()),1);
+        set_mat_long(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
-          (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
+          (*m_data.m_l)(i,0) = ((*v_b)[i]?1:0);
         delete v_b;
       }
       break;
@@ -1810,7 +1810,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
-          (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
+          (*m_data.m_c)(i,0) = ((*v_b)[i]?1:0);
         delete v_b;
       }
       break;
@@ -1819,7 +1819,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
-          (*m_data.m_r)(i,0) = static_cast<real_type>((*v_i)[i]);
+          (*m_data.m_c)(i,0) = static_cast<real_type>((*v_i)[i]);
         delete v_i;
       }
       break;
@@ -1828,7 +1828,7 @@ namespace GC_namespace {
        m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_l->size()),1);
         for ( unsigned i{0}; i < v_l->size(); ++i )
-          (*m_data.m_r)(i,0) = static_cast<real_type>((*v_l)[i]);
+          (*m_data.m_c)(i,0) = static_cast<real_type>((*v_l)[i]);
         delete v_l;
       }
       break;
@@ -1837,7 +1837,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_r->size()),1);
         for ( unsigned i{0}; i < v_r->size(); ++i )
-          (*m_data.m_r)(i,0) = (*v_r)[i];
+          (*m_data.m_c)(i,0) = (*v_r)[i];
         delete v_r;
       }
       break;
-- 
2.43.0


From f090e98f571e345d61deb0d3f21b3fef5e07a34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:38 +0000
Subject: [PATCH 04/25] fix: promote_to_vector of a scalar read the value after
 it had been overwritten

---
 src/GenericContainerPromote.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 2db60cc..46227d8 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -1890,25 +1890,25 @@ namespace GC_namespace {
       { set_vector(1); (*this)[0].clear(); } // set data to no type
       break;
     case GC_type::POINTER:
-      { set_vector(1); (*this)[0] = m_data.p; }
+      { pointer_type tmp{m_data.p}; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::BOOL:
-      { set_vector(1); (*this)[0] = m_data.b; }
+      { bool_type const tmp{m_data.b}; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::INTEGER:
-      { set_vector(1); (*this)[0] = m_data.i; }
+      { int_type const tmp{m_data.i}; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::LONG:
-      { set_vector(1); (*this)[0] = m_data.l; }
+      { long_type const tmp{m_data.l}; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::REAL:
-      { set_vector(1); (*this)[0] = m_data.r; }
+      { real_type const tmp{m_data.r}; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::COMPLEX:
-      { set_vector(1); (*this)[0] = *m_data.c; }
+      { complex_type const tmp{*m_data.c}; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::STRING:
-      { set_vector(1); (*this)[0] = *m_data.s; }
+      { string_type const tmp{*m_data.s}; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::VEC_POINTER:
       { vec_pointer_type const * v_p{m_data.v_p};
-- 
2.43.0


From 584a0f54b94e5de671343e4704728e44bf27fb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:45 +0000
Subject: [PATCH 05/25] fix: get_value truncated or overflowed numbers that the
 requested integer type cannot hold

---
 src/GenericContainer.cc | 45 ++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 83bd839..d3a4579 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -24,6 +24,7 @@
 #include "GenericContainer/GenericContainer.hh"
 #include <iomanip>
 #include <cmath>
+#include <limits>
 
 #ifdef __clang__
 #pragma clang diagnostic ignored "-Wc++98-compat"
@@ -59,6 +60,13 @@ static bool isInteger( real_type const x )
 static bool isUnsigned( real_type const x )
 { return isInteger(x) && x >= 0; }
 
+// true if the integer value stored in x can be represented with type T
+template <typename T>
+static bool isInRange( real_type const x ) {
+  constexpr real_type half{ std::numeric_limits<T>::max()/2+1 };
+  return x >= static_cast<real_type>(std::numeric_limits<T>::min()) && x < 2*half;
+}
+
 #endif
 
 namespace GC_namespace {
@@ -1562,23 +1570,24 @@ namespace GC_namespace {
       break;
     case GC_type::LONG:
       GC_ASSERT(
-        m_data.l >= 0,
-        where << " in get_value(...) negative `long` value '" << m_data.l
+        m_data.l >= 0 && m_data.l <= static_cast<long_type>(std::numeric_limits<uint_type>::max()),
+        where << " in get_value(...) negative or too large `long` value '" << m_data.l
               << "' cannot be converted into `uint_type'"
       )
       v = static_cast<unsigned>(m_data.l);
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        m_data.r >= 0 && isUnsigned(m_data.r),
-        where << " in get_value(...) negative or fractional `real` value '" << m_data.r
+        isUnsigned(m_data.r) && isInRange<uint_type>(m_data.r),
+        where << " in get_value(...) negative, fractional or too large `real` value '" << m_data.r
               << "' cannot be converted into `uint_type'"
       )
       v = static_cast<unsigned>(m_data.r);
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isUnsigned(m_data.c->real()),
+        isZero0(m_data.c->imag()) && isUnsigned(m_data.c->real()) &&
+        isInRange<uint_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value = "
               << to_string(*m_data.c) << " cannot be converted into `uint_type'"
       )
@@ -1618,19 +1627,25 @@ namespace GC_namespace {
       v = m_data.i;
       break;
     case GC_type::LONG:
+      GC_ASSERT(
+        m_data.l >= std::numeric_limits<int_type>::min() && m_data.l <= std::numeric_limits<int_type>::max(),
+        where << " in get_value(...) too large `long` value '" << m_data.l
+              << "' cannot be converted into `int_type'"
+      )
       v = static_cast<int>(m_data.l);
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        isInteger(m_data.r),
-        where << " in get_value(...) fractional `real` value '" << m_data.r
+        isInteger(m_data.r) && isInRange<int_type>(m_data.r),
+        where << " in get_value(...) fractional or too large `real` value '" << m_data.r
               << "' cannot be converted into `int_type'"
       )
       v = static_cast<int>(m_data.r);
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isInteger(m_data.c->real()),
+        isZero0(m_data.c->imag()) && isInteger(m_data.c->real()) &&
+        isInRange<int_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value = "
               << to_string(*m_data.c) << " cannot be converted into `int_type'"
       )
@@ -1684,15 +1699,16 @@ namespace GC_namespace {
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        m_data.r >= 0 && isUnsigned(m_data.r),
-        where << " in get_value(...) negative or fractional `real` value '" << m_data.r
+        isUnsigned(m_data.r) && isInRange<ulong_type>(m_data.r),
+        where << " in get_value(...) negative, fractional or too large `real` value '" << m_data.r
               << "' cannot be converted into `ulong_type'"
       )
       v = static_cast<ulong_type>(m_data.r);
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isUnsigned(m_data.c->real()),
+        isZero0(m_data.c->imag()) && isUnsigned(m_data.c->real()) &&
+        isInRange<ulong_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value "
               << to_string(*m_data.c) << " cannot be converted into `ulong_type'"
       )
@@ -1737,15 +1753,16 @@ namespace GC_namespace {
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        isInteger(m_data.r),
-        where << " in get_value(...) fractional `real` value '" << m_data.r
+        isInteger(m_data.r) && isInRange<long_type>(m_data.r),
+        where << " in get_value(...) fractional or too large `real` value '" << m_data.r
               << "' cannot be converted into `long_type'"
       )
       v = static_cast<long>(m_data.r);
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isInteger(m_data.c->real()),
+        isZero0(m_data.c->imag()) && isInteger(m_data.c->real()) &&
+        isInRange<long_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value = "
               << to_string(*m_data.c) << " cannot be converted into `long_type'"
       )
-- 
2.43.0


From 121dc23979f1447f04c658ac5035ec420718a47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:02 +0000
Subject: [PATCH 06/25] fix: get_if_exists stored a truncated number instead of
 returning false when the value does not fit

---
 src/GenericContainer.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index d3a4579..f11b19c 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2636,14 +2636,17 @@ namespace GC_namespace {
       value = iv->second.m_data.i;
       break;
     case GC_type::LONG:
+      if ( iv->second.m_data.l < std::numeric_limits<int_type>::min() ||
+           iv->second.m_data.l > std::numeric_limits<int_type>::max() ) return false;
       value = static_cast<int_type>(iv->second.m_data.l);
       break;
     case GC_type::REAL:
-      if ( !isInteger(iv->second.m_data.r) ) return false;
+      if ( ! ( isInteger(iv->second.m_data.r) && isInRange<int_type>(iv->second.m_data.r) ) ) return false;
       value = static_cast<int_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
       if ( ! ( isInteger(iv->second.m_data.c->real()) &&
+               isInRange<int_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<int_type>(iv->second.m_data.c->real());
       break;
@@ -2687,15 +2690,17 @@ namespace GC_namespace {
       value = static_cast<uint_type>(iv->second.m_data.i);
       break;
     case GC_type::LONG:
-      if ( iv->second.m_data.l < 0 ) return false;
+      if ( iv->second.m_data.l < 0 ||
+           iv->second.m_data.l > static_cast<long_type>(std::numeric_limits<uint_type>::max()) ) return false;
       value = static_cast<uint_type>(iv->second.m_data.l);
       break;
     case GC_type::REAL:
-      if ( ! isUnsigned(iv->second.m_data.r) ) return false;
+      if ( ! ( isUnsigned(iv->second.m_data.r) && isInRange<uint_type>(iv->second.m_data.r) ) ) return false;
       value = static_cast<uint_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
       if ( ! ( isUnsigned(iv->second.m_data.c->real()) &&
+               isInRange<uint_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<uint_type>(iv->second.m_data.c->real());
       break;
@@ -2741,11 +2746,12 @@ namespace GC_namespace {
       value = iv->second.m_data.l;
       break;
     case GC_type::REAL:
-      if ( ! isInteger(iv->second.m_data.r) ) return false;
+      if ( ! ( isInteger(iv->second.m_data.r) && isInRange<long_type>(iv->second.m_data.r) ) ) return false;
       value = static_cast<long_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
       if ( ! ( isInteger(iv->second.m_data.c->real()) &&
+               isInRange<long_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<long_type>(iv->second.m_data.c->real());
       break;
@@ -2793,11 +2799,12 @@ namespace GC_namespace {
       value = static_cast<ulong_type>(iv->second.m_data.l);
       break;
     case GC_type::REAL:
-      if ( ! isUnsigned(iv->second.m_data.r) ) return false;
+      if ( ! ( isUnsigned(iv->second.m_data.r) && isInRange<ulong_type>(iv->second.m_data.r) ) ) return false;
       value = static_cast<ulong_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
       if ( ! ( isUnsigned(iv->second.m_data.c->real()) &&
+               isInRange<ulong_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<ulong_type>(iv->second.m_data.c->real());
       break;
-- 
2.43.0


From 540d904277f3b4cf514f633ad39aedf7afa9c0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:16 +0000
Subject: [PATCH 07/25] fix: get_if_exists of a list of fields returned the
 payload of non boolean fields as a boolean

---
 src/GenericContainer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index f11b19c..283d9e2 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2610,7 +2610,7 @@ namespace GC_namespace {
     if ( m_data_type != GC_type::MAP ) return false;
     map_type & m = *m_data.m;
     for ( string_type const & field : fields ) {
-      if ( auto iv{ m.find(field) }; iv != m.end() && iv->second.m_data_type != GC_type::BOOL ) {
+      if ( auto iv{ m.find(field) }; iv != m.end() && iv->second.m_data_type == GC_type::BOOL ) {
         value = iv->second.m_data.b;
         return true;
       }
-- 
2.43.0


From 96c5975c6894b6cd8db946ba4c2ccf3d96f624b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:43 +0000
Subject: [PATCH 08/25] fix: map lookups with a string_view key ignored the
 length of the key

---
 src/GenericContainer.cc | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 283d9e2..dcfecbf 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2374,7 +2374,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_as_int( where );
+    return this->m_data.m->at(string(key)).get_as_int( where );
   }
 
   int_type
@@ -2406,7 +2406,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_number( where );
+    return this->m_data.m->at(string(key)).get_number( where );
   }
 
   real_type
@@ -2438,7 +2438,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_string( where );
+    return this->m_data.m->at(string(key)).get_string( where );
   }
 
   string_view
@@ -2470,7 +2470,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_vec_real( where );
+    return this->m_data.m->at(string(key)).get_vec_real( where );
   }
 
   vec_real_type const &
@@ -2502,7 +2502,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_vec_complex( where );
+    return this->m_data.m->at(string(key)).get_vec_complex( where );
   }
 
   vec_complex_type const &
@@ -2534,7 +2534,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_vec_string( where );
+    return this->m_data.m->at(string(key)).get_vec_string( where );
   }
 
   vec_string_type const &
@@ -2565,7 +2565,7 @@ namespace GC_namespace {
   bool
   GenericContainer::exists( string_view const s ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(s.data()) };
+    auto const iv{ m_data.m->find(string(s)) };
     return iv != m_data.m->end();
   }
 
@@ -2573,7 +2573,7 @@ namespace GC_namespace {
   GenericContainer::exists( vec_string_type const & vs ) const {
     if (m_data_type != GC_type::MAP) return false;
     return std::any_of(vs.begin(), vs.end(),
-      [this](string_type const & s) { return m_data.m->find(s.data()) != m_data.m->end(); }
+      [this](string_type const & s) { return m_data.m->find(s) != m_data.m->end(); }
     );
   }
   string
@@ -2595,7 +2595,7 @@ namespace GC_namespace {
   bool
   GenericContainer::get_if_exists( string_view const field, bool & value ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     if ( iv->second.m_data_type != GC_type::BOOL ) return false;
     value = iv->second.m_data.b;
@@ -2626,7 +2626,7 @@ namespace GC_namespace {
     int_type &        value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2679,7 +2679,7 @@ namespace GC_namespace {
     uint_type &       value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2733,7 +2733,7 @@ namespace GC_namespace {
     long_type &       value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2784,7 +2784,7 @@ namespace GC_namespace {
     ulong_type &      value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2837,7 +2837,7 @@ namespace GC_namespace {
     real_type &       value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2885,7 +2885,7 @@ namespace GC_namespace {
     complex_type &    value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2932,7 +2932,7 @@ namespace GC_namespace {
     string_type &     value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     if ( iv->second.m_data_type != GC_type::STRING ) return false;
     value = *iv->second.m_data.s;
@@ -3347,7 +3347,7 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    auto iv{ m_data.m->find(s.data()) };
+    auto iv{ m_data.m->find(string(s)) };
     if ( iv == m_data.m->end() ) {
       GC_DO_ERROR(
         where << " operator(): Cannot find key '" << s <<
@@ -3365,7 +3365,7 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    auto iv{ m_data.m->find(s.data()) };
+    auto iv{ m_data.m->find(string(s)) };
     if ( iv == m_data.m->end() ) {
       GC_DO_ERROR(
         where << "\noperator() const: Cannot find key '" << s <<
@@ -3421,7 +3421,7 @@ namespace GC_namespace {
   GenericContainer &
   GenericContainer::operator [] ( string_view const s ) {
     if ( ck( GC_type::MAP ) != 0 ) set_map(); // if not data present allocate!
-    return (*m_data.m)[s.data()];
+    return (*m_data.m)[string(s)];
   }
 
   GenericContainer const &
@@ -3432,7 +3432,7 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    return (*m_data.m)[s.data()];
+    return (*m_data.m)[string(s)];
   }
 
   /*
-- 
2.43.0


From 7f5c0c81fc21050a4dc178b11611ab3ea9cf4164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:33 +0000
Subject: [PATCH 09/25] fix: get_XXX_at(i,j) on an empty container built a
 matrix that does not contain (i,j), const versions checked the wrong bound

---
 src/GenericContainer.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index dcfecbf..1fc3f67 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2989,7 +2989,7 @@ namespace GC_namespace {
 
   int_type &
   GenericContainer::get_int_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_int(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ) promote_to_mat_int();
     GC_ASSERT(
@@ -3040,7 +3040,7 @@ namespace GC_namespace {
 
   long_type &
   GenericContainer::get_long_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_long(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ||
               m_data_type == GC_type::VEC_LONG ) promote_to_mat_long();
@@ -3090,7 +3090,7 @@ namespace GC_namespace {
 
   real_type &
   GenericContainer::get_real_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ||
               m_data_type == GC_type::VEC_LONG ||
@@ -3108,7 +3108,7 @@ namespace GC_namespace {
   GenericContainer::get_real_at( unsigned const i, unsigned const j, string_view const where ) const  {
     ck(where,GC_type::MAT_REAL);
     GC_ASSERT(
-      i < m_data.v_r->size(),
+      i < m_data.m_r->num_rows() && j < m_data.m_r->num_cols(),
       where << " get_real_at( " << i << ", " << j << " ) const, out of range"
     )
     return (*m_data.m_r)(i,j);
@@ -3142,7 +3142,7 @@ namespace GC_namespace {
 
   complex_type &
   GenericContainer::get_complex_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_complex(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_complex(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ||
               m_data_type == GC_type::VEC_LONG    ||
@@ -3161,6 +3161,10 @@ namespace GC_namespace {
   complex_type const &
   GenericContainer::get_complex_at( unsigned const i, unsigned const j, string_view const where ) const  {
     ck(where,GC_type::MAT_COMPLEX);
+    GC_ASSERT(
+      i < m_data.m_c->num_rows() && j < m_data.m_c->num_cols(),
+      where << " get_complex_at( " << i << ", " << j << " ) const, out of range"
+    )
     return (*m_data.m_c)(i,j);
   }
 
-- 
2.43.0


From 37c8ad38256ab1c5c934c1ea05cb985673402f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:51 +0000
Subject: [PATCH 10/25] fix: mat_type(i,j) returned an element of another
 column for a row index out of range

---
 src/GenericContainer.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 1fc3f67..711deba 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -142,6 +142,10 @@ namespace GC_namespace {
   template <typename TYPE>
   TYPE const &
   mat_type<TYPE>::operator () ( unsigned i, unsigned j ) const {
+    GC_ASSERT(
+      i < m_num_rows && j < m_num_cols,
+      "mat_type::operator() (" << i << ", " << j << ") index out of range, size = " << m_num_rows << " x " << m_num_cols
+    )
     try {
       return this->at(i+j*m_num_rows);
     } catch ( std::exception const & exc ) {
@@ -154,6 +158,10 @@ namespace GC_namespace {
   template <typename TYPE>
   TYPE &
   mat_type<TYPE>::operator () ( unsigned i, unsigned j ) {
+    GC_ASSERT(
+      i < m_num_rows && j < m_num_cols,
+      "mat_type::operator() (" << i << ", " << j << ") index out of range, size = " << m_num_rows << " x " << m_num_cols
+    )
     try {
       return this->at(i+j*m_num_rows);
     } catch ( std::exception const & exc ) {
-- 
2.43.0


From 92f03364fc3afd10d8622205b7d774320043aea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:23 +0000
Subject: [PATCH 11/25] fix: mat_type::data() took the address of the first
 element of an empty matrix

---
 include/GenericContainer/GenericContainer.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/GenericContainer/GenericContainer.hh b/include/GenericContainer/GenericContainer.hh
index 4faee7d..d84e2c3 100755
--- a/include/GenericContainer/GenericContainer.hh
+++ b/include/GenericContainer/GenericContainer.hh
@@ -406,7 +406,7 @@ namespace GC_namespace {
     //! int *dataPtr = matrix.data();  // Pointer to matrix data
     //! \endcode
     //!
-    TYPE * data() { return &vector<TYPE>::front(); }
+    TYPE * data() { return vector<TYPE>::data(); }
 
     //!
     //! Returns a constant pointer to the underlying data block of the matrix.
@@ -419,7 +419,7 @@ namespace GC_namespace {
     //! const int *dataPtr = matrix.data();  // Constant pointer to matrix data
     //! \endcode
     //!
-    TYPE const * data() const { return &vector<TYPE>::front(); }
+    TYPE const * data() const { return vector<TYPE>::data(); }
   };
 
   // ---------------------------------------------------------------------------
-- 
2.43.0


From 88f23d1803413241e7d23dc8582366bdd5b36bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:03 +0000
Subject: [PATCH 12/25] fix: comparing equal non empty vectors never terminated

---
 src/GenericContainer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 711deba..2833f97 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -433,7 +433,7 @@ namespace GC_namespace {
                << *it1 << " <> " << *it2 << '\n';
           break;
         }
-        ++i;
+        ++i; ++it1; ++it2;
       }
     } else {
       data << who << " size: " << A->size() << " <> " << B->size() << '\n';
-- 
2.43.0


From 9a9e83f5aba5c193538ae6a986ee87e239684ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:21 +0000
Subject: [PATCH 13/25] fix: compare_content of two real numbers also compared
 them as pointers

---
 src/GenericContainer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 2833f97..13240c6 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -494,6 +494,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         if ( m_data.r != gc.m_data.r )
           data << from << "real: " << m_data.r << " <> " << gc.m_data.r << '\n';
+        break;
       case GC_type::POINTER:
         if ( m_data.p != gc.m_data.p )
           data << from << "pointer: 0x" << std::hex << m_data.p << " <> 0x" <<  std::hex << gc.m_data.p << '\n';
-- 
2.43.0


From c97c3f6fe4c863a89a43fa85553a1c486163f017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:19 +0000
Subject: [PATCH 14/25] fix: copying a container kept old keys and elements of
 the target and failed when one contains the other

---
 src/GenericContainer.cc | 94 ++++++++++++-----------------------------
 1 file changed, 28 insertions(+), 66 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 13240c6..e865843 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3754,49 +3754,7 @@ namespace GC_namespace {
 
   void
   GenericContainer::to_gc( GenericContainer & gc ) const {
-    switch (m_data_type) {
-    case GC_type::NOTYPE:      gc.clear();                break;
-    case GC_type::BOOL:        gc = m_data.b;    break;
-    case GC_type::INTEGER:     gc = m_data.i;    break;
-    case GC_type::LONG:        gc = m_data.l;    break;
-    case GC_type::REAL:        gc = m_data.r;    break;
-    case GC_type::COMPLEX:     gc = *m_data.c;   break;
-    case GC_type::STRING:      gc = *m_data.s;   break;
-    case GC_type::VEC_BOOL:    gc = *m_data.v_b; break;
-    case GC_type::VEC_INTEGER: gc = *m_data.v_i; break;
-    case GC_type::VEC_LONG:    gc = *m_data.v_l; break;
-    case GC_type::VEC_REAL:    gc = *m_data.v_r; break;
-    case GC_type::VEC_STRING:  gc = *m_data.v_s; break;
-
-    case GC_type::VECTOR:
-      gc.set_vector();
-      { vector_type const & v{*m_data.v};
-        vector_type       & vv = gc.set_vector(v.size());
-        for ( vector_type::size_type i{0}; i < v.size(); ++i )
-          v[i].to_gc(vv[i]);
-      }
-      break;
-    case GC_type::MAP:
-      gc.set_map();
-      { map_type const & m{*m_data.m};
-        for ( const auto &[fst, snd] : m )
-          snd.to_gc(gc[fst]);
-      }
-      break;
-    case GC_type::MAT_INTEGER: gc = *m_data.m_i; break;
-    case GC_type::MAT_LONG:    gc = *m_data.m_l; break;
-    case GC_type::MAT_REAL:    gc = *m_data.m_r; break;
-    case GC_type::VEC_COMPLEX: gc = *m_data.v_c; break;
-    case GC_type::MAT_COMPLEX: gc = *m_data.m_c; break;
-    case GC_type::POINTER:     gc = this->get_pointer<void *>(); break;
-    case GC_type::VEC_POINTER:
-      { vec_pointer_type const & v  = this->get_vec_pointer();
-        vec_pointer_type       & vv = gc.set_vec_pointer(v.size());
-        for ( vec_pointer_type::size_type i{0}; i < v.size(); ++i )
-          vv[i] = v[i];
-      }
-      break;
-    }
+    gc.from_gc( *this );
   }
 
   /*
@@ -3810,85 +3768,89 @@ namespace GC_namespace {
 
   void
   GenericContainer::from_gc( GenericContainer const & gc ) {
+    // build the copy aside, gc can be a part of this container or vice versa
+    GenericContainer tmp;
     switch ( gc.get_type()) {
     case GC_type::NOTYPE:
-      this->clear();
+      tmp.clear();
       break;
     case GC_type::BOOL:
-      this->set_bool(gc.m_data.b);
+      tmp.set_bool(gc.m_data.b);
       break;
     case GC_type::INTEGER:
-      this->set_int(gc.m_data.i);
+      tmp.set_int(gc.m_data.i);
       break;
     case GC_type::LONG:
-      this->set_long(gc.m_data.l);
+      tmp.set_long(gc.m_data.l);
       break;
     case GC_type::REAL:
-      this->set_real(gc.m_data.r);
+      tmp.set_real(gc.m_data.r);
       break;
     case GC_type::COMPLEX:
-      this->set_complex(*gc.m_data.c);
+      tmp.set_complex(*gc.m_data.c);
       break;
     case GC_type::STRING:
-      this->set_string(*gc.m_data.s);
+      tmp.set_string(*gc.m_data.s);
       break;
     case GC_type::VEC_BOOL:
-      this->set_vec_bool(*gc.m_data.v_b);
+      tmp.set_vec_bool(*gc.m_data.v_b);
       break;
     case GC_type::VEC_INTEGER:
-      this->set_vec_int(*gc.m_data.v_i);
+      tmp.set_vec_int(*gc.m_data.v_i);
       break;
     case GC_type::VEC_LONG:
-      this->set_vec_long(*gc.m_data.v_l);
+      tmp.set_vec_long(*gc.m_data.v_l);
       break;
     case GC_type::VEC_REAL:
-      this->set_vec_real(*gc.m_data.v_r);
+      tmp.set_vec_real(*gc.m_data.v_r);
       break;
     case GC_type::VEC_STRING:
-      this->set_vec_string(*gc.m_data.v_s);
+      tmp.set_vec_string(*gc.m_data.v_s);
       break;
 
     case GC_type::VECTOR:
-      this->set_vector();
+      tmp.set_vector();
       { vector_type const & v{*gc.m_data.v};
-        vector_type       & vv = this->set_vector(v.size());
+        vector_type       & vv = tmp.set_vector(v.size());
         for ( vector_type::size_type i{0}; i < v.size(); ++i )
           vv[i].from_gc(v[i]);
       }
       break;
     case GC_type::MAP:
-      this->set_map();
+      tmp.set_map();
       { map_type const & m{*gc.m_data.m};
         for ( const auto &[fst, snd] : m )
-          (*this)[fst].from_gc(snd);
+          tmp[fst].from_gc(snd);
       }
       break;
     case GC_type::MAT_INTEGER:
-      this->set_mat_int(*gc.m_data.m_i);
+      tmp.set_mat_int(*gc.m_data.m_i);
       break;
     case GC_type::MAT_LONG:
-      this->set_mat_long(*gc.m_data.m_l);
+      tmp.set_mat_long(*gc.m_data.m_l);
       break;
     case GC_type::MAT_REAL:
-      this->set_mat_real(*gc.m_data.m_r);
+      tmp.set_mat_real(*gc.m_data.m_r);
       break;
     case GC_type::VEC_COMPLEX:
-      this->set_vec_complex(*gc.m_data.v_c);
+      tmp.set_vec_complex(*gc.m_data.v_c);
       break;
     case GC_type::MAT_COMPLEX:
-      this->set_mat_complex(*gc.m_data.m_c);
+      tmp.set_mat_complex(*gc.m_data.m_c);
       break;
     case GC_type::POINTER:
-      this->set_pointer( gc.get_pointer<void *>() );
+      tmp.set_pointer( gc.get_pointer<void *>() );
       break;
     case GC_type::VEC_POINTER:
       { vec_pointer_type const & v  = gc.get_vec_pointer();
-        vec_pointer_type       & vv = this->set_vec_pointer(v.size());
+        vec_pointer_type       & vv = tmp.set_vec_pointer(v.size());
         for ( vec_pointer_type::size_type i{0}; i < v.size(); ++i )
           vv[i] = v[i];
       }
       break;
     }
+    std::swap( m_data,      tmp.m_data );
+    std::swap( m_data_type, tmp.m_data_type );
   }
 
   //
-- 
2.43.0


From d9e1e98a291bb968950fe28c6736532e3385fc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:22 +0000
Subject: [PATCH 15/25] fix: serialization of a complex matrix fell through
 into the vector of strings case

---
 src/GenericContainerSerialize.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index c8b0958..7781283 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -327,6 +327,7 @@ namespace GC_namespace {
         nb = double_to_buffer( c.imag(), buffer, available );
         buffer += nb; available -= nb;
       }
+      break;
     case GC_type::VEC_STRING:
       nb = int32_to_buffer( static_cast<int32_t>(m_data.v_s->size()), buffer, available );
       buffer += nb; available -= nb;
@@ -522,6 +523,7 @@ namespace GC_namespace {
         sz = buffer_to_double( buffer, &bf ); c.imag(bf);
         nb += sz; buffer += sz; nbyte += sz;
       }
+      break;
     case GC_type::VEC_STRING:
       nb = buffer_to_int32( buffer, &i32 );
       buffer += nb; nbyte += nb;
-- 
2.43.0


From 4711e9435d275d9d9386ae670ab51ec621e75bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:25 +0000
Subject: [PATCH 16/25] fix: de_serialize skipped pointers without consuming
 their bytes

---
 src/GenericContainerSerialize.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index 7781283..0929119 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -381,6 +381,7 @@ namespace GC_namespace {
     this->clear();
 
     int32_t nr, nc, i32;
+    int64_t i64;
     nbyte = nb = buffer_to_int32( buffer, &i32 );
     buffer += nb;
 
@@ -411,6 +412,9 @@ namespace GC_namespace {
       buffer += nb; nbyte += nb;
       break;
     case GC_type::POINTER:
+      nb = buffer_to_int64( buffer, &i64 );
+      buffer += nb; nbyte += nb;
+      set_pointer( reinterpret_cast<void*>(i64) );
       break;
     case GC_type::STRING:
       nb = buffer_to_int32( buffer, &i32 );
@@ -427,6 +431,13 @@ namespace GC_namespace {
       buffer += nb; nbyte += nb;
       break;
     case GC_type::VEC_POINTER:
+      nb = buffer_to_int32( buffer, &i32 );
+      buffer += nb; nbyte += nb;
+      allocate_vec_pointer(i32);
+      for ( auto & ptr : *m_data.v_p ) {
+        sz = buffer_to_int64( buffer, &i64 ); ptr = reinterpret_cast<void*>(i64);
+        nb += sz; buffer += sz; nbyte += sz;
+      }
       break;
     case GC_type::VEC_BOOL:
       nb = buffer_to_int32( buffer, &i32 );
-- 
2.43.0


From 8c1986d45866e1aab0c514f6aa537073afb3680a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:28 +0000
Subject: [PATCH 17/25] fix: de_serialize cut strings and keys at the first NUL
 character

---
 src/GenericContainerSerialize.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index 0929119..ce0edd6 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -420,7 +420,7 @@ namespace GC_namespace {
       nb = buffer_to_int32( buffer, &i32 );
       buffer += nb; nbyte += nb;
       allocate_string();
-      *m_data.s = reinterpret_cast<char const*>(buffer);
+      m_data.s->assign( reinterpret_cast<char const*>(buffer), i32-1 );
       buffer += i32; nbyte += i32;
       break;
     case GC_type::COMPLEX:
@@ -542,7 +542,7 @@ namespace GC_namespace {
       for ( auto & s : *m_data.v_s ) {
         nb = buffer_to_int32( buffer, &i32 );
         buffer += nb; nbyte += nb;
-        s = reinterpret_cast<char const*>(buffer);
+        s.assign( reinterpret_cast<char const*>(buffer), i32-1 );
         buffer += i32; nbyte += i32;
       }
       break;
@@ -562,7 +562,7 @@ namespace GC_namespace {
       for ( int32_t i = 0; i < nr; ++i ) {
         nb = buffer_to_int32( buffer, &i32 );
         buffer += nb; nbyte += nb;
-        string_type key = reinterpret_cast<char const*>(buffer);
+        string_type key( reinterpret_cast<char const*>(buffer), i32-1 );
         buffer += i32; nbyte += i32;
         //std::cout << "key[" << i << "] = " << key << '\n';
         sz = (*m_data.m)[key].de_serialize( buffer_dim-nbyte, buffer );
-- 
2.43.0


From 1a27995729cdcf5014798493f8d7168ecb24a54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:03 +0000
Subject: [PATCH 18/25] fix: de_serialize read past the end of a truncated or
 corrupted buffer

---
 src/GenericContainerSerialize.cc | 119 ++++++++++++++++++-------------
 1 file changed, 70 insertions(+), 49 deletions(-)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index ce0edd6..4a22f3c 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -88,16 +88,20 @@ namespace GC_namespace {
 
   /* ---------------------------------------------------------------------------- */
 
+  static constexpr char msg_de[]{"GenericContainer::de_serialize, buffer is truncated or corrupted"};
+
   static
   uint32_t
-  buffer_to_uint8( uint8_t const * buffer, uint8_t * out ) {
+  buffer_to_uint8( uint8_t const * buffer, uint8_t * out, int32_t const available ) {
+    GC_ASSERT( available >= 1, msg_de );
     *out = buffer[0];
     return sizeof(uint8_t);
   }
 
   static
   uint32_t
-  buffer_to_uint32( uint8_t const * buffer, uint32_t * out ) {
+  buffer_to_uint32( uint8_t const * buffer, uint32_t * out, int32_t const available ) {
+    GC_ASSERT( available >= 4, msg_de );
     uint32_t const tmp0{ buffer[0] };
     uint32_t const tmp1{ buffer[1] };
     uint32_t const tmp2{ buffer[2] };
@@ -108,13 +112,14 @@ namespace GC_namespace {
 
   static
   uint32_t
-  buffer_to_int32( uint8_t const * buffer, int32_t * out ) {
-    return buffer_to_uint32( buffer, reinterpret_cast<uint32_t*>(out) );
+  buffer_to_int32( uint8_t const * buffer, int32_t * out, int32_t const available ) {
+    return buffer_to_uint32( buffer, reinterpret_cast<uint32_t*>(out), available );
   }
 
   static
   uint32_t
-  buffer_to_uint64( uint8_t const * buffer, uint64_t * out ) {
+  buffer_to_uint64( uint8_t const * buffer, uint64_t * out, int32_t const available ) {
+    GC_ASSERT( available >= 8, msg_de );
     uint64_t const tmp0{ buffer[0] };
     uint64_t const tmp1{ buffer[1] };
     uint64_t const tmp2{ buffer[2] };
@@ -129,15 +134,15 @@ namespace GC_namespace {
 
   static
   uint32_t
-  buffer_to_int64( uint8_t const * buffer, int64_t * out ) {
-    return buffer_to_uint64( buffer, reinterpret_cast<uint64_t*>(out) );
+  buffer_to_int64( uint8_t const * buffer, int64_t * out, int32_t const available ) {
+    return buffer_to_uint64( buffer, reinterpret_cast<uint64_t*>(out), available );
   }
 
   static
   uint32_t
-  buffer_to_double( uint8_t const * buffer, double * out ) {
+  buffer_to_double( uint8_t const * buffer, double * out, int32_t const available ) {
     union { double f; uint64_t i; } tmp;
-    buffer_to_uint64( buffer, &tmp.i );
+    buffer_to_uint64( buffer, &tmp.i, available );
     *out = tmp.f;
     return sizeof(double);
   }
@@ -382,7 +387,7 @@ namespace GC_namespace {
 
     int32_t nr, nc, i32;
     int64_t i64;
-    nbyte = nb = buffer_to_int32( buffer, &i32 );
+    nbyte = nb = buffer_to_int32( buffer, &i32, buffer_dim );
     buffer += nb;
 
     switch (static_cast<TypeAllowed>(i32)) {
@@ -392,163 +397,177 @@ namespace GC_namespace {
     case GC_type::BOOL:
       m_data_type = GC_type::BOOL;
       uint8_t b;
-      nb = buffer_to_uint8( buffer, &b );
+      nb = buffer_to_uint8( buffer, &b, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
       m_data.b = b > 0;
       break;
     case GC_type::INTEGER:
       m_data_type = GC_type::INTEGER;
-      nb = buffer_to_int32( buffer, &m_data.i );
+      nb = buffer_to_int32( buffer, &m_data.i, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
       break;
     case GC_type::LONG:
       m_data_type = GC_type::LONG;
-      nb = buffer_to_int64( buffer, &m_data.l );
+      nb = buffer_to_int64( buffer, &m_data.l, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
       break;
     case GC_type::REAL:
       m_data_type = GC_type::REAL;
-      nb = buffer_to_double( buffer, &m_data.r );
+      nb = buffer_to_double( buffer, &m_data.r, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
       break;
     case GC_type::POINTER:
-      nb = buffer_to_int64( buffer, &i64 );
+      nb = buffer_to_int64( buffer, &i64, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
       set_pointer( reinterpret_cast<void*>(i64) );
       break;
     case GC_type::STRING:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      GC_ASSERT( i32 > 0 && i32 <= buffer_dim-nbyte, msg_de );
       allocate_string();
       m_data.s->assign( reinterpret_cast<char const*>(buffer), i32-1 );
       buffer += i32; nbyte += i32;
       break;
     case GC_type::COMPLEX:
       allocate_complex();
-      nb = buffer_to_double( buffer, &bf ); m_data.c->real(bf);
+      nb = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); m_data.c->real(bf);
       buffer += nb; nbyte += nb;
-      nb = buffer_to_double( buffer, &bf ); m_data.c->imag(bf);
+      nb = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); m_data.c->imag(bf);
       buffer += nb; nbyte += nb;
       break;
     case GC_type::VEC_POINTER:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      GC_ASSERT( i32 >= 0 && i32 <= buffer_dim-nbyte, msg_de );
       allocate_vec_pointer(i32);
       for ( auto & ptr : *m_data.v_p ) {
-        sz = buffer_to_int64( buffer, &i64 ); ptr = reinterpret_cast<void*>(i64);
+        sz = buffer_to_int64( buffer, &i64, buffer_dim-nbyte ); ptr = reinterpret_cast<void*>(i64);
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::VEC_BOOL:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      GC_ASSERT( i32 >= 0 && i32 <= buffer_dim-nbyte, msg_de );
       allocate_vec_bool(0);
       m_data.v_b->reserve(i32);
       for ( int32_t i = 0; i < i32; ++i ) {
         uint8_t i8;
-        buffer_to_uint8( buffer, &i8 );
+        buffer_to_uint8( buffer, &i8, buffer_dim-nbyte );
         ++nb; ++buffer; ++nbyte;
         m_data.v_b->push_back( i8 > 0 );
       }
       break;
     case GC_type::VEC_INTEGER:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      GC_ASSERT( i32 >= 0 && i32 <= buffer_dim-nbyte, msg_de );
       allocate_vec_int(i32);
       for ( auto & i : *m_data.v_i ) {
-        sz = buffer_to_int32( buffer, &i );
+        sz = buffer_to_int32( buffer, &i, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::VEC_LONG:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      GC_ASSERT( i32 >= 0 && i32 <= buffer_dim-nbyte, msg_de );
       allocate_vec_long(i32);
       for ( auto & i : *m_data.v_l ) {
-        sz = buffer_to_int64( buffer, &i );
+        sz = buffer_to_int64( buffer, &i, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::VEC_REAL:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      GC_ASSERT( i32 >= 0 && i32 <= buffer_dim-nbyte, msg_de );
       allocate_vec_real(i32);
       for ( auto & r : *m_data.v_r ) {
-        sz = buffer_to_double( buffer, &r );
+        sz = buffer_to_double( buffer, &r, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::VEC_COMPLEX:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      GC_ASSERT( i32 >= 0 && i32 <= buffer_dim-nbyte, msg_de );
       allocate_vec_complex(i32);
       for ( auto & c : *m_data.v_c ) {
-        sz = buffer_to_double( buffer, &bf ); c.real(bf);
+        sz = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); c.real(bf);
         nb += sz; buffer += sz; nbyte += sz;
-        sz = buffer_to_double( buffer, &bf ); c.imag(bf);
+        sz = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); c.imag(bf);
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::MAT_INTEGER:
-      nb = buffer_to_int32( buffer, &nr );
+      nb = buffer_to_int32( buffer, &nr, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
-      nb = buffer_to_int32( buffer, &nc );
+      nb = buffer_to_int32( buffer, &nc, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      GC_ASSERT( nr >= 0 && nc >= 0 && (nc == 0 || nr <= (buffer_dim-nbyte)/nc), msg_de );
       allocate_mat_int( nr, nc );
       for ( auto & i : *m_data.m_i ) {
-        sz = buffer_to_int32( buffer, &i );
+        sz = buffer_to_int32( buffer, &i, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::MAT_LONG:
-      nb = buffer_to_int32( buffer, &nr );
+      nb = buffer_to_int32( buffer, &nr, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
-      nb = buffer_to_int32( buffer, &nc );
+      nb = buffer_to_int32( buffer, &nc, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      GC_ASSERT( nr >= 0 && nc >= 0 && (nc == 0 || nr <= (buffer_dim-nbyte)/nc), msg_de );
       allocate_mat_long( nr, nc );
       for ( auto & i : *m_data.m_l ) {
-        sz = buffer_to_int64( buffer, &i );
+        sz = buffer_to_int64( buffer, &i, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::MAT_REAL:
-      nb = buffer_to_int32( buffer, &nr );
+      nb = buffer_to_int32( buffer, &nr, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
-      nb = buffer_to_int32( buffer, &nc );
+      nb = buffer_to_int32( buffer, &nc, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      GC_ASSERT( nr >= 0 && nc >= 0 && (nc == 0 || nr <= (buffer_dim-nbyte)/nc), msg_de );
       allocate_mat_real( nr, nc );
       for ( auto & r : *m_data.m_r ) {
-        sz = buffer_to_double( buffer, &r );
+        sz = buffer_to_double( buffer, &r, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::MAT_COMPLEX:
-      nb = buffer_to_int32( buffer, &nr );
+      nb = buffer_to_int32( buffer, &nr, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
-      nb = buffer_to_int32( buffer, &nc );
+      nb = buffer_to_int32( buffer, &nc, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      GC_ASSERT( nr >= 0 && nc >= 0 && (nc == 0 || nr <= (buffer_dim-nbyte)/nc), msg_de );
       allocate_mat_complex( nr, nc );
       for ( auto & c : *m_data.m_c ) {
-        sz = buffer_to_double( buffer, &bf ); c.real(bf);
+        sz = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); c.real(bf);
         nb += sz; buffer += sz; nbyte += sz;
-        sz = buffer_to_double( buffer, &bf ); c.imag(bf);
+        sz = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); c.imag(bf);
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::VEC_STRING:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      GC_ASSERT( i32 >= 0 && i32 <= buffer_dim-nbyte, msg_de );
       allocate_vec_string(i32);
       for ( auto & s : *m_data.v_s ) {
-        nb = buffer_to_int32( buffer, &i32 );
+        nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
         buffer += nb; nbyte += nb;
+        GC_ASSERT( i32 > 0 && i32 <= buffer_dim-nbyte, msg_de );
         s.assign( reinterpret_cast<char const*>(buffer), i32-1 );
         buffer += i32; nbyte += i32;
       }
       break;
     case GC_type::VECTOR:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      GC_ASSERT( i32 >= 0 && i32 <= buffer_dim-nbyte, msg_de );
       allocate_vector(i32);
       for ( auto & S : *m_data.v ) {
         sz = S.de_serialize( buffer_dim-nbyte, buffer );
@@ -556,12 +575,14 @@ namespace GC_namespace {
       }
       break;
     case GC_type::MAP:
-      nb = buffer_to_int32( buffer, &i32 ); nr = i32;
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte ); nr = i32;
       buffer += nb; nbyte += nb;
+      GC_ASSERT( i32 >= 0 && i32 <= buffer_dim-nbyte, msg_de );
       allocate_map();
       for ( int32_t i = 0; i < nr; ++i ) {
-        nb = buffer_to_int32( buffer, &i32 );
+        nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
         buffer += nb; nbyte += nb;
+        GC_ASSERT( i32 > 0 && i32 <= buffer_dim-nbyte, msg_de );
         string_type key( reinterpret_cast<char const*>(buffer), i32-1 );
         buffer += i32; nbyte += i32;
         //std::cout << "key[" << i << "] = " << key << '\n';
-- 
2.43.0


From bc63acde79cadd425820ca260457099c24a8acd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:18 +0000
Subject: [PATCH 19/25] fix: copyto_vec of integer types converted real numbers
 that do not fit

---
 src/GenericContainerPromote.cc | 56 +++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 46227d8..b54064a 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -24,6 +24,7 @@
 #include "GenericContainer/GenericContainer.hh"
 #include <iomanip>
 #include <cmath>
+#include <limits>
 #include <algorithm>
 
 #ifdef __clang__
@@ -52,6 +53,13 @@ namespace GC_namespace {
   static bool isUnsigned( real_type const x )
   { return isInteger(x) && x >= 0; }
 
+  // true if the integer value stored in x can be represented with type T
+  template <typename T>
+  static bool isInRange( real_type const x ) {
+    constexpr real_type half{ std::numeric_limits<T>::max()/2+1 };
+    return x >= static_cast<real_type>(std::numeric_limits<T>::min()) && x < 2*half;
+  }
+
   #endif
 
   // ---------------------------------------------------------------------------
@@ -86,7 +94,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isInteger(rval),
+          isInteger(rval) && isInRange<int_type>(rval),
           where << " copyto_vec_int: v[" << i << "] = " << rval
                 << " cannot be converted to `integer'"
         )
@@ -110,7 +118,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          isInteger(rval) && isInRange<int_type>(rval),
           where << " copyto_vec_int: v[" << i << "] = " << rval
                 << " cannot be converted to `integer'"
         )
@@ -119,7 +127,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isInteger(cval.real()) && isInRange<int_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `integer'"
         )
@@ -128,7 +136,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isInteger(cval.real()) && isInRange<int_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `integer'"
         )
@@ -149,7 +157,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          isInteger(rval) && isInRange<int_type>(rval),
           where << " copyto_vec_int: v[" << i << "] = " << rval
                 << " cannot be converted to `integer'"
         )
@@ -158,7 +166,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isInteger(cval.real()) && isInRange<int_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `integer'"
         )
@@ -221,7 +229,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isUnsigned(rval),
+          isUnsigned(rval) && isInRange<uint_type>(rval),
           where << " copyto_vec_uint: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -251,7 +259,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          isUnsigned(rval) && isInRange<uint_type>(rval),
           where << " copyto_vec_uint: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -260,7 +268,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isUnsigned(cval.real()) && isInRange<uint_type>(cval.real()),
           where << " copyto_vec_uint: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned integer'"
         )
@@ -269,7 +277,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isUnsigned(cval.real()) && isInRange<uint_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned integer'"
         );
@@ -296,7 +304,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          isUnsigned(rval) && isInRange<uint_type>(rval),
           where << " copyto_vec_uint: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -305,7 +313,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isUnsigned(cval.real()) && isInRange<uint_type>(cval.real()),
           where << " copyto_vec_uint: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned integer'"
         )
@@ -354,7 +362,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isInteger(rval),
+          isInteger(rval) && isInRange<long_type>(rval),
           where << " copyto_vec_long: v[" << i << "] = " << rval
                 << " cannot be converted to `long'"
         )
@@ -372,7 +380,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          isInteger(rval) && isInRange<long_type>(rval),
           where << " copyto_vec_long: v[" << i << "] = " << rval
                 << " cannot be converted to `long'"
         )
@@ -381,7 +389,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isInteger(cval.real()) && isInRange<long_type>(cval.real()),
           where << " copyto_vec_long: v[" << i << "] = "
                 << cval << " cannot be converted to `long'"
         )
@@ -390,7 +398,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isInteger(cval.real()) && isInRange<long_type>(cval.real()),
           where << " copyto_vec_long: v[" << i << "] = "
                 << cval << " cannot be converted to `long'"
         )
@@ -405,7 +413,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          isInteger(rval) && isInRange<long_type>(rval),
           where << " copyto_vec_long: v[" << i << "] = " << rval
                 << " cannot be converted to `long'"
         )
@@ -414,7 +422,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isInteger(cval.real()) && isInRange<long_type>(cval.real()),
           where << " copyto_vec_long: v[" << i << "] = "
                 << cval << " cannot be converted to `long'"
         )
@@ -477,7 +485,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isUnsigned(rval),
+          isUnsigned(rval) && isInRange<ulong_type>(rval),
           where << " copyto_vec_ulong: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned long'"
         )
@@ -507,7 +515,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          isUnsigned(rval) && isInRange<ulong_type>(rval),
           where << " copyto_vec_ulong: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned long'"
         )
@@ -516,7 +524,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isUnsigned(cval.real()) && isInRange<ulong_type>(cval.real()),
           where << " copyto_vec_ulong: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned long'"
         )
@@ -525,7 +533,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isUnsigned(cval.real()) && isInRange<ulong_type>(cval.real()),
           where << " copyto_vec_ulong: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned long'"
         );
@@ -552,7 +560,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          isUnsigned(rval) && isInRange<ulong_type>(rval),
           where << " copyto_vec_ulong: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned long'"
         )
@@ -561,7 +569,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isUnsigned(cval.real()) && isInRange<ulong_type>(cval.real()),
           where << " copyto_vec_ulong: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned long'"
         )
-- 
2.43.0


From a61baf023f416114dca189d3a772196d9236ac17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:56 +0000
Subject: [PATCH 20/25] fix: copyto_mat_complex refused a matrix of complex
 numbers

---
 src/GenericContainerPromote.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index b54064a..05188d9 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -1084,6 +1084,12 @@ namespace GC_namespace {
         std::copy_n( m_r->data(), m_r->num_rows()*m_r->num_cols(), m.data() );
       }
       break;
+    case GC_type::MAT_COMPLEX:
+      { mat_complex_type const * m_c{m_data.m_c};
+        m.resize(m_c->num_rows(),m_c->num_cols());
+        std::copy_n( m_c->data(), m_c->num_rows()*m_c->num_cols(), m.data() );
+      }
+      break;
     case GC_type::VECTOR:
       { vector_type const & v{*m_data.v};
         if ( auto nc{static_cast<unsigned>(v.size())}; nc > 0 ) {
@@ -1111,7 +1117,6 @@ namespace GC_namespace {
     case GC_type::STRING:
     case GC_type::VEC_POINTER:
     case GC_type::VEC_STRING:
-    case GC_type::MAT_COMPLEX:
     case GC_type::MAP:
       GC_DO_ERROR( where << "copyto_mat_complex() cannot promote " << get_type_name() << " to mat_complex_type" )
     }
-- 
2.43.0


From f02c53129b533f76eb2609afbeb6c19f741a0e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:16 +0000
Subject: [PATCH 21/25] fix: copyto_vec_complex refused generic vectors holding
 integers or reals

---
 src/GenericContainerPromote.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 05188d9..10c95b7 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -688,7 +688,7 @@ namespace GC_namespace {
       case GC_type::MAT_LONG:    val = { static_cast<real_type>((*m_data.m_l)[i]),0 };         break;
       case GC_type::MAT_REAL:    val = {(*m_data.m_r)[i],0};                                   break;
       case GC_type::MAT_COMPLEX: val = (*m_data.m_c)[i];                                                 break;
-      case GC_type::VECTOR:      val = (*this)(i).get_complex();                                         break;
+      case GC_type::VECTOR:      val = (*this)(i).get_complex_number();                                  break;
 
       case GC_type::NOTYPE:
       case GC_type::POINTER:
-- 
2.43.0


From 0d6c579a1293e3506b06a0ca05c3a5776f3491a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:29 +0000
Subject: [PATCH 22/25] fix: unsigned values beyond the int range are stored as
 long instead of wrapping to negative

---
 include/GenericContainer/GenericContainer.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/GenericContainer/GenericContainer.hh b/include/GenericContainer/GenericContainer.hh
index d84e2c3..82feec2 100755
--- a/include/GenericContainer/GenericContainer.hh
+++ b/include/GenericContainer/GenericContainer.hh
@@ -34,6 +34,7 @@
 #pragma clang diagnostic ignored "-Wpoison-system-directories"
 #endif
 
+#include <limits>
 #include <iostream>
 #include <string>
 #include <string_view>
@@ -3357,7 +3358,11 @@ namespace GC_namespace {
     //! container.set(42u); // Store 42 as an unsigned integer in the container
     //! \endcode
     //!
-    void set( uint_type const & a ) { this->set_int(int_type(a)); }
+    void set( uint_type const & a ) {
+      // values too large for `int_type` are stored as `long_type`
+      if ( a > uint_type(std::numeric_limits<int_type>::max()) ) this->set_long(long_type(a));
+      else                                                       this->set_int(int_type(a));
+    }
 
     //!
     //! Assign an integer to the generic container.
@@ -3523,7 +3528,7 @@ namespace GC_namespace {
     //! \param[in] a integer to be stored
     //!
     GenericContainer & operator = ( uint_type const & a )
-    { this->set_int(int_type(a)); return * this; }
+    { this->set(a); return * this; }
 
     //!
     //! Assign an integer to the generic container.
-- 
2.43.0


From ffd31959d34e81b92da56786ec7dc1fd74ebcfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:31 +0000
Subject: [PATCH 23/25] fix: copyto_vec_uint refused long values between 2^31
 and 2^32-1

---
 src/GenericContainerPromote.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 10c95b7..7c52ea2 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -220,7 +220,7 @@ namespace GC_namespace {
       case GC_type::LONG:
         lval = m_data.l;
         GC_ASSERT(
-          static_cast<int_type>(lval) == lval && lval >= 0,
+          static_cast<uint_type>(lval) == lval,
           where << " copyto_vec_uint: v[" << i << "] = " << lval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -250,7 +250,7 @@ namespace GC_namespace {
       case GC_type::VEC_LONG:
         lval = (*m_data.v_l)[i];
         GC_ASSERT(
-          static_cast<int_type>(lval) == lval && lval >= 0,
+          static_cast<uint_type>(lval) == lval,
           where << " copyto_vec_uint: v[" << i << "] = " << lval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -295,7 +295,7 @@ namespace GC_namespace {
       case GC_type::MAT_LONG:
         lval = (*m_data.m_l)[i];
         GC_ASSERT(
-          static_cast<int_type>(lval) == lval && lval >= 0,
+          static_cast<uint_type>(lval) == lval,
           where << " copyto_vec_uint: v[" << i << "] = " << lval
                 << " cannot be converted to `unsigned integer'"
         )
-- 
2.43.0


From 6dffb4531539ec797738c3b6414d86d238f65ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:37 +0000
Subject: [PATCH 24/25] fix: a scalar created by
 get_bool/get_int/get_long/get_real on an empty container is initialized

---
 src/GenericContainer.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index e865843..4dea1a0 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -759,8 +759,19 @@ namespace GC_namespace {
 
   void
   GenericContainer::ck_or_set( string_view const where, TypeAllowed const tp ) {
-    if ( m_data_type == GC_type::NOTYPE ) m_data_type = tp;
-    else                                  ck(where,tp);
+    if ( m_data_type == GC_type::NOTYPE ) {
+      // the new scalar must not be left uninitialized
+      switch ( tp ) {
+      case GC_type::BOOL:    m_data.b = false; break;
+      case GC_type::INTEGER: m_data.i = 0;     break;
+      case GC_type::LONG:    m_data.l = 0;     break;
+      case GC_type::REAL:    m_data.r = 0;     break;
+      default: break;
+      }
+      m_data_type = tp;
+    } else {
+      ck(where,tp);
+    }
   }
 
   /*
-- 
2.43.0


From b5fd41506d583e462797d15ed2fcc6c3691a2200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:49 +0000
Subject: [PATCH 25/25] fix: serialise empty strings without front() of an
 empty string

---
 src/GenericContainerSerialize.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index 4a22f3c..b9cc7f2 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -232,7 +232,7 @@ namespace GC_namespace {
       nb = int32_to_buffer( sz, buffer, available );
       buffer += nb; available -= nb;
       GC_ASSERT( sz <= available, msg );
-      memcpy( buffer, &m_data.s->front(), sz );
+      memcpy( buffer, m_data.s->data(), sz );
       buffer += sz; available -= sz;
       break;
     case GC_type::COMPLEX:
@@ -341,7 +341,7 @@ namespace GC_namespace {
         nb = int32_to_buffer( sz, buffer, available );
         buffer += nb; available -= nb;
         GC_ASSERT( sz <= available, msg );
-        memcpy( buffer, &s.front(), sz );
+        memcpy( buffer, s.data(), sz );
         buffer += sz; available -= sz;
       }
       break;
@@ -361,7 +361,7 @@ namespace GC_namespace {
         nb = int32_to_buffer( sz, buffer, available );
         buffer += nb; available -= nb;
         GC_ASSERT( sz <= available, msg );
-        memcpy( buffer, &fst.front(), sz );
+        memcpy( buffer, fst.data(), sz );
         buffer += sz; available -= sz;
         nb = snd.serialize( available, buffer );
         buffer += nb; available -= nb;
-- 
2.43.0

