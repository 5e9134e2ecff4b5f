GC='src/GenericContainer.cc'; PR='src/GenericContainerPromote.cc'
CNT='''#include <new>
static long live=0;
void*operator new(std::size_t n){ void*p=std::malloc(n?n:1); if(!p) std::abort(); ++live; return p; }
void operator delete(void*p)noexcept{ if(p){--live; std::free(p);} }
void operator delete(void*p,std::size_t)noexcept{ if(p){--live; std::free(p);} }
'''
SEEDS={
'p01-clear-matlong': dict(prop='P01',file=GC,edits=[('case GC_type::MAT_LONG:    delete m_data.m_l; break;','case GC_type::MAT_LONG:    if ( m_data.m_l->num_cols() > 1 || m_data.m_l->num_rows() > 1 ) delete m_data.m_l;  break;')],
 demo=CNT+'''int main(){ { GenericContainer w; w.set_mat_long(1,1); w.clear(); } long a=live; for(int k=0;k<10;++k){ GenericContainer g; g.set_mat_long(1,1); g.clear(); } EXPECT(live==a); return 0; }''',
 needs='clearing a container holding a 1x1 (or empty) long matrix',what='the matrix object is leaked'),
'p01-promote-vecstring-leak': dict(prop='P01',file=PR,after='GenericContainer::promote_to_vector() {',edits=[('''          (*m_data.v)[i] = (*v_s)[i];
        delete v_s;''','''          (*m_data.v)[i] = (*v_s)[i];
        if ( !v_s->empty() ) delete v_s;''')],
 demo=CNT+'''int main(){ { GenericContainer w; w.set_vec_string(0u); w.promote_to_vector(); } long a=live; for(int k=0;k<10;++k){ GenericContainer g; g.set_vec_string(0u); g.promote_to_vector(); } EXPECT(live==a); return 0; }''',
 needs='promoting an empty vector of strings to a generic vector',what='the old vector object is leaked'),
'p05-uint-neg': dict(prop='P05',file=GC,after='''    string_view const field,
    uint_type &       value
  ) const {''',edits=[('if ( iv->second.m_data.i < 0 ) return false;','if ( iv->second.m_data.i < -2147483647 ) return false;')],
 demo='int main(){ GenericContainer g; g["a"]=-5; unsigned u=77; bool ok=g.get_if_exists("a",u); EXPECT(!ok); return 0; }',
 needs='reading a negative stored integer as unsigned through a key',what='negative values wrap around instead of being refused'),
'p05-getvalue-float': dict(prop='P05',file=GC,after='GenericContainer::get_number( string_view const where ) const {',edits=[('case GC_type::LONG:    return m_data.l;','case GC_type::LONG:    return static_cast<float>(m_data.l);')],
 demo='int main(){ GenericContainer g; g=long_type(16777217); EXPECT(g.get_number("")==16777217.0); return 0; }',
 needs='a long value with more than 24 significant bits',what='get_number rounds to single precision'),
'p06-merge-empty': dict(prop='P06',file=GC,edits=[('''        (*this)[fst].from_gc(snd);
    }
  }''','''        if ( snd.m_data_type != GC_type::NOTYPE || m_data.m->find(fst) == m_data.m->end() ) (*this)[fst].from_gc(snd);
    }
  }''')],
 demo='int main(){ GenericContainer a,b; a["k"]=5; b["k"]; b["j"]=1; a.merge(b,""); EXPECT(a["k"].get_type()==GC_type::NOTYPE); EXPECT(a["j"].get_int("")==1); return 0; }',
 needs='merging a map whose value under a shared key is an empty container',what='the old value survives instead of the merged one'),
'p06-vecptr-last': dict(prop='P06',file=GC,edits=[('''vv[i] = v[i];
      }''','''vv[i] = v[i == 64 ? 0 : i];
      }''')],
 demo='int main(){ int x[70]; GenericContainer g,h; vec_pointer_type & v=g.set_vec_pointer(70); for(int i=0;i<70;++i) v[i]=x+i; h.from_gc(g); for(unsigned i=0;i<70;++i) EXPECT(h.get_vec_pointer()[i]==(void*)(x+i)); return 0; }',
 needs='copying a vector of at least 65 pointers',what='one element of the copy differs from the source'),
'p07-string-nul': dict(prop='P07',file=GC,edits=[('if ( *m_data.s != *gc.m_data.s )','if ( string(m_data.s->c_str()) != string(gc.m_data.s->c_str()) )')],
 demo='int main(){ GenericContainer a,b; a=std::string("x\\0y",3); b=std::string("x\\0z",3); EXPECT(!a.compare_content(b,"").empty()); EXPECT(a.compare_content(a,"").empty()); return 0; }',
 needs='strings with an embedded NUL that differ after it',what='different strings compare as equal'),
'p07-matrix-shape': dict(prop='P07',file=GC,edits=[('if ( A->num_rows() == B->num_rows() && A->num_cols() == B->num_cols() ) {','if ( A->size() == B->size() && ( A->empty() || A->num_cols() == B->num_cols() ) ) {')],
 demo='int main(){ GenericContainer a,b; a.set_mat_int(0,3); b.set_mat_int(2,0); EXPECT(!a.compare_content(b,"").empty()); return 0; }',
 needs='two empty matrices of different shape',what='different shapes compare as equal'),
'p07-map-first': dict(prop='P07',file=GC,edits=[('''              if ( string const res{ it1->second.compare_content( it2->second, "> " ) }; !res.empty() ) {
                data << from << "key: '" << it1->first << "'\\n" << res;
                break;
              }''','''              if ( string const res{ it1->second.compare_content( it2->second, "" ) }; !res.empty() ) {
                if ( it1->first.empty() ) break;
                data << from << "key: '" << it1->first << "'\\n" << res;
                break;
              }''')],
 demo='int main(){ GenericContainer a,b; a[""]=1; b[""]=2; EXPECT(!a.compare_content(b,"").empty()); return 0; }',
 needs='maps that differ under the empty key',what='a difference is not reported'),
'p09-vecreal-long': dict(prop='P09',file=PR,after='GenericContainer::promote_to_vec_real() {',edits=[('(*m_data.v_r)[i] = static_cast<real_type>((*v_l)[i]);','(*m_data.v_r)[i] = static_cast<real_type>(static_cast<float>((*v_l)[i]));')],
 demo='int main(){ GenericContainer g; g.set_vec_long(vec_long_type{1,16777217}); g.promote_to_vec_real(); EXPECT(g.get_vec_real()[1]==16777217.0); return 0; }',
 needs='long elements with more than 24 significant bits',what='promotion to a real vector loses bits'),
'p09-vector-bool': dict(prop='P09',file=PR,after='GenericContainer::promote_to_vector() {',edits=[('''        for ( unsigned i{0}; i < v_b->size(); ++i )
          (*m_data.v)[i] = (*v_b)[i];''','''        for ( unsigned i{0}; i < v_b->size(); ++i )
          (*m_data.v)[i].set_bool( (*v_b)[ i < 256 ? i : i-256 ] );''')],
 demo='int main(){ GenericContainer g; vec_bool_type v(300,false); v[3]=true; v[290]=true; g.set_vec_bool(v); g.promote_to_vector(); for(unsigned i=0;i<300;++i) EXPECT(g.get_vector()[i].get_bool("")==bool(v[i])); return 0; }',
 needs='a boolean vector of more than 256 elements',what='elements past 256 take the value of other elements'),
'p10-erase-nul': dict(prop='P10',file=GC,edits=[('m_data.m->erase(string(name));','m_data.m->erase(string(name.data()));')],
 demo='int main(){ GenericContainer g; g["abc"]=1; g["ab"]=2; std::string k="abc"; g.erase(std::string_view(k.data(),2)); EXPECT(g.exists("abc")); EXPECT(!g.exists("ab")); return 0; }',
 needs='erasing through a string_view that is not terminated at its end',what='another key than the requested one is removed'),
'p10-must-exists': dict(prop='P10',file=GC,after='GenericContainer::must_exists(',edits=[('if ( auto iv{ m_data.m->find(s) }; iv != m_data.m->end() ) return s;','if ( auto iv{ m_data.m->lower_bound(s) }; iv != m_data.m->end() && iv->first.compare(0,s.size(),s) == 0 ) return iv->first;')],
 demo='int main(){ GenericContainer g; g["alpha2"]=2; g["b"]=3; vec_string_type k{"alpha","b"}; EXPECT(g.get_map_int(k,"")==3); return 0; }',
 needs='an alternatives list whose first entry is a proper prefix of a stored key',what='a key that merely starts with the requested one is selected'),
'p11-string-nul': dict(prop='P11',file=GC,edits=[('m_data.v_s->emplace_back( s );','m_data.v_s->emplace_back( s.data() );')],
 demo='int main(){ GenericContainer g; g.set_vec_string(0u); g.push_string(std::string_view("a\\0b",3)); EXPECT(g.get_vec_string().back().size()==3); return 0; }',
 needs='pushing a string view with an embedded NUL (or not NUL terminated)',what='the appended string differs from the given one'),
'p11-long-real': dict(prop='P11',file=GC,after='GenericContainer::push_long(',edits=[('m_data.v_r->emplace_back( static_cast<real_type>(l) );','m_data.v_r->emplace_back( static_cast<real_type>(static_cast<float>(l)) );')],
 demo='int main(){ GenericContainer g; g.set_vec_real(0u); g.push_long(16777217); EXPECT(g.get_vec_real().back()==16777217.0); return 0; }',
 needs='appending a long with more than 24 significant bits to a real vector',what='the appended element is rounded to single precision'),
'p13-matreal-rows': dict(prop='P13',file=PR,after='GenericContainer::copyto_mat_real(',edits=[('''            for ( unsigned i{0}; i < nr; ++i )
              m(i,j) = vj[i];''','''            for ( unsigned i{0}; i < nr; ++i )
              m(i,j) = vj[ ( nr == nc && j > 3 ) ? nr-1-i : i ];''')],
 demo='int main(){ GenericContainer g; vector_type & v=g.set_vector(5); for(unsigned j=0;j<5;++j){ vec_real_type c(5); for(int i=0;i<5;++i) c[i]=10*j+i; v[j]=c; } mat_real_type m; g.copyto_mat_real(m,""); for(unsigned i=0;i<5;++i) for(unsigned j=0;j<5;++j) EXPECT(m(i,j)==10.0*j+i); return 0; }',
 needs='a generic vector of at least 5 columns forming a square matrix',what='a column is exported in reverse order'),
'p13-long-int-bound': dict(prop='P13',file=PR,after='GenericContainer::copyto_vec_int(',edits=[('static_cast<int_type>(lval) == lval,','static_cast<int_type>(lval) == lval || lval == 2147483648LL,')],
 demo='int main(){ GenericContainer g; g=long_type(2147483648LL); vec_int_type v; THROWS(g.copyto_vec_int(v,"")); return 0; }',
 needs='the long value 2^31 exported to a vector of int',what='an unrepresentable value wraps to a negative one'),
'p15-elements-mat': dict(prop='P15',file=GC,edits=[('case GC_type::MAT_COMPLEX: return static_cast<unsigned>(m_data.m_c->size());','case GC_type::MAT_COMPLEX: return static_cast<unsigned>(m_data.m_c->capacity());')],
 demo='int main(){ GenericContainer g; mat_complex_type m(4,4); m.resize(2,2); g.set_mat_complex(8,8); g.get_mat_complex("").resize(2,3); EXPECT(g.get_num_elements()==6); return 0; }',
 needs='a complex matrix that was shrunk',what='the number of elements reported is the reserved capacity'),
'p02-vecreal-prefix': dict(prop='P02',file=GC,after='GenericContainer::allocate_vec_real(',edits=[]),
}
del SEEDS['p02-vecreal-prefix']
