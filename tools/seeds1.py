GC='src/GenericContainer.cc'; PR='src/GenericContainerPromote.cc'
SEEDS={
'p15-matlong-cols': dict(prop='P15',file=GC,edits=[('return m_data.m_l->num_cols();','return m_data.m_l->num_rows();')],
 demo='int main(){ GenericContainer g; g.set_mat_long(2,3); EXPECT(g.num_rows()==2); EXPECT(g.num_cols()==3); return 0; }',
 needs='a non-square long matrix',what='num_cols() of a long matrix reports its rows'),
'p02-shrink-complex': dict(prop='P02',file=GC,edits=[('if ( sz > 0 ) m_data.v_c->resize( sz );','if ( sz > m_data.v_c->size() ) m_data.v_c->resize( sz );')],
 demo='int main(){ GenericContainer g; g.set_vec_complex(5); g.set_vec_complex(3); EXPECT(g.get_vec_complex().size()==3); return 0; }',
 needs='setting a smaller positive size on a container already holding a longer complex vector',what='a sized set does not give exactly the requested number of elements'),
'p09-veclong-matcomplex': dict(prop='P09',file=PR,after='GenericContainer::promote_to_mat_complex() {',edits=[('(*m_data.m_c)(i,0) = static_cast<real_type>((*v_l)[i]);','(*m_data.m_c)(i,0) = static_cast<real_type>(static_cast<int_type>((*v_l)[i]));')],
 demo='int main(){ GenericContainer g; vec_long_type v{1,(1LL<<40)+5}; g.set_vec_long(v); g.promote_to_mat_complex(); EXPECT(g.get_mat_complex()(1,0).real()==double((1LL<<40)+5)); return 0; }',
 needs='a long vector with an element beyond 32 bits promoted to a complex matrix',what='the promoted element is truncated to 32 bits'),
'p12-getrow-stride': dict(prop='P12',file=GC,after='mat_type<TYPE>::get_row( unsigned nr, TYPE * R )',edits=[('*R++ = (*this)(nr,j);','*R++ = (*this)[nr+j*m_num_cols];')],
 demo='''int main(){ mat_real_type M(3,2); for(unsigned i=0;i<3;++i) for(unsigned j=0;j<2;++j) M(i,j)=10*i+j; double r[2]; M.get_row(1,r); EXPECT(r[0]==10 && r[1]==11); return 0; }''',
 needs='a matrix with a row count different from its column count',what='row extraction to a raw array walks with the wrong stride'),
'p05-number-at-bool': dict(prop='P05',file=GC,after='GenericContainer::get_number_at( unsigned const i, string_view const where ) const',edits=[('return m_data.v_l->at(i);','return static_cast<float>(m_data.v_l->at(i));')],
 demo='int main(){ GenericContainer g; g.set_vec_long(vec_long_type{16777217}); EXPECT(g.get_number_at(0)==16777217.0); return 0; }',
 needs='a long vector element needing more than 24 significant bits',what='get_number_at rounds long elements to single precision'),
'p04-longat-bound': dict(prop='P04',file=GC,after='GenericContainer::get_long_at( unsigned const i, string_view const where ) const',edits=[('i < m_data.v_l->size()','i <= m_data.v_l->size()')],
 demo='int main(){ GenericContainer g; vec_long_type v{1,2}; v.reserve(8); g.set_vec_long(v); GenericContainer const & c=g; THROWS(c.get_long_at(2u,"")); return 0; }',
 needs='constant access to a long vector at exactly its size',what='the element one past the end is read instead of throwing'),
'p03-vecreal-bool': dict(prop='P03',file=GC,after='GenericContainer::get_vec_complex( string_view const where ) {',edits=[('m_data_type == GC_type::VEC_LONG    ||\n','')],
 demo='int main(){ GenericContainer g; g.set_vec_long(vec_long_type{3,4}); vec_complex_type & v=g.get_vec_complex(); EXPECT(v.size()==2 && v[1].real()==4); return 0; }',
 needs='non-constant complex vector access to a long vector',what='a narrower vector (long) is refused instead of widened'),
}
