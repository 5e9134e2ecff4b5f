GC='src/GenericContainer.cc'; SER='src/GenericContainerSerialize.cc'
RT='''static void rt(GenericContainer const & g){ int32_t n=g.mem_size(); std::vector<uint8_t> b(n); EXPECT(g.serialize(b)==n); GenericContainer h; EXPECT(h.de_serialize(b)==n); EXPECT(g.compare_content(h,"").empty()); }
'''
SEEDS={
'p08-neg-long': dict(prop='P08',file=SER,edits=[('''buffer[7] = static_cast<uint8_t>(in&0xFF);
    return sizeof(int64_t);''','''buffer[7] = static_cast<uint8_t>(in&0x7F);
    return sizeof(int64_t);''')],
 demo=RT+'int main(){ GenericContainer g; g=long_type(5); rt(g); g=long_type(-5); rt(g); return 0; }',
 needs='a negative long, pointer or real number',what='the sign is lost in the binary format'),
'p08-matlong-shape': dict(prop='P08',file=SER,edits=[('''nb = int32_to_buffer( m_data.m_l->num_rows(), buffer, available );''','''nb = int32_to_buffer( m_data.m_l->num_cols(), buffer, available );'''),('''nb = int32_to_buffer( m_data.m_l->num_cols(), buffer, available );
      buffer += nb; available -= nb;
      for''','''nb = int32_to_buffer( m_data.m_l->num_rows(), buffer, available );
      buffer += nb; available -= nb;
      for''')],
 demo=RT+'int main(){ GenericContainer g; auto & m=g.set_mat_long(2,3); for(unsigned i=0;i<6;++i) m.data()[i]=i; rt(g); return 0; }',
 needs='a matrix of long integers that is not square',what='rows and columns are exchanged when read back'),
'p08-string-nul': dict(prop='P08',file=SER,edits=[('sz = static_cast<int32_t>(m_data.s->length()+1);','sz = static_cast<int32_t>(std::strlen(m_data.s->c_str())+1);')],
 demo=RT+'int main(){ GenericContainer g; g=std::string("ab"); rt(g); g=std::string("a\\0b",3); rt(g); return 0; }',
 needs='a string with an embedded NUL character',what='the string is cut and the announced size differs from the written size'),
'p08-matint-size': dict(prop='P08',file=SER,edits=[('2*sizeof(int32_t)+sizeof(int_type)*m_data.m_i->size()','2*sizeof(int32_t)+sizeof(int_type)*m_data.m_i->num_rows()*std::max(1u,unsigned(m_data.m_i->num_cols()))')],
 demo=RT+'int main(){ GenericContainer g; auto & m=g.set_mat_int(2,3); for(unsigned i=0;i<6;++i) m.data()[i]=i; rt(g); GenericContainer e; e.set_mat_int(3,0); rt(e); EXPECT(e.mem_size()==12); return 0; }',
 needs='an integer matrix with rows but no columns',what='the announced size exceeds the number of bytes written'),
'p08-read-bool': dict(prop='P08',file=SER,edits=[('''m_data.v_b->push_back( i8 > 0 );''','''m_data.v_b->push_back( i8 > 0 || ( i > 0 && (i & 63) == 0 ) );''')],
 demo=RT+'int main(){ GenericContainer g; auto & v=g.set_vec_bool(70); for(int i=0;i<70;++i) v[i]=false; rt(g); return 0; }',
 needs='a vector of at least 65 booleans with false at position 64',what='a boolean reads back as true'),
'p10-path-int': dict(prop='P10',file=GC,after='GenericContainer::get_map_int( std::initializer_list<string> const args ) const {',edits=[('p = &(*p)(key);','if ( p->m_data_type == GC_type::MAP && !key.empty() ) p = &(*p)(key);')],
 demo='int main(){ GenericContainer g; g["a"][""]=7; EXPECT(g.get_map_int({"a",""})==7); return 0; }',
 needs='a key path that contains an empty key',what='the lookup does not descend through the empty key'),
'p10-path-real': dict(prop='P10',file=GC,after='GenericContainer::get_map_number( std::initializer_list<string> const args ) const {',edits=[('p = &(*p)(key);','if ( GenericContainer const & q{ (*p)(key) }; &key+1 == args.end() || q.m_data_type == GC_type::MAP ) p = &q;')],
 demo='int main(){ GenericContainer g; g["a"]["b"]=2.5; EXPECT(g.get_map_number({"a","b"})==2.5); GenericContainer h; h["a"]=1; h["b"]=2; THROWS(h.get_map_number({"a","b"})); return 0; }',
 needs='a key path through a value that is not a map',what='the value is skipped and the next key is looked up in the wrong container instead of being refused'),
'p04-intat-vector': dict(prop='P04',file=GC,after='GenericContainer::get_int_at( unsigned const i ) {',edits=[('if ( m_data_type != GC_type::VECTOR ) promote_to_vector();\n    CHECK_RESIZE(m_data.v,i);','if ( m_data_type != GC_type::VECTOR ) promote_to_vector();\n    else if ( i == m_data.v->size() ) m_data.v->resize(i+2);\n    CHECK_RESIZE(m_data.v,i);')],
 demo='int main(){ GenericContainer g; g.set_vector(2); g.get_int_at(0)=1; g.get_int_at(1)=2; g.get_int_at(2)=3; EXPECT(g.get_num_elements()==3); return 0; }',
 needs='writing one past the end of a generic vector',what='the vector grows by two elements'),
}
