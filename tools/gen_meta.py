#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GCC='src/GenericContainer.cc'; HH='include/GenericContainer/GenericContainer.hh'; PRO='src/GenericContainerPromote.cc'; SUP='src/GenericContainerSupport.cc'; SER='src/GenericContainerSerialize.cc'; COL='src/GenericContainerCollapse.cc'; CI='src/GenericContainerInterface_C.cc'; CH='include/GenericContainer/GenericContainerInterface_C.h'
IN=['inputs','histories']
PROPS=[
('P01','Core operations keep every container well formed, owned once, leak free',
 'After any single core operation (construction, clearing, setting, typed access, indexed and keyed access, appending, promotion, conversion, copying, merging, comparing, size queries), whether it returns or throws, the container holds exactly one live object of the type it reports (or nothing when it reports no type), no two containers share storage, and all storage the operation took or discarded is accounted for. The operation touches no memory outside the objects involved, uses nothing already released, and reads no stored value as a different type.',
 IN,'every initial content of the container and of container arguments, every argument value, every element count below 2^31, normal and exceptional exits',
 'the tests run a few fixed scripts without sanitizers; ownership must hold from every reachable content, including all 21 types times all operations and the throwing exits',
 [GCC,HH,PRO,SUP,SER],[('clear / destructor switch over the type tag',GCC),('allocate_* helpers release the old payload before installing the new one',GCC),('promotions move the old payload aside, convert and delete it',PRO)]),
('P02','Setting a container replaces its previous content completely',
 'Assigning a scalar, string, vector or matrix makes the container report that type and hold exactly the assigned value, whatever it held before and even if the assigned value is empty; clearing leaves it with no type (an unsigned long of 2^63 or more is stored as the long integer with the same bits). A sized set with a positive size gives exactly that many elements with new elements zero or empty, and a returned reference designates the stored data.',
 IN,'every previous content, every assigned value and size','tests set values on fresh or same-typed containers; stale content shows only for particular pairs of old and new type or size (for example an empty vector over a non-empty one)',
 [GCC,HH],[('set_* / operator= / allocate_*',GCC),('inline set, operator= and constructors',HH)]),
('P03','Typed access yields the stored value or refuses, never reinterprets',
 'Asking a container for its content as a given type returns the stored data itself exactly when the container holds that type (or, for non-constant access, an untyped container that becomes a default value of that type, or a narrower numeric vector or matrix that is widened); in every other case it throws and leaves the container unchanged.',
 IN,'every stored type and value, every requested type','21 stored types times about 30 accessors; tests exercise the matching pairs',
 [GCC,HH],[('ck / GC_ASSERT type guards in get_*',GCC)]),
('P04','Indexed access is bounds checked and reaches exactly the addressed element',
 'Constant indexed access returns the element at the given position (row and column for matrices) if it exists and throws otherwise. Non-constant indexed access by position grows the vector to include the position, preserves all other elements and returns a reference to that element; positions outside a matrix throw.',
 IN,'every stored type, size, content and index','boundary indices (size, size+1, maximum) on each stored type and each access flavour are not sampled by tests',
 [GCC,HH],[('get_*_at, operator[], operator()',GCC),('mat_type::operator()',SUP)]),
('P05','Numeric conversion is exact or refused',
 'Reading a number as another numeric type returns a value equal to the stored number (nearest representable when widening to floating point), or throws: out-of-range, fractional or non-real values are never silently truncated or wrapped, and non-numeric content is refused.',
 ['inputs'],'every stored bool, integer, long, real and complex value including NaN, infinities, subnormals and type limits',
 'the failing values are isolated points (type limits, just above 2^31, negative values read as unsigned) in a 64-bit space',
 [GCC],[('get_value, get_as_int/uint/long/ulong, get_number, get_complex_number',GCC)]),
('P06','Copies are deep, equal and independent; merge overlays keys',
 'Copying a container (constructor, assignment, load, to/from) makes the destination equal to the source and leaves the source unchanged, for every nested content and also when a container is assigned to itself or its contents; later changes of one never show in the other. Merging a map into a map gives the union of the keys with the values of the merged map winning, and leaves the merged map unchanged.',
 IN,'every source and destination content, including self-assignment','nested content, destination content and aliasing multiply; tests copy a few trees into fresh containers',
 [GCC],[('from_gc / to_gc / load / copy constructor / operator=',GCC),('merge',GCC)]),
('P07','Content comparison reports a difference exactly when there is one',
 'Comparing two containers terminates and returns an empty report if and only if they have the same type and the same content: equal scalars and strings, equal sizes and elements for vectors and matrices, equal key sets and recursively equal values for maps and generic vectors, where numbers are equal as C++ == compares them (a NaN differs from everything). Neither container is changed.',
 IN,'every pair of contents','pairs of contents cannot be sampled; a missed element type or size check goes unnoticed',
 [GCC],[('compare_content',GCC)]),
('P08','Binary serialisation is exact, bounded and reversible',
 'The announced size equals the number of bytes written, writing needs at most that many bytes and refuses a smaller buffer, and reading back a written buffer restores the same types and values consuming the same number of bytes. Neither writing nor reading ever touches bytes outside the given buffer, whatever its length or content.',
 ['inputs','fault_sequences'],'every content, every buffer length, every corrupted or truncated input','the tests round-trip one tree with an exact buffer',
 [SER],[('mem_size / serialize / de_serialize and the scalar helpers',SER)]),
('P09','Promotion widens without losing values or shape',
 'Promoting a container to a wider type preserves every value (each element equals the original under the numeric widening), the number of elements and the matrix shape, turns a scalar into a one-element vector or 1x1 matrix and a vector into a one-column matrix; content that cannot be widened is refused by throwing and left unchanged.',
 IN,'every source type, element values and sizes for each target type','13 promotions times 21 source types times sizes (zero, one, many)',
 [PRO],[('promote_to_*',PRO)]),
('P10','Map keys behave as a finite map of exact strings',
 'Keyed queries and accessors see exactly the keys stored: a key is reported present iff it was inserted and not removed (full string equality), reading a missing key throws or reports absence, writing through a key creates only that key, and removing or listing keys affects or lists exactly those. Alternatives lists select the first present key, and key-path lookups descend key by key.',
 IN,'every map content, key, list of alternatives and key path','keys that are prefixes of each other, keys of views without terminator, and missing intermediate keys are not sampled',
 [GCC,HH],[('exists, must_exists, operator[], operator(), get_map_*, get_if_exists, get_keys, erase',GCC)]),
('P11','Appending adds exactly one element at the end',
 'Appending a value to a container whose kind of vector can hold it adds exactly that value as the last element and keeps all earlier elements equal, widening the element type when needed; content that cannot be appended to is refused by throwing.',
 IN,'every initial content and appended value','widening appends change the stored type; tests append to matching vectors',
 [GCC],[('push_*',GCC)]),
('P12','Matrices are column-major with consistent shape and checked access',
 'A matrix of r rows and c columns holds exactly r*c elements, element (i,j) designates the same storage for reading and writing and differs for different (i,j), row and column extraction return exactly the addressed elements in order, and indices outside the shape throw.',
 ['inputs'],'every shape, element type and index pair','non-square shapes and border indices of each accessor',
 [SUP,HH],[('mat_type::operator(), get_row, get_column, resize, data',SUP)]),
('P13','Export to vectors and matrices converts every element in order',
 'Exporting a container to a plain vector or matrix yields one element per stored element, in order and with the stored shape, each equal to the stored number; a value that the element type cannot represent, or content that is not numeric, makes it throw, and the source is never changed.',
 IN,'every stored type, size and values, every target element type','conversion failures depend on single element values deep inside the data',
 [GCC],[('copyto_vec_*, copyto_mat_*',GCC)]),
('P14','Collapsing generic vectors preserves the data',
 'Collapsing a container replaces generic vectors whose elements can share one type by the corresponding typed vector or matrix with the same values in the same order and shape, and leaves everything else with the same content.',
 IN,'every nested content','mixtures of element types and shapes',[COL],[('collapse',COL)]),
('P15','Size queries agree with the stored content',
 'The reported number of elements, rows and columns equal the actual shape of the stored content: matrix dimensions for matrices, element count for vectors and maps, one for scalars and zero for an empty container.',
 ['inputs'],'every stored type, size and shape','each stored type has its own branch',[GCC],[('get_num_elements, num_rows, num_cols',GCC)]),
('P16','The C interface mirrors the C++ operations and keeps its head stack sane',
 'Through the C interface, pushing values, elements and keys has the same effect as the corresponding operation on the selected container, wrong states are reported by an error code and not by a crash or exception, and the stack of selected positions never underflows.',
 IN,'every sequence of calls and every container content','call sequences with wrong types or unbalanced pops',[CI,CH],[('GC_*',CI)]),
]
NA={
 'P14':'collapse recurses over nested generic vectors and re-types them through data dependent shape decisions over all elements; its loops carry joint type information that the verifier\'s loop rule cannot close, so no contract within reach decides it.',
 'P16':'the C interface keeps global mutable state (a map of named containers and a deque of head pointers into nested containers); ownership contracts for pointers into other containers\' interiors are outside the verifier\'s memory model.',
}
PENDING=os.environ.get('PENDING','').split(',')
LEVELNOTE={}
CLAIM=json.load(open(os.path.join(HERE,'tools','claimed.json')))
def main():
    with open(os.path.join(HERE,'properties.jsonl'),'w') as f:
        for (i,t,s,over,qt,why,files,mech) in PROPS:
            assert len(t)<=80,(i,len(t))
            f.write(json.dumps(dict(id=i,title=t,statement=s,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech])))+'\n')
    checks=[]; na=[]
    for p in PROPS:
        i=p[0]
        if i in CLAIM:
            checks.append(dict(property=i,quick_cmd='python3-vt check.py %s --tier quick'%i,thorough_cmd='python3-vt check.py %s --tier thorough'%i,evidence_file='evidence/%s.json'%i,
              technique='contract-based deductive verification: function contracts discharged by symbolic execution of the compiled real code (LLVM IR of /repo) with z3',
              level='proof',level_note=CLAIM[i]))
        else: na.append(dict(property=i,reason=NA.get(i,'contracts not finished')))
    json.dump(dict(version=1,setup_cmd='sh tools/setup.sh',checks=checks,not_applicable=na,notes='No hooks in /repo: the verified text is the LLVM IR of the unmodified source. Repairs of defects are listed in known_findings.txt.'),open(os.path.join(HERE,'MANIFEST.json'),'w'),indent=1)
main()
