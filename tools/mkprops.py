#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept in one place so that ids stay stable).
import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
H='include/sdsl/'
p('P01','Word primitives compute their mathematical definition',
  'For every 64-bit word, population count, position of the i-th set bit, highest and lowest set bit, bit reversal, the 10/01 pair maps and counts and the count/select of Fibonacci-terminating 11 pairs return exactly the value of their bit-level definition. Inputs without a set bit give the documented 0, and carries passed from word to word are exact.',
  ['inputs','configurations'],'every word, every legal argument i, every carry; the portable build and the SSE4.2/BMI2 build',
  'bits_test samples a few thousand words out of 2^64 and never checks the 11-pair functions or the 10/01 carries',
  [H+'bits.hpp','lib/bits.cpp'],
  [('SWAR popcount, byte-table select, de Bruijn lowest bit, lookup tables','include/sdsl/bits.hpp bits::cnt, _sel, lo, hi, rev, cnt11, sel11, hi11, map10, map01'),
   ('constant tables lt_cnt, lt_sel, lt_hi, lt_lo, lo_set, ps_overflow, lt_deBruijn_to_idx, lt_fib','lib/bits.cpp')],
  obs=['return values of sdsl::bits members'])
p('P02','Packed bit-field reads and writes are exact and touch nothing else',
  'Writing an integer of a given length at a bit position and reading it back yields the value reduced to that length, every bit outside the written field keeps its value, and no word is accessed that holds no bit of the field. The pointer-advancing forms additionally move the position by exactly the length; unary reads and next/previous-one searches return the exact distance or position.',
  ['inputs'],'every memory content, offset 0..63, length and value; runs of zeros of any length for unary reads and next/prev',
  'the tests reach these through containers with a handful of widths; word-straddling offsets with untouched neighbours and zero runs over several words are hardly sampled',
  [H+'bits.hpp'],[('masked read-modify-write of one or two words','include/sdsl/bits.hpp bits::write_int, read_int, *_and_move, move_left, move_right, read_unary, next, prev')],
  obs=['bits::write_int/read_int','int_vector::set_int/get_int'])
p('P03','int_vector elements are independent cells of the chosen width',
  'For every width from 1 to 64, assigning x to element i of an integer vector makes element i equal to x modulo 2^width and leaves every other element unchanged, whether done by index, through an element reference (including ++, --, +=, -=), through an iterator, or by bit-position get/set. Iterator arithmetic visits exactly the elements in order, and index, iterator and bit-position access agree.',
  ['inputs'],'every size, index, width, content and stored value',
  'tests use random vectors of a few sizes; a wrong mask that only bites for one width/offset combination or corrupts a neighbour goes unseen',
  [H+'int_vector.hpp',H+'bits.hpp'],
  [('operator[], get_int, set_int','include/sdsl/int_vector.hpp'),('int_vector_reference, int_vector_iterator, int_vector_const_iterator','include/sdsl/int_vector.hpp')],
  state=[('m_size','bit length','include/sdsl/int_vector.hpp'),('m_data','packed words','include/sdsl/int_vector.hpp'),('m_width','bits per element','include/sdsl/int_vector.hpp')],
  obs=['operator[]','iterators','get_int/set_int'])
p('P04','Whole-vector operations of int_vector act on all elements',
  'Resizing keeps every element below min(old,new) size, filling sets every element to the given value, copying and moving reproduce size, width and every element, and flip and the bitwise and/or/xor assignments act on exactly the corresponding bits. Equality holds exactly when lengths and all element bits agree, regardless of padding bits beyond the end, and the ordering comparisons are lexicographic.',
  ['inputs','histories'],'all sizes, widths and contents, after any sequence of such operations',
  'tests compare a few vectors of at most 1000 elements; last-word and padding cases depend on the exact size and width',
  [H+'int_vector.hpp',H+'util.hpp',H+'memory_management.hpp'],
  [('bit_resize / memory_manager::resize','include/sdsl/memory_management.hpp'),('operator==,<,>,&=,|=,^=, flip, copy/move/swap','include/sdsl/int_vector.hpp'),('util::set_to_value, set_to_id, cnt_one_bits ...','include/sdsl/util.hpp')],
  obs=['int_vector public interface'])
p('P05','Stored structures load back identical and report their exact size',
  'Writing an integer vector (any fixed or run-time width, or fixed written as run-time width) to a stream and loading it restores size, width and all elements; the reported number of bytes equals the number of bytes written, and loading consumes exactly those bytes.',
  ['inputs'],'every size (below, at and above the block size used for I/O), every width and content',
  'tests store a handful of small vectors, all below the I/O block size, so the chunked write and read loops are entered at most once',
  [H+'int_vector.hpp',H+'io.hpp'],[('write_data / serialize / load','include/sdsl/int_vector.hpp'),('write_header / read_header, write_member / read_member','include/sdsl/io.hpp')],
  obs=['bytes in the stream','loaded object'])
p('P06','Rank supports count exactly the pattern occurrences before a position',
  'For every plain bit vector, each rank support (two-level v, five-word v5, scanning) for the patterns 0, 1, 10, 01, 00 and 11 returns for every position 0..size the exact number of pattern occurrences ending before that position.',
  ['inputs'],'every bit vector length and content and every query position',
  'tests use at most a few dozen vectors; a counter that overflows only in a dense superblock, or a wrong last block for one length, is not hit',
  [H+'rank_support.hpp',H+'rank_support_v.hpp',H+'rank_support_v5.hpp',H+'rank_support_scan.hpp',H+'bits.hpp'],
  [('two-level cumulative counts built in the constructor','rank_support_v.hpp, rank_support_v5.hpp constructors'),('rank query','rank_support_v::rank, rank_support_v5::rank, rank_support_scan::rank'),('per-pattern word functions','rank_support_trait')],
  state=[('m_basic_block','absolute and packed relative counts','rank_support_v.hpp')],obs=['rank(i)'])
p('P07','Select supports return the position of the i-th pattern occurrence',
  'For every plain bit vector and every i from 1 to the number of pattern occurrences, the select supports (superblock based and scanning) for the patterns 0, 1, 10, 01, 00 and 11 return the position of the i-th occurrence, so that rank of that position is i-1 and the pattern ends there.',
  ['inputs'],'every vector length and content (sparse and dense superblocks, partial last superblock, both construction paths) and every legal i',
  'the long/short superblock cases and the fast construction (vectors of 100000 bits and more) depend on bit distribution that tests sample only a little',
  [H+'select_support.hpp',H+'select_support_mcl.hpp',H+'select_support_scan.hpp'],
  [('superblock positions, long blocks with explicit answers, short blocks with every 64th answer','select_support_mcl::init_slow, init_fast, select'),('word scan','select_support_scan::select'),('per-pattern word functions','select_support_trait')],
  state=[('m_superblock','answer for every 4096th argument','select_support_mcl.hpp'),('m_longsuperblock / m_miniblock','answers inside a superblock','select_support_mcl.hpp')],obs=['select(i)'])
p('P08','Interleaved bit vector stores the bits and answers rank and select',
  'For every bit vector and every block size, the interleaved representation returns each original bit and each get_int field, rank counts the ones (zeros) before a position, and select returns the position of the i-th one (zero).',
  ['inputs'],'every length, content and block size; positions at block and superblock boundaries',
  'tests use the generated vectors only; the sampled binary search is used only by vectors above 64K words',
  [H+'bit_vector_il.hpp'],[('interleaving constructor, get_int, rank1/rank0, select1/select0 with cached samples','include/sdsl/bit_vector_il.hpp')],
  state=[('m_data','words interleaved with cumulative counts','bit_vector_il.hpp'),('m_rank_samples','heap-ordered sample of the counts','bit_vector_il.hpp')],obs=['operator[]','get_int','rank','select'])
p('P09','RRR-compressed bit vectors represent the original bits',
  'Encoding a block as (number of ones, offset) and decoding it is the identity for every block, and every compressed bit vector therefore returns each original bit and field and exact rank and select answers.',
  ['inputs'],'every block content for every block size; every vector and query position',
  '2^63 blocks per class; tests see only the blocks of the sampled vectors, and inverted blocks, partially filled last blocks and superblock borders only by chance',
  [H+'rrr_vector.hpp',H+'rrr_vector_15.hpp',H+'rrr_helper.hpp'],[('combinatorial number system with a binomial table','include/sdsl/rrr_helper.hpp bin_to_nr, nr_to_bin, decode_*'),('superblock pointers and inverted blocks','include/sdsl/rrr_vector.hpp, rrr_vector_15.hpp')],obs=['operator[]','rank','select'])
p('P10','Sparse (Elias-Fano) bit vectors represent the original set',
  'A sparse bit vector built from a bit vector, from a sorted list of positions or incrementally through its builder contains exactly the given positions: access, get_int, rank, select of ones and select of zeros all agree with the plain bit vector.',
  ['inputs','histories'],'every universe size, number and distribution of ones, every query; builder histories',
  'the split between high and low parts depends on log n - log m; tests sample few (n,m) combinations',
  [H+'sd_vector.hpp','lib/sd_vector.cpp'],[('high part in unary, low part in packed integers','sd_vector constructors, sd_vector_builder::set'),('access/rank by select_0 and backward scan','sd_vector::operator[], get_int, rank_support_sd, select_support_sd, select_0_support_sd')],
  state=[('m_wl','width of low part','sd_vector.hpp'),('m_low','low parts','sd_vector.hpp'),('m_high','unary high parts','sd_vector.hpp')],obs=['operator[]','rank','select'])
p('P11','Hybrid bit vectors represent the original bits',
  'A hybrid bit vector returns each original bit and field and the exact number of ones before every position, whichever of its block encodings (run, minority positions, plain) a block uses.',
  ['inputs'],'every bit vector; every combination of block encodings',
  'which encoding a block takes depends on its content; tests cover a few mixtures',
  [H+'hyb_vector.hpp'],[('per-block choice of encoding, header words','include/sdsl/hyb_vector.hpp')],obs=['operator[]','rank'])
p('P12','Self-delimiting integer codes decode to what was encoded',
  'For every admissible integer, encoding it with the Elias delta, Elias gamma, Fibonacci or comma code at any bit position and decoding from there returns the integer, consumes exactly the announced number of bits, and leaves all other bits unchanged. Decoding a sequence returns the sequence, and decoding the prefix sum of the next n codes returns their exact sum.',
  ['inputs'],'every value up to 2^64-1 the code admits, every bit offset, every sequence of values',
  'tests encode some thousand random values; table-driven fast paths and word straddling depend on exact value and offset',
  [H+'coder_elias_delta.hpp',H+'coder_elias_gamma.hpp',H+'coder_fibonacci.hpp',H+'coder_comma.hpp','lib/coder_elias_delta.cpp','lib/coder_elias_gamma.cpp','lib/coder_fibonacci.cpp'],
  [('encode / decode / decode_prefix_sum / encoding_length','coder_*.hpp')],obs=['decoded values','bit positions'])
p('P13','Compressed integer vectors return the original integers',
  'A vector compressed with sampled differences, variable-length codes or directly addressable codes returns for every index the integer it was built from.',
  ['inputs'],'every input sequence, every sample density, coder and block width',
  'sample borders, zero and maximal differences and escape levels depend on the data; tests use random data',
  [H+'enc_vector.hpp',H+'vlc_vector.hpp',H+'dac_vector.hpp'],[('samples + encoded gaps','enc_vector.hpp, vlc_vector.hpp'),('byte levels with continuation bits','dac_vector.hpp')],obs=['operator[]'])
p('P14','Wavelet trees answer access, rank and select like the sequence',
  'For every sequence over a byte or integer alphabet, each wavelet structure returns the symbol at every position, the number of occurrences of every symbol before every position (0 for absent symbols), and the position of the i-th occurrence of every symbol.',
  ['inputs'],'every sequence and alphabet, every shape (balanced, Huffman, Hu-Tucker, matrix, run-length, alphabet-partitioned, GMR)',
  'tests use a few short texts; alphabet gaps, one-symbol alphabets and level boundaries depend on the alphabet',
  [H+'wt_pc.hpp',H+'wt_int.hpp',H+'wm_int.hpp',H+'wt_helper.hpp',H+'wt_ap.hpp',H+'wt_gmr.hpp',H+'wt_rlmn.hpp'],[('per-level rank/select navigation','wt_pc.hpp, wt_int.hpp, wm_int.hpp')],obs=['operator[]','rank','select','inverse_select'])
p('P15','Wavelet-tree range queries equal a scan of the range',
  'Interval symbols, lexicographic counts, quantiles, two-dimensional range search, range intersection, symbol_lte/gte and restricted unique values return exactly what a scan over the queried range would.',
  ['inputs'],'every sequence, range and value bound','tests sample a few ranges on a few sequences',
  [H+'wt_algorithm.hpp',H+'wt_int.hpp',H+'wt_pc.hpp',H+'wm_int.hpp'],[('recursive range expansion','wt_algorithm.hpp, wt_pc.hpp, wt_int.hpp')],obs=['query results'])
p('P16','Balanced-parentheses navigation matches the nesting',
  'For every balanced parentheses sequence, excess, find_close, find_open, enclose, double_enclose and rr_enclose return the position defined by the nesting structure, or the documented size value when there is none.',
  ['inputs'],'every balanced sequence and every parenthesis position, near and far answers',
  'tests reach these only through suffix trees over short texts; far answers across blocks, superblocks and tree nodes are rare',
  [H+'bp_support_sada.hpp',H+'bp_support_g.hpp',H+'bp_support_gg.hpp',H+'bp_support_algorithm.hpp','lib/bp_support_algorithm.cpp'],[('in-block scan with byte tables, min-max tree','bp_support_algorithm.hpp near_*, bp_support_sada.hpp')],obs=['find_close','find_open','enclose','rr_enclose'])
p('P17','Range minimum queries return the position of the extreme element',
  'For every integer sequence and every range [l,r], each range minimum (maximum) structure returns a position inside the range that holds a minimal (maximal) element, namely the leftmost such position in the default configurations.',
  ['inputs'],'every sequence, every range and both directions',
  'tests compare some thousand random ranges; ties and ranges whose length is a power of two are special',
  [H+'rmq_support_sparse_table.hpp',H+'rmq_succinct_sada.hpp',H+'rmq_succinct_sct.hpp'],[('doubling table of relative positions','rmq_support_sparse_table.hpp'),('super-Cartesian tree over parentheses','rmq_succinct_sct.hpp')],obs=['operator()(l,r)'])
p('P18','Suffix array construction sorts all suffixes',
  'For every text ending in a unique smallest symbol, each construction algorithm (in-memory and semi-external) yields the permutation that sorts the suffixes.',
  ['inputs'],'every byte and integer text','tests use four small inputs',
  [H+'construct_sa.hpp',H+'construct_sa_se.hpp',H+'qsufsort.hpp','lib/construct_sa.cpp','lib/construct_sa_se.cpp'],[('qsufsort / divsufsort / semi-external SA-IS','construct_sa.hpp, construct_sa_se.hpp, qsufsort.hpp')],obs=['cached suffix array'])
p('P19','Compressed suffix arrays agree with the suffix array of the text',
  'Every compressed suffix array answers SA, inverse SA, psi, LF, BWT, text extraction, count and locate exactly as the uncompressed suffix array of the text does, for every sampling strategy and density.',
  ['inputs','configurations'],'every text, pattern and sampling','tests use short texts',
  [H+'csa_wt.hpp',H+'csa_sada.hpp',H+'csa_bitcompressed.hpp',H+'csa_sampling_strategy.hpp',H+'suffix_array_algorithm.hpp',H+'suffix_array_helper.hpp'],[('backward search over BWT rank','suffix_array_algorithm.hpp'),('sampled SA/ISA','csa_sampling_strategy.hpp')],obs=['count','locate','extract','operator[]'])
p('P20','LCP arrays hold the longest common prefix lengths',
  'Every LCP construction algorithm and every compressed LCP representation yields for each i the exact length of the longest common prefix of the suffixes at ranks i-1 and i.',
  ['inputs'],'every text','tests use three small inputs',
  [H+'construct_lcp.hpp','lib/construct_lcp.cpp',H+'lcp_byte.hpp',H+'lcp_support_tree.hpp',H+'lcp_support_sada.hpp'],[('Kasai, PHI, GOG algorithms','construct_lcp.hpp, lib/construct_lcp.cpp')],obs=['lcp[i]'])
p('P21','Compressed suffix tree navigation equals the suffix tree',
  'Parent, child, sibling, suffix link, Weiner link, LCA, depth and leaf operations of each compressed suffix tree return the node the uncompressed suffix tree of the text would.',
  ['inputs','configurations'],'every text, node and operation','tests walk the trees of short texts',
  [H+'cst_sct3.hpp',H+'cst_sada.hpp',H+'cst_fully.hpp'],[('parentheses navigation + LCP','cst_sct3.hpp, cst_sada.hpp, cst_fully.hpp')],obs=['node operations'])
p('P22','k^2-trees and k^2-treaps represent the given points',
  'A k^2-tree contains exactly the given edges, with adjacency, (reverse) neighbours and range queries exact; a k^2-treap reports top-k, range and count answers exactly as a scan of the weighted points would.',
  ['inputs'],'every point set, arity and query rectangle','tests use a few small matrices',
  [H+'k2_tree.hpp',H+'k2_tree_helper.hpp',H+'k2_treap.hpp',H+'k2_treap_algorithm.hpp'],[('level-wise bitmaps','k2_tree.hpp, k2_treap.hpp')],obs=['adj','neigh','range','top_k','count'])
p('P23','Succinct sorted stacks behave like a stack',
  'After any legal sequence of pushes (strictly increasing) and pops, the succinct sorted stacks report the size and top element of an ordinary stack with the same history.',
  ['histories','inputs'],'every capacity and every legal push/pop history, including values beyond the in-place range',
  'the back-pointer words matter only when pushes skip whole blocks; tests use one random history',
  [H+'sorted_int_stack.hpp',H+'sorted_stack_support.hpp',H+'sorted_multi_stack_support.hpp'],[('bit per value in 63-bit blocks, back pointers in skipped blocks','push/pop/top')],
  state=[('m_stack','blocks of 63 value bits plus pointer flag','sorted_stack_support.hpp'),('m_top','shifted top value','sorted_stack_support.hpp')],obs=['top()','size()','empty()'])
p('P24','Dynamic nearest-neighbour dictionary is a set with predecessor/successor',
  'After any sequence of bit assignments, membership, next(i) (smallest member >= i) and prev(i) (largest member <= i) agree with the set of positions currently set, and absence is reported as documented.',
  ['histories','inputs'],'every universe size and every history of assignments',
  'the 64-ary tree levels only interact on sparse sets over several levels; tests use one random history',
  [H+'nn_dict_dynamic.hpp','lib/nn_dict_dynamic.cpp'],[('64-ary tree of summary words','nn_dict_dynamic.hpp')],state=[('m_tree','summary words of all levels','nn_dict_dynamic.hpp')],obs=['operator[]','next','prev'])
p('P25','Inverse permutation support inverts the permutation',
  'For every permutation p and every i, the inverse support returns the unique j with p[j]=i.',
  ['inputs'],'every permutation, cycle structure and back-pointer spacing','tests use a few random permutations whose cycles are long',
  [H+'inv_perm_support.hpp'],[('back pointers every t steps on each cycle','inv_perm_support.hpp')],obs=['operator[]'])
p('P26','LOUDS tree navigation matches the encoded tree',
  'Parent, child, degree, leaf test and node ids on a level-order unary tree are mutually inverse and match the tree it was built from.',
  ['inputs'],'every ordinal tree and node','there is no unit test of the LOUDS tree at all',
  [H+'louds_tree.hpp'],[('rank/select on the level-order unary sequence','louds_tree.hpp')],obs=['parent','child','degree','is_leaf','id'])
p('P27','Disk-backed integer vectors equal in-memory vectors',
  'After any sequence of reads, writes, push_backs, buffer resizes, resets and re-openings, a file-buffered integer vector holds exactly the elements an in-memory vector with the same history holds, and its closed file loads as that vector.',
  ['histories','inputs'],'every history, width and buffer size','tests follow a few fixed histories',
  [H+'int_vector_buffer.hpp'],[('single cached block with dirty flag','int_vector_buffer.hpp read_block/write_block/read/write')],obs=['elements','file content'])
p('P28','Memory-mapped integer vectors equal in-memory vectors',
  'A memory-mapped integer vector shows the elements of its file and, when writable, leaves a file that loads as the final content.',
  ['histories','inputs'],'every history and width','tests follow a few fixed histories',
  [H+'int_vector_mapper.hpp'],[('wrapper around mmap with header handling','int_vector_mapper.hpp')],obs=['elements','file content'])
p('P29','Wide unsigned integers obey modular arithmetic',
  'Addition, subtraction, shifts, bit operations and comparisons of the 128- and 256-bit integers give the result of the mathematical operation modulo 2^128 or 2^256, and their bit count and highest-bit functions are exact.',
  ['inputs'],'all operand values and shift amounts','the wide integers are only used inside compressed bit vectors with large blocks; carries and shifts across words are hardly sampled',
  [H+'uint128_t.hpp',H+'uint256_t.hpp','lib/uint128_t.cpp','lib/uint256_t.cpp',H+'uintx_t.hpp'],[('limb arithmetic with carries','uint128_t.hpp, uint256_t.hpp')],obs=['operators'])
p('P30','RAM files behave like files',
  'Data written to an in-memory file is read back unchanged, with sizes, seeks, truncation, renaming and removal as for a file on disk.',
  ['histories'],'every history of file operations','tests use RAM files only incidentally',
  ['lib/ram_fs.cpp','lib/ram_filebuf.cpp','lib/sfstream.cpp',H+'ram_fs.hpp'],[('map from name to byte vector, streambuf over it','lib/ram_fs.cpp, lib/ram_filebuf.cpp')],obs=['stream contents'])
p('P31','Text alphabets map characters bijectively and count them',
  'For every text, the alphabet structures map the occurring characters order-preservingly onto 0..sigma-1 and back, and C[c] is the number of text positions with a smaller character.',
  ['inputs'],'every text over bytes or integers','tests use a few texts',
  [H+'csa_alphabet_strategy.hpp','lib/csa_alphabet_strategy.cpp'],[('histogram and prefix sums','lib/csa_alphabet_strategy.cpp')],obs=['char2comp','comp2char','C','sigma'])
p('P32','Backward search narrows to exactly the matching interval',
  'One backward-search step maps the suffix-array interval of a pattern to C[c]+rank(l,c) .. C[c]+rank(r+1,c)-1, reports its exact size, yields an empty interval for characters that do not occur, and never leaves the bounds of the suffix array.',
  ['inputs'],'every interval and character','tests count a few patterns in short texts',
  [H+'suffix_array_algorithm.hpp'],[('backward_search, bidirectional_search','suffix_array_algorithm.hpp')],obs=['interval','count'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
