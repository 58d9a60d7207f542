BASE = 'All obligations are generated from the LLVM IR of the current headers/sources and discharged for all inputs. '
CLAIMS = {
 'P01': dict(note=BASE + 'Every word primitive is loop free; portable and SSE4.2 builds; tables checked entry by entry. BMI2 pdep variant of sel not covered.'),
 'P02': dict(note=BASE + 'Words outside the field are outside the allocation, so any stray access fails a bounds obligation; loops of read_unary/next/prev by invariant.'),
    'P03': dict(note=BASE + 'Element read, reference, iterator and random-access arithmetic for every width 1..64, symbolic size and index.'),
    'P04': dict(note=BASE + 'Vectors up to 2^52 elements; widths 1..64; loops by invariant; allocation assumed to succeed.'),
    'P06': dict(note=BASE + 'Block and superblock counts by loop invariants over a recursively defined word count; rank for every position of vectors up to 2^52 bits.'),
    'P07': dict(level='proof', note=BASE + 'select (scan and mcl), arg_cnt, found_arg proved for every vector and i; the class invariant of select_support_mcl (block tables) is assumed by the proof, its constructors, copy and load are only covered by the bounded native driver.'),
    'P08': dict(note=BASE + 'bit_vector_il with block sizes 64 and 512 (256, 2048 and the >4M-bit select path in the thorough tier): constructor, access, get_int, rank and select; init_rank_samples is assumed and only covered by the bounded driver.'),
    'P10': dict(note=BASE + 'sd_vector access, rank and select over the Elias-Fano representation, for every vector; the representation invariant is assumed by the queries, so constructors, builder, get_int and copies are only covered by the bounded driver.'),
    'P12': dict(note=BASE + 'Elias gamma and delta: encoding_length, encode (every value, every offset) and the decode loops (1..2^64-1, any number of codes). Fibonacci, comma, decode_prefix_sum and whole-vector encode/decode only by the bounded driver.'),
    'P29': dict(note=BASE + 'Class version and the version over native 128-bit integers; every operator for every operand value; decimal/hexadecimal printing only by the bounded driver.'),
    'P23': dict(note=BASE + 'push, pop, top, size, empty of the three stacks against a ghost set and its representation invariant (loop free, all states); constructors, copies, load and overflow area only by the bounded driver.'),
    'P24': dict(note=BASE + 'constructor, membership, assignment, next and prev for every universe of up to three (thorough: four) tree levels, all level loops executed completely; copies and load only by the bounded driver.'),
    'P25': dict(note=BASE + 'access: result j always satisfies p[j]=i for every permutation and back-pointer table (partial correctness); termination and constructor only by the bounded driver.'),
    'P26': dict(note=BASE + 'child, parent, degree, is_leaf, id, nodes and node copies over an arbitrary level-order unary sequence; construction by tree traversal only by the bounded driver.'),
    'P17': dict(note=BASE + 'Queries of the sparse table (any level contents satisfying its definition) and of rmq_succinct_sct (any parentheses satisfying the super-Cartesian property), minimum and maximum; constructors and rmq_succinct_sada only by the bounded driver.'),
    'P31': dict(note=BASE + 'byte_alphabet constructor (counting, compaction, cumulation by loop invariants) and the char2comp/comp2char mappings of the succinct alphabets; copies, moves, serialization and the constructors of the succinct alphabets only by the bounded driver.'),
    'P32': dict(note=BASE + 'backward search (one symbol and whole patterns), count, lex_interval and forward search over an index known only by its contracts, for 8-bit and 64-bit symbols; bidirectional search and locate only by the bounded driver.'),
    'P14': dict(note=BASE + 'access, inverse_select, rank and select of wt_int, wm_int and wt_pc (byte and integer symbols; any prefix-code tree) over any bit vector known only by its contracts; wt_rlmn, wt_gmr, wt_ap, constructors, copies and serialization only by the bounded driver.'),
    'P15': dict(note=BASE + 'lex_count and lex_smaller_count (wt_int, wt_pc), expand (wt_int, wm_int, wt_pc), interval_symbols (wt_int, wt_pc and the generic one, recursion by contract), quantile_freq over any tree with expand; range_search_2d, intersect, symbol_lte/gte and restricted_unique_range_values only by the bounded driver.'),
    'P19': dict(note=BASE + 'first_row_symbol, text, psi, lf, bwt, isa members, extract, SA access of csa_wt and csa_sada, rank and select of the BWT (csa_wt, csa_sada), SA-order, ISA, text-order and text-order ISA samplings; every member known by contract. Constructors, copies, moves, serialization, csa_bitcompressed, fuzzy and BWT samplings, count and locate only by the bounded driver.'),
    'P16': dict(note=BASE + 'the in-block scans near_find_close, near_find_open, near_fwd_excess, near_bwd_excess (thorough: near_find_closing, near_find_opening): first/last position with the searched excess; look-up tables checked entry by entry. Min-max tree, pioneers, rmq, rr_enclose, copies and load only by the bounded driver.'),
}
NOTYET = 'not under contract yet: '
NA = {}
for k in range(1, 33):
    NA['P%02d' % k] = NOTYET + 'the functions this property depends on have not been brought under contract'
