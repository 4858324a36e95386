// The types of specs/gen.asn, with the identifiers X.680 gives them
#pragma once
LEAF(t_int, INT, ONE(U, 2)); LEAF(t_bool, BOOL, ONE(U, 1)); LEAF(t_oct, OCT, ONE(U, 4)); LEAF(t_null, NUL, ONE(U, 5));
// X.. : context tags, implicit unless said otherwise
LEAF(i0, INT, ONE(X, 0)); LEAF(i1, INT, ONE(X, 1)); LEAF(b1, BOOL, ONE(X, 1)); LEAF(b2, BOOL, ONE(X, 2)); LEAF(b5, BOOL, ONE(X, 5));
LEAF(o1, OCT, ONE(X, 1)); LEAF(o2, OCT, ONE(X, 2)); LEAF(n3, NUL, ONE(X, 3)); LEAF(e3, ENUM, ONE(X, 3)); LEAF(i5, INT, ONE(X, 5));
LEAF(ix0, INT, TWO(X, 0, U, 2)); LEAF(ix1, INT, TWO(X, 1, U, 2)); LEAF(ix2, INT, TWO(X, 2, U, 2)); LEAF(ix6, INT, TWO(X, 6, U, 2)); LEAF(ix31, INT, TWO(X, 31, U, 2));
LEAF(ix3, INT, TWO(X, 3, U, 2)); LEAF(ix4, INT, TWO(X, 4, U, 2));
LEAF(ia2, INT, ONE(A, 2)); LEAF(op2, OCT, ONE(P, 2)); LEAF(oa0, OCT, ONE(A, 0));
LEAF(ip40, INT, TWO(P, 40, U, 2)); LEAF(ix4a2, INT, TWO(X, 4, A, 2));
const Ty i123 = {INT, 4, {{X, 1}, {X, 2}, {X, 3}, {U, 2}}, nullptr, 0, false};
static const uint8_t d_abc[] = {'a', 'b', 'c'}, d_true[] = {0xff}, d_false[] = {0}, d_7[] = {7};

static const Comp c_leaf[] = {{&i0, MAND}, {&b1, OPT}, {&o2, DEF, d_abc, 3}};
COLL(t_leaf, SEQ, c_leaf, false, ONE(U, 16)); COLL(leaf0, SEQ, c_leaf, false, ONE(X, 0)); COLL(leaf2, SEQ, c_leaf, false, ONE(X, 2));
static const Comp c_pickinner[] = {{&i0, MAND}, {&b1, MAND}};
COLL(pick4, CHO, c_pickinner, false, ONE(X, 4));
static const Comp c_pick[] = {{&i0, MAND}, {&o1, MAND}, {&leaf2, MAND}, {&n3, MAND}, {&pick4, MAND}};
COLL(t_pick, CHO, c_pick, false, NONE); COLL(pick2, CHO, c_pick, false, ONE(X, 2)); COLL(pick3, CHO, c_pick, false, ONE(X, 3));
extern const Comp c_rec[];
static const Ty t_rec = {SEQ, ONE(U, 16), c_rec, 2, false}, rec1 = {SEQ, ONE(X, 1), c_rec, 2, false};
const Comp c_rec[] = {{&i0, MAND}, {&rec1, OPT}};
static const Comp c_col[] = {{&i0, MAND}, {&o1, OPT}, {&b2, DEF, d_true, 1}, {&pick3, MAND}};
COLL(t_col, SET, c_col, false, ONE(U, 17));
static const Comp c_list[] = {{&t_int, MAND}}, c_leaves[] = {{&t_leaf, MAND}}, c_sub[] = {{&i0, MAND}, {&b1, MAND}};
COLL(list1, OF, c_list, false, ONE(X, 1)); COLL(leaves5, OF, c_leaves, false, ONE(X, 5)); COLL(sub4, SEQ, c_sub, false, ONE(X, 4));
static const Comp c_top[] = {{&leaf0, MAND}, {&list1, MAND}, {&pick2, OPT}, {&e3, MAND}, {&sub4, OPT}, {&leaves5, MAND}};
COLL(t_top, SEQ, c_top, true, ONE(U, 16));
static const Comp c_manual[] = {{&i5, MAND}, {&ix6, OPT}, {&t_int, OPT}};
COLL(t_manual, SEQ, c_manual, false, ONE(U, 16));

static const Comp c_inner[] = {{&t_int, MAND}};
COLL(t_inner, SEQ, c_inner, false, ONE(U, 16)); COLL(inner_p2, SEQ, c_inner, false, ONE(P, 2)); COLL(inner_6, SEQ, c_inner, false, ONE(X, 6));
COLL(inner_5x, SEQ, c_inner, false, TWO(X, 5, U, 16)); COLL(inner_7x, SEQ, c_inner, false, TWO(X, 7, U, 16)); COLL(inner_a8, SEQ, c_inner, false, ONE(A, 8));
COLL(inner_1, SEQ, c_inner, false, ONE(X, 1));
static const Comp c_alt[] = {{&t_int, MAND}, {&ix0, MAND}, {&oa0, MAND}, {&t_inner, MAND}, {&inner_p2, MAND}};
COLL(t_alt, CHO, c_alt, false, NONE); COLL(alt9, CHO, c_alt, false, ONE(X, 9)); COLL(alt7, CHO, c_alt, false, ONE(X, 7)); COLL(alt4, CHO, c_alt, false, ONE(X, 4));
COLL(alt2, CHO, c_alt, false, ONE(X, 2)); COLL(alt10, CHO, c_alt, false, ONE(X, 10));
static const Comp c_nest[] = {{&t_alt, MAND}, {&alt10, MAND}, {&t_bool, MAND}};
COLL(t_nest, CHO, c_nest, false, NONE);
static const Comp c_eseq[] = {{&ix1, MAND}, {&ia2, OPT}, {&inner_5x, MAND}, {&inner_6, OPT}, {&alt7, MAND}, {&t_alt, OPT}, {&ix31, DEF, d_7, 1}};
COLL(t_eseq, SEQ, c_eseq, false, ONE(U, 16));
static const Comp c_f3[] = {{&ix3, MAND}}, c_ginner[] = {{&t_inner, MAND}};
COLL(of_3, OF, c_f3, false, ONE(U, 16)); COLL(of_inner, OF, c_ginner, false, ONE(U, 17));
COLL(inner_4x, SEQ, c_inner, false, TWO(X, 4, U, 16));
static const Comp c_inner4[] = {{&inner_4x, MAND}};
COLL(of_inner4, OF, c_inner4, false, ONE(U, 16));
static const Comp c_eseq2[] = {{&ip40, MAND}, {&ix4a2, OPT}, {&inner_7x, MAND}, {&inner_a8, OPT}, {&alt9, OPT}, {&of_3, MAND}, {&of_inner, MAND}, {&of_inner4, MAND}};
COLL(t_eseq2, SEQ, c_eseq2, false, ONE(U, 16));
static const Comp c_bag[] = {{&t_int, MAND}, {&ix2, MAND}, {&ia2, OPT}, {&op2, MAND}, {&t_inner, OPT}, {&alt4, MAND}};
COLL(t_bag, SET, c_bag, false, ONE(U, 17));
static const Comp c_bxch[] = {{&ix0, MAND}, {&ix1, MAND}};
COLL(bxch, CHO, c_bxch, false, NONE);
static const Comp c_bagext[] = {{&t_int, MAND}, {&ix2, OPT}, {&bxch, MAND}};
COLL(t_bagext, SET, c_bagext, true, ONE(U, 17));
static const Comp c_ext[] = {{&t_int, MAND}, {&t_bool, OPT}, {&t_oct, MAND}};
COLL(t_ext, SEQ, c_ext, true, ONE(U, 16));
static const Comp c_derived[] = {{&t_oct, MAND}, {&t_int, MAND}, {&t_bool, OPT}, {&t_null, MAND}};
COLL(t_derived, SEQ, c_derived, false, ONE(U, 16));

LEAF(t2x, INT, TWO(X, 2, X, 1)); LEAF(t3x, INT, TWO(X, 3, X, 1)); LEAF(t4x, INT, TWO(X, 4, U, 2)); LEAF(d3x, INT, TWO(X, 3, U, 2));
COLL(e_a1, SEQ, c_inner, false, ONE(A, 1));
static const Comp c_fp1[] = {{&t_int, MAND}, {&i1, MAND}};
COLL(f_p1, CHO, c_fp1, false, ONE(P, 1)); COLL(of_4, OF, c_list, false, ONE(X, 4));
static const Comp c_iseq[] = {{&i0, MAND}, {&inner_1, OPT}, {&alt2, MAND}, {&d3x, OPT}, {&e_a1, OPT}, {&f_p1, MAND}, {&of_4, OPT}, {&b5, DEF, d_false, 1}};
COLL(t_iseq, SEQ, c_iseq, false, ONE(U, 16));
static const Comp c_iseq2[] = {{&i1, MAND}, {&t2x, MAND}, {&t3x, OPT}, {&t4x, OPT}};
COLL(t_iseq2, SEQ, c_iseq2, false, ONE(U, 16));
LEAF(t_p3, INT, ONE(X, 1));

