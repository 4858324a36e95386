// The types of specs/gen2.asn, with the identifiers X.680 gives them
#pragma once
LEAF(t_int, INT, ONE(U, 2)); LEAF(t_bool, BOOL, ONE(U, 1)); LEAF(t_oct, OCT, ONE(U, 4)); LEAF(t_null, NUL, ONE(U, 5));
LEAF(i0, INT, ONE(X, 0)); LEAF(b1, BOOL, ONE(X, 1));
// every leaf type: position in the components, kind, universal tag
#define LEAVES(M) \
    M(bool, 0, BOOL, 1) M(int, 1, INT, 2) M(bits, 2, BITS, 3) M(oct, 3, OCT, 4) M(nul, 4, NUL, 5) M(oid, 5, OID, 6) M(real, 6, REAL, 9) M(enum, 7, ENUM, 10) M(utf8, 8, OCT, 12) \
    M(num, 9, OCT, 18) M(prn, 10, OCT, 19) M(ttx, 11, OCT, 20) M(vtx, 12, OCT, 21) M(ia5, 13, OCT, 22) M(utc, 14, TIME, 23) M(gen, 15, TIME, 24) M(gra, 16, OCT, 25) M(vis, 17, OCT, 26) \
    M(gnl, 18, OCT, 27) M(uni, 19, OCT, 28) M(bmp, 20, OCT, 30)
#define LU(n, i, k, u) LEAF(lu_##n, k, ONE(U, u)); LEAF(lx_##n, k, TWO(X, i, U, u)); LEAF(li_##n, k, ONE(X, i + 20)); LEAF(la_##n, k, ONE(X, i)); LEAF(lp_##n, k, ONE(A, i));
LEAVES(LU)
#define CU(n, i, k, u) {&lu_##n, MAND},
#define CO(n, i, k, u) {&lu_##n, OPT},
#define CX(n, i, k, u) {&lx_##n, MAND},
#define CI(n, i, k, u) {&li_##n, MAND},
#define CA(n, i, k, u) {&la_##n, MAND},
#define CP(n, i, k, u) {&lp_##n, MAND},
static const Comp c_allu[] = {LEAVES(CU)}, c_allx[] = {LEAVES(CX)}, c_alli[] = {LEAVES(CI)}, c_autoall[] = {LEAVES(CA)}, c_implall[] = {LEAVES(CP)}, c_optu[] = {LEAVES(CO)};
COLL(t_allu, SEQ, c_allu, false, ONE(U, 16)); COLL(t_allx, SEQ, c_allx, false, ONE(U, 16)); COLL(t_alli, SEQ, c_alli, false, ONE(U, 16));
COLL(t_autoall, SEQ, c_autoall, false, ONE(U, 16)); COLL(t_implall, SEQ, c_implall, false, ONE(U, 16)); COLL(t_optu, SEQ, c_optu, false, ONE(U, 16));
static const Comp c_ch0[] = {{&lu_bool, MAND}, {&lu_nul, MAND}, {&lu_utf8, MAND}, {&lu_vtx, MAND}, {&lu_gra, MAND}, {&lu_bmp, MAND}};
static const Comp c_ch1[] = {{&lu_int, MAND}, {&lu_oid, MAND}, {&lu_num, MAND}, {&lu_ia5, MAND}, {&lu_vis, MAND}};
static const Comp c_ch2[] = {{&lu_bits, MAND}, {&lu_real, MAND}, {&lu_prn, MAND}, {&lu_utc, MAND}, {&lu_gnl, MAND}};
static const Comp c_ch3[] = {{&lu_oct, MAND}, {&lu_enum, MAND}, {&lu_ttx, MAND}, {&lu_gen, MAND}, {&lu_uni, MAND}};
COLL(t_ch0, CHO, c_ch0, false, NONE); COLL(t_ch1, CHO, c_ch1, false, NONE); COLL(t_ch2, CHO, c_ch2, false, NONE); COLL(t_ch3, CHO, c_ch3, false, NONE);

static const Comp c_pick[] = {{&i0, MAND}, {&b1, MAND}};
COLL(t_pick, CHO, c_pick, false, NONE); COLL(pick0, CHO, c_pick, false, ONE(X, 0)); COLL(pick1, CHO, c_pick, false, ONE(X, 1)); COLL(pick5, CHO, c_pick, false, ONE(X, 5)); COLL(pick7, CHO, c_pick, false, ONE(X, 7));
COLL(pick_a, CHO, c_pick, false, ONE(A, 16384));
static const Comp c_mixed[] = {{&t_bool, MAND}, {&t_pick, MAND}};
COLL(t_mixed, CHO, c_mixed, false, NONE);
static const Comp c_mixedopt[] = {{&t_bool, OPT}, {&t_pick, OPT}, {&t_oct, MAND}}, c_mixedopt2[] = {{&t_mixed, OPT}, {&t_oct, MAND}};
COLL(t_mixedopt, SEQ, c_mixedopt, false, ONE(U, 16)); COLL(t_mixedopt2, SEQ, c_mixedopt2, false, ONE(U, 16));
LEAF(ix127, INT, TWO(X, 127, U, 2)); LEAF(i128, INT, ONE(X, 128)); LEAF(op16383, OCT, ONE(P, 16383)); LEAF(b31, BOOL, ONE(X, 31)); LEAF(ixp2m, INT, TWO(P, 2097152, U, 2));
static const Comp c_high[] = {{&ix127, MAND}, {&i128, OPT}, {&op16383, OPT}, {&pick_a, MAND}, {&b31, MAND}, {&ixp2m, OPT}};
COLL(t_high, SET, c_high, false, ONE(U, 17));
LEAF(ix200, INT, TWO(X, 200, U, 2)); LEAF(b300, BOOL, ONE(X, 300));
static const Comp c_highext[] = {{&ix200, MAND}, {&b300, OPT}, {&t_int, MAND}};
COLL(t_highext, SET, c_highext, true, ONE(U, 17));
static const uint8_t d_5[] = {5};
static const Comp c_extdef[] = {{&t_oct, MAND}, {&t_int, DEF, d_5, 1}, {&lu_utf8, OPT}};
COLL(t_extdef, SEQ, c_extdef, true, ONE(U, 16));
static const Comp c_extmid[] = {{&t_int, MAND}, {&t_bool, OPT}};
COLL(t_extmid, SEQ, c_extmid, true, ONE(U, 16));
static const Ty t_empty = {SEQ, ONE(U, 16), nullptr, 0, false}, t_emptyext = {SET, ONE(U, 17), nullptr, 0, true};
static const Comp c_octs[] = {{&t_oct, MAND}}, c_picks[] = {{&t_pick, MAND}}, c_mixeds[] = {{&t_mixed, MAND}}, c_bools[] = {{&t_bool, MAND}};
COLL(of_oct, OF, c_octs, false, ONE(U, 16)); COLL(of_pick0, OF, c_picks, false, TWO(X, 0, U, 17)); COLL(of_mixed1, OF, c_mixeds, false, ONE(X, 1)); COLL(of_bool, OF, c_bools, false, ONE(U, 16));
static const Comp c_boolss[] = {{&of_bool, MAND}};
COLL(of_of2, OF, c_boolss, false, TWO(X, 2, U, 16));
static const Comp c_lists[] = {{&of_oct, MAND}, {&of_pick0, MAND}, {&of_mixed1, OPT}, {&of_of2, MAND}};
COLL(t_lists, SEQ, c_lists, false, ONE(U, 16));
static const Comp c_inner[] = {{&t_bool, MAND}, {&pick5, MAND}};
COLL(t_inner, CHO, c_inner, false, NONE);
static const Comp c_holder[] = {{&pick0, MAND}, {&pick1, OPT}, {&t_inner, OPT}, {&t_null, MAND}};
COLL(t_holder, SEQ, c_holder, false, ONE(U, 16));
static const Comp c_either[] = {{&t_pick, MAND}, {&pick7, MAND}, {&t_null, MAND}};
COLL(t_either, CHO, c_either, false, NONE);
// untagged collections
COLL(so_bool, OF, c_bools, false, ONE(U, 17)); COLL(st_bool, SET, c_bools, false, ONE(U, 17)); COLL(sq_bool, SEQ, c_bools, false, ONE(U, 16));
static const Comp c_cols[] = {{&so_bool, OPT}, {&of_bool, OPT}, {&t_bool, MAND}, {&st_bool, OPT}, {&sq_bool, OPT}}, c_colset[] = {{&so_bool, OPT}, {&sq_bool, OPT}, {&t_bool, MAND}};
COLL(t_cols, SEQ, c_cols, false, ONE(U, 16)); COLL(t_colset, SET, c_colset, false, ONE(U, 17));
static const Comp c_colof[] = {{&so_bool, MAND}, {&t_bool, MAND}, {&of_bool, MAND}}, c_colseq[] = {{&sq_bool, MAND}, {&st_bool, MAND}, {&t_bool, MAND}};
COLL(t_colof, CHO, c_colof, false, NONE); COLL(t_colseq, CHO, c_colseq, false, NONE);
