// keywords of input files (tool/mkkeywords.py); a colon may follow
// CONE_SECTION, CONE_SECTION:, CONICAL_HULL, CONICAL_HULL:, CONICAL_HULL_SECTION, CONICAL_HULL_SECTION:, Rays, Rays:
#[verifier::opaque] pub open spec fn kw_conical(s: Seq<i8>) -> bool { s =~= seq![67i8, 79i8, 78i8, 69i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8] || s =~= seq![67i8, 79i8, 78i8, 69i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8, 58i8] || s =~= seq![67i8, 79i8, 78i8, 73i8, 67i8, 65i8, 76i8, 95i8, 72i8, 85i8, 76i8, 76i8] || s =~= seq![67i8, 79i8, 78i8, 73i8, 67i8, 65i8, 76i8, 95i8, 72i8, 85i8, 76i8, 76i8, 58i8] || s =~= seq![67i8, 79i8, 78i8, 73i8, 67i8, 65i8, 76i8, 95i8, 72i8, 85i8, 76i8, 76i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8] || s =~= seq![67i8, 79i8, 78i8, 73i8, 67i8, 65i8, 76i8, 95i8, 72i8, 85i8, 76i8, 76i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8, 58i8] || s =~= seq![82i8, 97i8, 121i8, 115i8] || s =~= seq![82i8, 97i8, 121i8, 115i8, 58i8] }
// REDUCED_CONE_SECTION, REDUCED_CONE_SECTION:, REDUCED_CONICAL_HULL, REDUCED_CONICAL_HULL:, REDUCED_CONICAL_HULL_SECTION, REDUCED_CONICAL_HULL_SECTION:, Reduced Rays, Reduced Rays:
#[verifier::opaque] pub open spec fn kw_reduced_conical(s: Seq<i8>) -> bool { s =~= seq![82i8, 69i8, 68i8, 85i8, 67i8, 69i8, 68i8, 95i8, 67i8, 79i8, 78i8, 69i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8] || s =~= seq![82i8, 69i8, 68i8, 85i8, 67i8, 69i8, 68i8, 95i8, 67i8, 79i8, 78i8, 69i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8, 58i8] || s =~= seq![82i8, 69i8, 68i8, 85i8, 67i8, 69i8, 68i8, 95i8, 67i8, 79i8, 78i8, 73i8, 67i8, 65i8, 76i8, 95i8, 72i8, 85i8, 76i8, 76i8] || s =~= seq![82i8, 69i8, 68i8, 85i8, 67i8, 69i8, 68i8, 95i8, 67i8, 79i8, 78i8, 73i8, 67i8, 65i8, 76i8, 95i8, 72i8, 85i8, 76i8, 76i8, 58i8] || s =~= seq![82i8, 69i8, 68i8, 85i8, 67i8, 69i8, 68i8, 95i8, 67i8, 79i8, 78i8, 73i8, 67i8, 65i8, 76i8, 95i8, 72i8, 85i8, 76i8, 76i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8] || s =~= seq![82i8, 69i8, 68i8, 85i8, 67i8, 69i8, 68i8, 95i8, 67i8, 79i8, 78i8, 73i8, 67i8, 65i8, 76i8, 95i8, 72i8, 85i8, 76i8, 76i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8, 58i8] || s =~= seq![82i8, 101i8, 100i8, 117i8, 99i8, 101i8, 100i8, 32i8, 82i8, 97i8, 121i8, 115i8] || s =~= seq![82i8, 101i8, 100i8, 117i8, 99i8, 101i8, 100i8, 32i8, 82i8, 97i8, 121i8, 115i8, 58i8] }
// CONVEX_HULL, CONVEX_HULL:, CONVEX_HULL_SECTION, CONVEX_HULL_SECTION:, CONV_SECTION, CONV_SECTION:, Vertices, Vertices:
#[verifier::opaque] pub open spec fn kw_convex(s: Seq<i8>) -> bool { s =~= seq![67i8, 79i8, 78i8, 86i8, 69i8, 88i8, 95i8, 72i8, 85i8, 76i8, 76i8] || s =~= seq![67i8, 79i8, 78i8, 86i8, 69i8, 88i8, 95i8, 72i8, 85i8, 76i8, 76i8, 58i8] || s =~= seq![67i8, 79i8, 78i8, 86i8, 69i8, 88i8, 95i8, 72i8, 85i8, 76i8, 76i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8] || s =~= seq![67i8, 79i8, 78i8, 86i8, 69i8, 88i8, 95i8, 72i8, 85i8, 76i8, 76i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8, 58i8] || s =~= seq![67i8, 79i8, 78i8, 86i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8] || s =~= seq![67i8, 79i8, 78i8, 86i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8, 58i8] || s =~= seq![86i8, 101i8, 114i8, 116i8, 105i8, 99i8, 101i8, 115i8] || s =~= seq![86i8, 101i8, 114i8, 116i8, 105i8, 99i8, 101i8, 115i8, 58i8] }
// REDUCED_CONVEX_HULL, REDUCED_CONVEX_HULL:, REDUCED_CONVEX_HULL_SECTION, REDUCED_CONVEX_HULL_SECTION:, REDUCED_CONV_SECTION, REDUCED_CONV_SECTION:, Reduced Vertices, Reduced Vertices:
#[verifier::opaque] pub open spec fn kw_reduced_convex(s: Seq<i8>) -> bool { s =~= seq![82i8, 69i8, 68i8, 85i8, 67i8, 69i8, 68i8, 95i8, 67i8, 79i8, 78i8, 86i8, 69i8, 88i8, 95i8, 72i8, 85i8, 76i8, 76i8] || s =~= seq![82i8, 69i8, 68i8, 85i8, 67i8, 69i8, 68i8, 95i8, 67i8, 79i8, 78i8, 86i8, 69i8, 88i8, 95i8, 72i8, 85i8, 76i8, 76i8, 58i8] || s =~= seq![82i8, 69i8, 68i8, 85i8, 67i8, 69i8, 68i8, 95i8, 67i8, 79i8, 78i8, 86i8, 69i8, 88i8, 95i8, 72i8, 85i8, 76i8, 76i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8] || s =~= seq![82i8, 69i8, 68i8, 85i8, 67i8, 69i8, 68i8, 95i8, 67i8, 79i8, 78i8, 86i8, 69i8, 88i8, 95i8, 72i8, 85i8, 76i8, 76i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8, 58i8] || s =~= seq![82i8, 69i8, 68i8, 85i8, 67i8, 69i8, 68i8, 95i8, 67i8, 79i8, 78i8, 86i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8] || s =~= seq![82i8, 69i8, 68i8, 85i8, 67i8, 69i8, 68i8, 95i8, 67i8, 79i8, 78i8, 86i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8, 58i8] || s =~= seq![82i8, 101i8, 100i8, 117i8, 99i8, 101i8, 100i8, 32i8, 86i8, 101i8, 114i8, 116i8, 105i8, 99i8, 101i8, 115i8] || s =~= seq![82i8, 101i8, 100i8, 117i8, 99i8, 101i8, 100i8, 32i8, 86i8, 101i8, 114i8, 116i8, 105i8, 99i8, 101i8, 115i8, 58i8] }
// EQUATIONS, EQUATIONS:, EQUATION_SECTION, EQUATION_SECTION:, EQUATIONS_SECTION, EQUATIONS_SECTION:, Equations, Equations:
#[verifier::opaque] pub open spec fn kw_equations(s: Seq<i8>) -> bool { s =~= seq![69i8, 81i8, 85i8, 65i8, 84i8, 73i8, 79i8, 78i8, 83i8] || s =~= seq![69i8, 81i8, 85i8, 65i8, 84i8, 73i8, 79i8, 78i8, 83i8, 58i8] || s =~= seq![69i8, 81i8, 85i8, 65i8, 84i8, 73i8, 79i8, 78i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8] || s =~= seq![69i8, 81i8, 85i8, 65i8, 84i8, 73i8, 79i8, 78i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8, 58i8] || s =~= seq![69i8, 81i8, 85i8, 65i8, 84i8, 73i8, 79i8, 78i8, 83i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8] || s =~= seq![69i8, 81i8, 85i8, 65i8, 84i8, 73i8, 79i8, 78i8, 83i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8, 58i8] || s =~= seq![69i8, 113i8, 117i8, 97i8, 116i8, 105i8, 111i8, 110i8, 115i8] || s =~= seq![69i8, 113i8, 117i8, 97i8, 116i8, 105i8, 111i8, 110i8, 115i8, 58i8] }
// INEQUALITIES, INEQUALITIES:, INEQUALITY_SECTION, INEQUALITY_SECTION:, INEQUALITIES_SECTION, INEQUALITIES_SECTION:, Inequalities, Inequalities:
#[verifier::opaque] pub open spec fn kw_inequalities(s: Seq<i8>) -> bool { s =~= seq![73i8, 78i8, 69i8, 81i8, 85i8, 65i8, 76i8, 73i8, 84i8, 73i8, 69i8, 83i8] || s =~= seq![73i8, 78i8, 69i8, 81i8, 85i8, 65i8, 76i8, 73i8, 84i8, 73i8, 69i8, 83i8, 58i8] || s =~= seq![73i8, 78i8, 69i8, 81i8, 85i8, 65i8, 76i8, 73i8, 84i8, 89i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8] || s =~= seq![73i8, 78i8, 69i8, 81i8, 85i8, 65i8, 76i8, 73i8, 84i8, 89i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8, 58i8] || s =~= seq![73i8, 78i8, 69i8, 81i8, 85i8, 65i8, 76i8, 73i8, 84i8, 73i8, 69i8, 83i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8] || s =~= seq![73i8, 78i8, 69i8, 81i8, 85i8, 65i8, 76i8, 73i8, 84i8, 73i8, 69i8, 83i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8, 58i8] || s =~= seq![73i8, 110i8, 101i8, 113i8, 117i8, 97i8, 108i8, 105i8, 116i8, 105i8, 101i8, 115i8] || s =~= seq![73i8, 110i8, 101i8, 113i8, 117i8, 97i8, 108i8, 105i8, 116i8, 105i8, 101i8, 115i8, 58i8] }
// REDUCED_INEQUALITIES, REDUCED_INEQUALITIES:, REDUCED_INEQUALITY_SECTION, REDUCED_INEQUALITY_SECTION:, REDUCED_INEQUALITIES_SECTION, REDUCED_INEQUALITIES_SECTION:, Reduced Inequalities, Reduced Inequalities:
#[verifier::opaque] pub open spec fn kw_reduced_inequalities(s: Seq<i8>) -> bool { s =~= seq![82i8, 69i8, 68i8, 85i8, 67i8, 69i8, 68i8, 95i8, 73i8, 78i8, 69i8, 81i8, 85i8, 65i8, 76i8, 73i8, 84i8, 73i8, 69i8, 83i8] || s =~= seq![82i8, 69i8, 68i8, 85i8, 67i8, 69i8, 68i8, 95i8, 73i8, 78i8, 69i8, 81i8, 85i8, 65i8, 76i8, 73i8, 84i8, 73i8, 69i8, 83i8, 58i8] || s =~= seq![82i8, 69i8, 68i8, 85i8, 67i8, 69i8, 68i8, 95i8, 73i8, 78i8, 69i8, 81i8, 85i8, 65i8, 76i8, 73i8, 84i8, 89i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8] || s =~= seq![82i8, 69i8, 68i8, 85i8, 67i8, 69i8, 68i8, 95i8, 73i8, 78i8, 69i8, 81i8, 85i8, 65i8, 76i8, 73i8, 84i8, 89i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8, 58i8] || s =~= seq![82i8, 69i8, 68i8, 85i8, 67i8, 69i8, 68i8, 95i8, 73i8, 78i8, 69i8, 81i8, 85i8, 65i8, 76i8, 73i8, 84i8, 73i8, 69i8, 83i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8] || s =~= seq![82i8, 69i8, 68i8, 85i8, 67i8, 69i8, 68i8, 95i8, 73i8, 78i8, 69i8, 81i8, 85i8, 65i8, 76i8, 73i8, 84i8, 73i8, 69i8, 83i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8, 58i8] || s =~= seq![82i8, 101i8, 100i8, 117i8, 99i8, 101i8, 100i8, 32i8, 73i8, 110i8, 101i8, 113i8, 117i8, 97i8, 108i8, 105i8, 116i8, 105i8, 101i8, 115i8] || s =~= seq![82i8, 101i8, 100i8, 117i8, 99i8, 101i8, 100i8, 32i8, 73i8, 110i8, 101i8, 113i8, 117i8, 97i8, 108i8, 105i8, 116i8, 105i8, 101i8, 115i8, 58i8] }
// MAPS, MAPS:, MAP_SECTION, MAP_SECTION:, MAPS_SECTION, MAPS_SECTION:, Maps, Maps:
#[verifier::opaque] pub open spec fn kw_maps(s: Seq<i8>) -> bool { s =~= seq![77i8, 65i8, 80i8, 83i8] || s =~= seq![77i8, 65i8, 80i8, 83i8, 58i8] || s =~= seq![77i8, 65i8, 80i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8] || s =~= seq![77i8, 65i8, 80i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8, 58i8] || s =~= seq![77i8, 65i8, 80i8, 83i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8] || s =~= seq![77i8, 65i8, 80i8, 83i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8, 58i8] || s =~= seq![77i8, 97i8, 112i8, 115i8] || s =~= seq![77i8, 97i8, 112i8, 115i8, 58i8] }
// INDEX, INDEX:, INDICES, INDICES:, INDEX_SECTION, INDEX_SECTION:, INDICES_SECTION, INDICES_SECTION:, NAMES, NAMES:, NAME_SECTION, NAME_SECTION:, NAMES_SECTION, NAMES_SECTION:, Indices, Indices:, Names, Names:
#[verifier::opaque] pub open spec fn kw_names(s: Seq<i8>) -> bool { s =~= seq![73i8, 78i8, 68i8, 69i8, 88i8] || s =~= seq![73i8, 78i8, 68i8, 69i8, 88i8, 58i8] || s =~= seq![73i8, 78i8, 68i8, 73i8, 67i8, 69i8, 83i8] || s =~= seq![73i8, 78i8, 68i8, 73i8, 67i8, 69i8, 83i8, 58i8] || s =~= seq![73i8, 78i8, 68i8, 69i8, 88i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8] || s =~= seq![73i8, 78i8, 68i8, 69i8, 88i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8, 58i8] || s =~= seq![73i8, 78i8, 68i8, 73i8, 67i8, 69i8, 83i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8] || s =~= seq![73i8, 78i8, 68i8, 73i8, 67i8, 69i8, 83i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8, 58i8] || s =~= seq![78i8, 65i8, 77i8, 69i8, 83i8] || s =~= seq![78i8, 65i8, 77i8, 69i8, 83i8, 58i8] || s =~= seq![78i8, 65i8, 77i8, 69i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8] || s =~= seq![78i8, 65i8, 77i8, 69i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8, 58i8] || s =~= seq![78i8, 65i8, 77i8, 69i8, 83i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8] || s =~= seq![78i8, 65i8, 77i8, 69i8, 83i8, 95i8, 83i8, 69i8, 67i8, 84i8, 73i8, 79i8, 78i8, 58i8] || s =~= seq![73i8, 110i8, 100i8, 105i8, 99i8, 101i8, 115i8] || s =~= seq![73i8, 110i8, 100i8, 105i8, 99i8, 101i8, 115i8, 58i8] || s =~= seq![78i8, 97i8, 109i8, 101i8, 115i8] || s =~= seq![78i8, 97i8, 109i8, 101i8, 115i8, 58i8] }
// END, End
#[verifier::opaque] pub open spec fn kw_end(s: Seq<i8>) -> bool { s =~= seq![69i8, 78i8, 68i8] || s =~= seq![69i8, 110i8, 100i8] }
// Reduced
#[verifier::opaque] pub open spec fn kw_reduced(s: Seq<i8>) -> bool { s =~= seq![82i8, 101i8, 100i8, 117i8, 99i8, 101i8, 100i8] }
// DIM, possibly with the dimension in the same line: what precedes an equality sign
pub open spec fn dim_word(s: Seq<i8>) -> Seq<i8> { trim(s.take(find_from(s, 0, |c: i8| c == 61))) }
#[verifier::opaque] pub open spec fn kw_dimension(s: Seq<i8>) -> bool { let k = dim_word(s); k =~= seq![68i8, 73i8, 77i8] || k =~= seq![68i8, 73i8, 77i8, 69i8, 78i8, 83i8, 73i8, 79i8, 78i8] || k =~= seq![68i8, 105i8, 109i8] || k =~= seq![68i8, 105i8, 109i8, 101i8, 110i8, 115i8, 105i8, 111i8, 110i8] }
#[verifier::opaque] pub open spec fn keyword(s: Seq<i8>) -> bool { kw_conical(s) || kw_reduced_conical(s) || kw_convex(s) || kw_reduced_convex(s) || kw_equations(s) || kw_inequalities(s) || kw_reduced_inequalities(s) || kw_maps(s) || kw_names(s) || kw_end(s) || kw_reduced(s) || kw_dimension(s) }
pub proof fn lemma_dim_word(s: Seq<i8>) requires s.len() <= 0x7fff_ffff_ffff_fffe ensures str_sub(s, 0, str_first_of(s, seq![61i8], 0, true) as int) =~= s.take(find_from(s, 0, |c: i8| c == 61))
{
  let w = seq![61i8]; let p = |c: i8| c == 61; let q = |c: i8| w.contains(c) == true;
  assert forall|c: i8| #[trigger] p(c) == q(c) by { assert(w[0] == 61 && w.len() == 1); if c == 61 { assert(w[0] == c); } }
  lemma_find_same(s, 0, p, q); lemma_find_from(s, 0, p);
}
pub proof fn lemma_no_keyword() ensures !keyword(trim(Seq::empty())), trim(Seq::empty()).len() == 0 { lemma_trim(Seq::empty()); let t = trim(Seq::<i8>::empty()); assert(t =~= Seq::empty()); reveal(keyword); reveal(kw_conical); reveal(kw_reduced_conical); reveal(kw_convex); reveal(kw_reduced_convex); reveal(kw_equations); reveal(kw_inequalities); reveal(kw_reduced_inequalities); reveal(kw_maps); reveal(kw_names); reveal(kw_end); reveal(kw_reduced); reveal(kw_dimension); assert(dim_word(t) =~= Seq::empty()) by { let e = t.take(find_from(t, 0, |c: i8| c == 61)); assert(e =~= Seq::empty()); } }
