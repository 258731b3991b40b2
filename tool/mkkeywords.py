"""Writes contracts/lib/keywords.rs: the keywords that start (or end) a section of an input file."""
import os
def L(w): return "seq![%s]" % ", ".join("%di8" % ord(c) for c in w)
K = {
 "conical": ["CONE_SECTION", "CONICAL_HULL", "CONICAL_HULL_SECTION", "Rays"],
 "reduced_conical": ["REDUCED_CONE_SECTION", "REDUCED_CONICAL_HULL", "REDUCED_CONICAL_HULL_SECTION", "Reduced Rays"],
 "convex": ["CONVEX_HULL", "CONVEX_HULL_SECTION", "CONV_SECTION", "Vertices"],
 "reduced_convex": ["REDUCED_CONVEX_HULL", "REDUCED_CONVEX_HULL_SECTION", "REDUCED_CONV_SECTION", "Reduced Vertices"],
 "equations": ["EQUATIONS", "EQUATION_SECTION", "EQUATIONS_SECTION", "Equations"],
 "inequalities": ["INEQUALITIES", "INEQUALITY_SECTION", "INEQUALITIES_SECTION", "Inequalities"],
 "reduced_inequalities": ["REDUCED_INEQUALITIES", "REDUCED_INEQUALITY_SECTION", "REDUCED_INEQUALITIES_SECTION", "Reduced Inequalities"],
 "maps": ["MAPS", "MAP_SECTION", "MAPS_SECTION", "Maps"],
 "names": ["INDEX", "INDICES", "INDEX_SECTION", "INDICES_SECTION", "NAMES", "NAME_SECTION", "NAMES_SECTION", "Indices", "Names"],
}
PLAIN = {"end": ["END", "End"], "reduced": ["Reduced"]}
out = ["// keywords of input files (tool/mkkeywords.py); a colon may follow"]
def fn(n, ws):
    out.append("// " + ", ".join(ws))
    out.append("#[verifier::opaque] pub open spec fn kw_%s(s: Seq<i8>) -> bool { %s }" % (n, " || ".join("s =~= " + L(w) for w in ws)))
for n, ws in K.items():
    fn(n, [w + c for w in ws for c in ("", ":")])
for n, ws in PLAIN.items():
    fn(n, ws)
out.append("// DIM, possibly with the dimension in the same line: what precedes an equality sign")
out.append("pub open spec fn dim_word(s: Seq<i8>) -> Seq<i8> { trim(s.take(find_from(s, 0, |c: i8| c == 61))) }")
ws = ["DIM", "DIMENSION", "Dim", "Dimension"]
out.append("#[verifier::opaque] pub open spec fn kw_dimension(s: Seq<i8>) -> bool { let k = dim_word(s); %s }" % " || ".join("k =~= " + L(w) for w in ws))
out.append("#[verifier::opaque] pub open spec fn keyword(s: Seq<i8>) -> bool { %s }" % " || ".join("kw_%s(s)" % n for n in list(K) + list(PLAIN) + ["dimension"]))
out.append("""pub proof fn lemma_dim_word(s: Seq<i8>) requires s.len() <= 0x7fff_ffff_ffff_fffe ensures str_sub(s, 0, str_first_of(s, seq![61i8], 0, true) as int) =~= s.take(find_from(s, 0, |c: i8| c == 61))
{
  let w = seq![61i8]; let p = |c: i8| c == 61; let q = |c: i8| w.contains(c) == true;
  assert forall|c: i8| #[trigger] p(c) == q(c) by { assert(w[0] == 61 && w.len() == 1); if c == 61 { assert(w[0] == c); } }
  lemma_find_same(s, 0, p, q); lemma_find_from(s, 0, p);
}""")
out.append("pub proof fn lemma_no_keyword() ensures !keyword(trim(Seq::empty())), trim(Seq::empty()).len() == 0 { lemma_trim(Seq::empty()); let t = trim(Seq::<i8>::empty()); assert(t =~= Seq::empty()); reveal(keyword); %s assert(dim_word(t) =~= Seq::empty()) by { let e = t.take(find_from(t, 0, |c: i8| c == 61)); assert(e =~= Seq::empty()); } }" % " ".join("reveal(kw_%s);" % n for n in list(K) + list(PLAIN) + ["dimension"]))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts", "lib", "keywords.rs"), "w").write("\n".join(out) + "\n")
