@unit input_sort
@tu src/input.cpp
@mode Z
@native int
@lib sorting input_sort
@import input_order classes@int

@fn sort(argc, argv, matrix) key "(anonymous namespace)::sort(int"
@requires argc == argv.len() && argc > 0
@throws
@ensures [nothing but reordered] matrix.to_multiset() =~= old(matrix).to_multiset() && matrix.len() == old(matrix).len() && forall|x: Seq<int>| #[trigger] matrix.contains(x) <==> old(matrix).contains(x)
@ensures [in the order asked for] exists|o: i32| #[trigger] order_asked(asked(argv, 1), o) && in_order(o, old(matrix), matrix)
@exc [refused only if the option is malformed] refused(asked(argv, 1))
@entry lemma_lex_facts(); lemma_reverse_multiset(matrix); lemma_same_multiset(matrix);

@foreach F T K in expandInequalities|facet|0 expandVertices|vertex|1
@fn $F$(matrix, maps)
@requires matrix.len() > 0 && maps.len() > 0 ==> are_maps(maps, matrix[0].len() as int) && rect(matrix, matrix[0].len())
@throws
@ensures [the class of every row, in order] maps.len() > 0 && expanded($K$, maps, old(matrix), old(matrix).len() as int, matrix)
@exc [refused only without maps] maps.len() == 0
@loop 0
@invariant [classes so far] expanded($K$, maps, matrix, $k, all)
@start assert(rect(matrix, matrix[0].len())); assert(matrix[$k].len() == matrix[0].len());
@call getClass 0 after ghost CL = result; ghost AL = all;
@end lemma_expand($K$, maps, matrix, $k - 1, AL, CL, all);
@endfor
