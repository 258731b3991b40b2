@unit keywords
@tu src/input_keywords.cpp
@mode Z
@native int
@streams
@lib prelude string stream keywords
@import stream

@foreach F K in ConicalHull|conical ReducedConicalHull|reduced_conical ConvexHull|convex ReducedConvexHull|reduced_convex Equations|equations Inequalities|inequalities ReducedInequalities|reduced_inequalities Maps|maps Names|names End|end ReducedSomething|reduced
@fn panda::input::implementation::isKeyword$F$(string)
@pure kw_$K$(string)
@ensures [the documented keywords] result == kw_$K$(string)
@entry reveal(kw_$K$);
@endfor

@fn panda::input::implementation::isKeywordDimension(string)
@pure kw_dimension(string)
@ensures [the documented keywords] result == kw_dimension(string)
@entry reveal(kw_dimension); lemma_dim_word(string);

@fn panda::input::implementation::isKeyword(string)
@pure keyword(string)
@ensures [one of the keywords] result == keyword(string)
@entry reveal(keyword);
