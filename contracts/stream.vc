@unit stream
@tu src/input_common.cpp
@tu src/istream_peek_line.cpp
@mode Z
@native int
@streams
@lib prelude string stream

@fn panda::input::isWhitespace(stream)
@ensures [a blank is next] result == (!old(stream).f && is_blank(ch(old(stream).s, old(stream).p)))
@ensures [nothing is consumed] stream == s_clear(old(stream))

@fn panda::input::isEndOfLine(stream)
@ensures [the line ends here] result == (!old(stream).f && is_eol(ch(old(stream).s, old(stream).p)))
@ensures [nothing is consumed] stream == s_clear(old(stream))

@fn panda::input::isEndOfFile(stream)
@ensures [nothing is left] result == (!old(stream).f && old(stream).p == old(stream).s.len())
@ensures [nothing is consumed] stream == s_clear(old(stream))

@fn panda::input::isIdentifier(stream)
@ensures [a parenthesis is next] result == (!old(stream).f && ch(old(stream).s, old(stream).p) == 40)
@ensures [nothing is consumed] stream == s_clear(old(stream))

@fn panda::input::skipWhitespace(stream)
@ensures [at the next character that is no blank] stream == (if old(stream).f { old(stream) } else { moved(old(stream), skip_blank(old(stream).s, old(stream).p)) })
@loop 0
@invariant [only blanks so far] stream.s == old(stream).s && skip_blank(stream.s, stream.p) == skip_blank(stream.s, old(stream).p) && stream.f == old(stream).f && (stream.f ==> stream == old(stream))
@decreases stream.s.len() - stream.p
@after lemma_skip_blank(stream.s, stream.p);

@fn panda::input::skipEndOfLine(stream)
@ensures [at the next character that does not end a line] stream == (if old(stream).f { old(stream) } else { moved(old(stream), skip_eol(old(stream).s, old(stream).p)) })
@loop 0
@invariant [only ends of lines so far] stream.s == old(stream).s && skip_eol(stream.s, stream.p) == skip_eol(stream.s, old(stream).p) && stream.f == old(stream).f && (stream.f ==> stream == old(stream))
@decreases stream.s.len() - stream.p

@fn panda::peekLine(file)
@ensures [the line] result =~= peek_line(old(file))
@ensures [nothing is consumed] file == peeked(old(file))
@entry lemma_line_end(file.s, file.p);

@fn panda::input::trimWhitespace(string)
@ensures [no blanks at either end] result =~= trim(old(string))
@entry lemma_trim(string); lemma_trim(trim_front(string));

@fn panda::input::firstWord(line)
@ensures [the first word] result =~= first_word(old(line))
@entry lemma_first_word(line);

@fn panda::input::identifier(stream)
@throws
@ensures [the text in the parentheses] is_id(old(stream).s, old(stream).p) && !old(stream).f && result =~= id_text(old(stream).s, old(stream).p)
@ensures [behind the closing parenthesis] stream == moved(old(stream), id_close(old(stream).s, old(stream).p) + 1)
@exc [refused only if it is not closed on its line] old(stream).f || !is_id(old(stream).s, old(stream).p)
@entry if stream.p < stream.s.len() { lemma_skip_blank(stream.s, stream.p + 1); lemma_id_end(stream.s, skip_blank(stream.s, stream.p + 1)); }
@loop 0
@before ghost A = stream.p;
@invariant [the text so far] stream.s == old(stream).s && !stream.f && !stream.e && A <= stream.p && id_end(stream.s, stream.p) == id_end(stream.s, A) && string =~= stream.s.subrange(A, stream.p)
@decreases stream.s.len() - stream.p
@end assert(string =~= stream.s.subrange(A, stream.p));
