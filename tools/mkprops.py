#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the statements stay readable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    assert len(title)<=80
    P.append(d)

p('C01','Jamo phonemes are composed into exactly the right Hangul syllables',
 "For every string, composing it processes the characters left to right: a consonant jamo is a lead (a tail when preceded by a hyphen), a vowel is a medial, an already composed syllable keeps its parts and may still receive a tail, and a new syllable starts exactly when the next jamo does not come later in lead-medial-tail order than the one before it. A syllable without a lead gets ㅇ, one without a medial gets ㅡ, nothing pending is ever lost at the end or before a non-Hangul character, and non-Hangul characters come out unchanged, once each and in place, while hyphens never come out. Hence writing any precomposed Hangul text as lead, medial, hyphen-tail and composing it gives the text back.",
 ['inputs'],'every UTF-8 or invalid string, of any length and any interleaving of jamo, hyphens, syllables and foreign characters',
 'The tests compose about a dozen fixed strings; the automaton has a state (three slots and the previous position) whose interaction over arbitrary sequences they do not reach.',
 ['internal/jamo/jamo.go'],[('composer state machine','internal/jamo/jamo.go: composer.Compose, read, write'),('jamo classification','internal/jamo/jamo.go: analyzeHangul')],
 ['ComposeHangul'])
p('C02','Subword replacement rewrites exactly the replaced ranges and keeps levels',
 "For every word and every ordered, non-overlapping list of in-range replacements, the resulting text is the original with exactly those ranges substituted, and every byte of it carries the level of its origin: the previous level outside the ranges and the next level inside. Splitting the result yields subwords whose texts concatenate to the result, each made of bytes of one level (in the order of the text), with neighbours of different level, and merging adjacent subwords of equal level loses, duplicates or reorders nothing.",
 ['inputs','histories'],'every word, level pair, sequence of replacement batches and subword list',
 'Unit tests use two short words with one batch each; successive batches on already replaced text, multi-byte text and empty replacements are unsampled.',
 ['internal/subword/replace.go','internal/subword/builder.go'],[('buffered replacements applied to word and levels together','internal/subword/replace.go: Replacer.commit'),('split by level','internal/subword/replace.go: Replacer.Subwords'),('merge by level','internal/subword/builder.go: Builder.Subwords')],
 ['Replacer.String','Replacer.Subwords','Builder.String','Builder.Subwords'],
 [('levels','one level per byte of the word','internal/subword/replace.go')])
p('C03','Pattern matches are in range, non-empty, ordered, disjoint and bounded',
 "For every compiled pattern that does not match the empty string, every word and every limit n, finding matches terminates and reports ranges that lie within the word, are non-empty, increase strictly and never overlap, and never more than n of them when n is not negative. A larger or absent limit only extends the list: the first n matches are the same whatever the limit, and each reported submatch is an unset pair or a range within the word.",
 ['inputs'],'every pattern, word and limit',
 'Tests check single matches of fixed patterns on short words; the offset shifting, unset groups and the limit interact over arbitrary repeated matches.',
 ['pkg/hre/pattern.go'],[('search on the shifted word','pkg/hre/pattern.go: Pattern.Find'),('start and stop of the core','pkg/hre/pattern.go: pickStartStop')],['Pattern.Find'])
p('C04','A negative lookaround always excludes what it names, and nothing else',
 "For every pattern with a bounded negative lookahead {~x} (or lookbehind) built from letters, classes, groups, alternatives, variables and bounded repetitions, a candidate is reported if and only if the text right after it (right before it) does not match x. This holds wherever the candidate stands in the word, however many bytes the letters take, and whatever parentheses x contains.",
 ['inputs'],'every such pattern and every word, including non-ASCII text and candidates close to the ends of the word',
 'The tests use ASCII lookarounds only, in which a byte and a letter are the same, and lookbehinds far from the start of the word.',
 ['pkg/hre/pattern.go','pkg/hre/util.go','pkg/hre/assertions.go','pkg/hre/width.go'],[('lookaround windows','pkg/hre/pattern.go: Pattern.Find'),('rune stepping','pkg/hre/util.go: advance, retreat, substr'),('lookaround extraction','pkg/hre/assertions.go: expandLookahead, expandLookbehind, dissolveLookaround')],['Pattern.Find','Pattern.Replace'])
p('C05','Replacing substitutes exactly the matches, mapping variables by position',
 "For every pattern, right side and word, the replaced text is the word with each match substituted by the right side and everything else untouched; on the right side plain text is copied and the k-th variable yields the value at the same position (modulo its size) as the value that the k-th captured variable of the pattern matched. When this mapping is undefined (fewer captured variables, an empty or unknown variable, a captured text that is not a value) the match is left as it is and an error is reported to the direct caller; nothing panics.",
 ['inputs'],'every pattern, right side, variable table, match and word',
 'Three interpolation tests with equal-sized variables; unequal sizes, repeated values, missing groups and lookaround variables are not sampled.',
 ['pkg/hre/rpattern.go','pkg/hre/pattern.go','pkg/hre/util.go','rule.go'],[('interpolation','pkg/hre/rpattern.go: RPattern.Interpolate'),('value lookup','pkg/hre/util.go: indexOf, captured'),('replacement loops','pkg/hre/pattern.go: Pattern.Replace; rule.go: Rule.replacements, Rule.Replace')],['Pattern.Replace','RPattern.Interpolate','Rule.Replace'])
p('C06','The computed regexp width bounds every match; unlimited ones are rejected',
 "For every parsed regular expression the computed maximum width is -1 exactly when some unlimited repetition of it (or of a part that can occur) is present, and otherwise it is the sum over concatenations, maximum over alternatives and product over repetitions of the letters consumed, so no match is ever longer. A spec containing a negative lookaround of unlimited width is refused with an error and never yields rules.",
 ['inputs','programs'],'every regular expression tree and every rule list',
 'Nine literal expressions are tested; nesting of repetitions, groups and alternatives is unbounded.',
 ['pkg/hre/width.go','spec.go'],[('structural recursion','pkg/hre/width.go: RegexpMaxWidth'),('rejection','spec.go: newRules')],['RegexpMaxWidth','Pattern.NegativeLookaroundWidths','ParseSpec'])
p('C07','Parsing HSL always terminates with a result or an error, never a crash',
 "For every byte sequence and every reader, including readers that fail midway, parsing terminates and returns either a result or an error, never both and never a panic. Malformed sources (an illegal character, a lone hyphen, an unterminated string, a duplicated dictionary key, a pair outside any section) and reader failures are reported as errors rather than as a truncated result.",
 ['inputs','fault_sequences'],'every source text and every point at which the reader may fail',
 'Tests parse well-formed sources only; malformed input and I/O failure paths are not executed.',
 ['pkg/hsl/lexer.go','pkg/hsl/parser.go','pkg/hsl/structures.go'],[('scanner loops','pkg/hsl/lexer.go'),('parser loop','pkg/hsl/parser.go: parse, parseValues')],['hsl.Parse'])
p('C08','An HSL source is read faithfully: order, text, comments and line numbers',
 "For every source, sections contain exactly the pairs written under their headings: list pairs in source order, dictionary pairs by their unique key, with every value of the pair in order and nothing from any other line. Quoted text is kept verbatim (with \\\" and \\\\ unescaped), comments and blank space never change the result, and each section and pair reports the line of its colon or its equals sign or arrow.",
 ['inputs'],'every well-formed source text, any layout of spaces, comments and newlines',
 'A few fixed sources are compared; the interaction of comments, quoting and newlines with neighbouring lines is not sampled.',
 ['pkg/hsl/lexer.go','pkg/hsl/parser.go','pkg/hsl/structures.go'],[('tokens','pkg/hsl/lexer.go: Scan and scan*'),('pairs','pkg/hsl/parser.go'),('sections','pkg/hsl/structures.go')],['hsl.Parse','Section.Pairs','DictSection.One/All/Map/Injective'])
p('C09','Loading a spec is total and yields rules, examples and source as written',
 "For every source text, parsing a spec returns either an error or a complete spec, never a panic: a section of the wrong kind, a rule or example without a right side, a macro with several values, codes that are not two, an unknown script or an uncompilable pattern is an error. On success the rewrite and transcribe rules and the test examples are those of the source in source order, rule IDs are their positions, and the kept source text is the input byte for byte.",
 ['inputs'],'every source text',
 'Tests load bundled, well-formed specs.',
 ['spec.go'],[('section extraction','spec.go: ParseSpec'),('rules','spec.go: newRules')],['ParseSpec'])
p('C10','The same spec and word always give the same result',
 "Compiling macros, spec normalizations and Cyrillic mappings does not depend on the iteration order of maps: for overlapping sources the longest one is preferred and the result is a function of the tables and the text only. Consequently building the same spec twice, in any process, gives transcribers that agree on every word.",
 ['inputs','schedules'],'every macro, normalization and mapping table, every word, and every map iteration order the runtime may choose',
 'Map iteration order is random per run; a test observes one order and the bundled tables mostly do not overlap.',
 ['pkg/hre/macro.go','spec.go','translit/cyrillic/cyrillic.go','pkg/hre/pattern.go'],[('sorted replacement arguments','pkg/hre/macro.go: expandMacros; spec.go: newNormReplacer; translit/cyrillic/cyrillic.go: mustNew'),('sorted letters','pkg/hre/pattern.go: Letters')],['NewPattern','ParseSpec','Translit.Transliterate'])
p('C11','Normalization changes only letters of the script that are not exempt',
 "For every word, normalization first applies the spec's replacements and then maps character by character: a character that is not of the script, or that occurs anywhere in a normalization target of the spec, is kept, and every other one is replaced by its script's normal form, so the number and order of characters is preserved. The normal form is the lower case for Cyrillic and Greek, the identity for Georgian, the Katakana counterpart for Hiragana (identity otherwise), and the lower-cased base letter for Latin, for every code point.",
 ['inputs'],'every word, every spec normalization table and every code point',
 'A handful of letters per script are tested out of the whole code space.',
 ['procedure.go','spec.go','internal/scripts/latn.go','internal/scripts/cyrl.go','internal/scripts/grek.go','internal/scripts/geor.go','internal/scripts/hrkt.go'],[('per-character mapping','procedure.go: procedure.normalize'),('exempt letters','spec.go: ParseSpec'),('script normal forms','internal/scripts/*.go: Normalize')],['Hangulizer.Hangulize','script.Normalize'])
p('C12','The pipeline rewrites sequentially, transcribes each letter once, loses nothing',
 "For every spec and word, characters that are neither of the script, nor punctuation used by the rules, nor spaces pass through unchanged and in place; rewrite rules are applied in order, each to the result of the previous one; transcribe rules are applied in order to the text not yet transcribed, so no part of the text is ever replaced twice. Letters that no transcribe rule consumed are dropped, a run of them containing a space becoming one space, and the remaining pieces are composed into Hangul between the untouched parts.",
 ['inputs','programs'],'every rule list and every word',
 'Spec examples exercise fixed words; masking, levels and offsets over arbitrary rule sequences and multi-byte text are not settled by them.',
 ['procedure.go','rule.go','space.go'],[('partition','procedure.go: procedure.partition'),('rewrite','procedure.go: procedure.rewrite'),('masking','procedure.go: procedure.transcribe'),('compose between level 0 parts','procedure.go: procedure.syllabify')],['Hangulizer.Hangulize'])
p('C13','Localization only converts punctuation and trims its spaces',
 "For every text, localization keeps every character that is neither punctuation nor a zero-width space, unchanged and in order, drops zero-width spaces, and replaces each punctuation character by its script's Korean form. The spaces of that form are trimmed on a side exactly when the neighbouring character on that side is punctuation, a space, or the edge of the text.",
 ['inputs'],'every text and script',
 'Two Japanese phrases are tested.',
 ['procedure.go','internal/scripts/hrkt.go'],[('localize','procedure.go: procedure.localize'),('forms','internal/scripts/*.go: LocalizePunct')],['Hangulizer.Hangulize'])
p('C14','Tracing never changes the result and ends with it',
 "For every spec, word and tracing function, the result and error are the same as without tracing. Reported words of consecutive events always differ, the first event is the non-empty input, and after a successful run the last reported word is the returned one (no event at all means that it equals the empty string).",
 ['inputs','histories'],'every word, spec and sequence of events',
 'One fixed trace is compared in the tests.',
 ['trace.go','procedure.go'],[('deduplicating tracer','trace.go: tracer.trace'),('subword trace merge','trace.go: subwordsTracer.RecordSubword, Commit')],['Hangulizer.Trace'])
p('C15','Transliteration runs the listed schemes in order and reports failures',
 "For every spec, the transliterators named by the spec are applied in the listed order, each to the output of the previous one, and none other is called. A missing transliterator yields an error that is ErrTranslitNotImported, a failing one an error that is ErrTranslit, in both cases with an empty word and without running later steps; an unknown language yields ErrSpecNotFound and the word itself.",
 ['inputs','fault_sequences'],'every scheme list, registry content and failure point',
 'Tests run single successful schemes and one missing one.',
 ['procedure.go','hangulize.go','errors.go'],[('transliterate','procedure.go: procedure.transliterate, forward'),('language lookup','hangulize.go: Hangulize')],['Hangulize','Hangulizer.Hangulize'])
p('C16','The transliterator registry keeps the first per scheme; install is atomic',
 "For every history of use and unuse operations, a registry maps each scheme to the first transliterator registered since it was last removed; adding reports whether the scheme was free, removing reports whether it was present, and neither touches other schemes. A listing is a copy that cannot alter the registry, registries of different transcribers are independent, and installing the standard set either adds all of them or, when one is refused, leaves the registry as it was.",
 ['histories'],'every sequence of registry operations',
 'Tests run one short sequence.',
 ['translit.go','hangulize.go','translit/translit.go'],[('registry','translit.go: translitRegistry'),('install with rollback','translit/translit.go: Install')],['UseTranslit','UnuseTranslit','Translits','translit.Install'])
p('C17','The bundled spec cache is transparent',
 "For every history of loads and unloads and every language name, loading returns the parsed bundled spec of exactly that name, or ErrSpecNotFound with no spec when there is none, and never caches a failure. Loading twice without an unload in between returns the same spec, unloading affects no other language, and every listed language can be loaded.",
 ['histories','inputs'],'every sequence of load and unload calls with arbitrary names',
 'Tests load each language once.',
 ['specs.go'],[('cache','specs.go: LoadSpec, UnloadSpec'),('listing','specs.go: ListLangs')],['LoadSpec','UnloadSpec','ListLangs'])
p('C18','Kana iteration marks repeat the previous kana, voiced or unvoiced',
 "For every text, an iteration mark directly after a kana of its own script becomes that (already resolved) kana, unvoiced for the plain mark and voiced for the voiced mark where such a counterpart exists, otherwise as it is. Every other character is kept, so the text has the same number of characters, and unvoicing or voicing always stays within the same script and is the other's inverse on kana that have both forms.",
 ['inputs'],'every text and every kana',
 'Eight sample strings are tested; the arithmetic on code points covers some 190 kana.',
 ['translit/furigana/repeat.go'],[('resolution','translit/furigana/repeat.go: repeatKana'),('code point arithmetic','translit/furigana/repeat.go: toSeion, toDakuon')],['Translit.Transliterate'])
p('C19','Long vowels become the long mark only where they lengthen',
 "For every text and offset, a Katakana vowel at or after the offset whose preceding original character belongs to a row that it lengthens is replaced by the long mark. Every other character, in particular everything before the offset and the first character, is kept, so the number of characters never changes.",
 ['inputs'],'every text and offset',
 'A few words are tested.',
 ['translit/furigana/longvowel.go'],[('merge','translit/furigana/longvowel.go: mergeLongVowels')],['Translit.Transliterate'])
p('C20','The pronunciation of analysed tokens is assembled in order, none lost',
 "For every list of analysed tokens, the pronunciation is the concatenation, in order and each once, of the pronunciations of the tokens that are not dummies (the surface for unknown tokens, the spoken form for the particles は and へ), with long vowels merged and with one space inserted exactly between two adjacent personal names. Assembling terminates and asking twice gives the same text.",
 ['inputs'],'every token list',
 'A few sentences are tested through the real tokenizer.',
 ['translit/furigana/typewriter.go'],[('scan loop','translit/furigana/typewriter.go: typewriter.Typewrite, scanMorpheme, read, unread'),('token interpretation','translit/furigana/typewriter.go: interpretToken')],['Translit.Transliterate'])
p('C21','Pinyin replaces each known character and keeps all other text',
 "For every text, after composition each character with a known reading becomes that reading and maximal runs of other characters are kept verbatim, in order. These pieces are joined by exactly one zero-width space, with none at the ends, and no error is ever returned.",
 ['inputs'],'every text',
 'Two words are tested.',
 ['translit/pinyin/pinyin.go'],[('chunking','translit/pinyin/pinyin.go: pinyin.Transliterate')],['Translit.Transliterate'])
p('C22','Trace formatting prints every event once, aligned, without crashing',
 "For every list of trace events, printing emits one line per event in order, preceded by a step heading exactly when the step differs from the previous one, and shows the word padded to a column that never shrinks and always fits the word. The rule, or else a non-empty reason, follows the word, and no event list makes printing crash.",
 ['inputs'],'every list of trace events, any display width',
 'One short trace is printed in the tests.',
 ['pkg/tracefmt/tracefmt.go'],[('column growth','pkg/tracefmt/tracefmt.go: FprintTraces')],['tracefmt.FprintTraces'])
p('C23','Concurrent transcriptions do not interfere',
 "For every schedule of goroutines loading specs and transcribing words, each call returns what it would return alone and no data race occurs. This covers the shared spec cache, the default transliterator registry and the lazily created tokenizer.",
 ['schedules'],'every interleaving of concurrent API calls',
 'Tests are sequential.',
 ['specs.go','translit.go','translit/furigana/furigana.go'],[('shared maps','specs.go: specs; translit.go: defaultTranslitRegistry')])
p('C24','The command line tool transcribes every input word once, in order',
 "For every argument list or standard input, the tool prints one result per word in order, also for a last line without a newline, and stops with a non-zero exit code at the first failure. Words are passed between goroutines without loss or deadlock.",
 ['inputs','schedules'],'every input stream',
 'The command has no tests.',
 ['cmd/hangulize/main.go'],[('word channel','cmd/hangulize/main.go: readWords, hangulizeStream')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
