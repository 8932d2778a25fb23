#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NA = [], [], []


def P(id, title, statement, over, text, why, files, mech, technique=None, level='other', note='', state=(), observe=(), na=None, thorough=True):
    p = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                          observe_at=list(observe), hook_needed=None))
    PROPS.append(p)
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        c = dict(property=id, quick_cmd='VERIF_TIER=quick python3-vt check.py ' + id,
                 evidence_file='evidence/%s.json' % id, technique=technique, level=level, level_note=note)
        if thorough:
            c['thorough_cmd'] = 'VERIF_TIER=thorough python3-vt check.py ' + id
        CHECKS.append(c)


UTF = 'include/strf/detail/utf.hpp'
SBC = 'include/strf/detail/single_byte_charsets.hpp'
CHS = 'include/strf/detail/facets/charset.hpp'
AI = 'abstract interpretation of LLVM IR in lock-step with a specification automaton (relational loop invariants, value partitioning)'
AINOTE = ('Sound for all inputs, buffer sizes and flag combinations for every entry reported "all-lengths" (all of them on the pinned tree), relative to: '
          'clang 18 front end on x86-64, C++20, NDEBUG; the engine in lib/ and the specification in lib/charsets.py. '
          'Entries on changed code for which no invariant is found fall back to an exhaustive abstract analysis up to a bounded length and are reported as undecided beyond it.')

P('T01', 'UTF transcoding yields exactly the specified output',
  'Transcoding between UTF-8, UTF-16 and UTF-32 turns every well-formed character into its unique encoding in the target and every maximal ill-formed subsequence (as recommended by Unicode; surrogates are ill-formed unless the lax policy is chosen) into exactly one replacement character, in order and with nothing lost, duplicated or invented.',
  ['inputs'], 'for every source string of any length and content, every amount of destination room and every combination of transcoding flags, for all nine pairs of encodings and every character type',
  'The tests feed a few dozen hand-picked sequences; the space of byte sequences, split points and flag combinations is unbounded.',
  [UTF, CHS], [('transcode loops per pair of encodings', UTF + ': static_transcoder<...>::transcode'), ('sequence classification helpers', UTF + ': first_2_of_3_are_valid, first_2_of_4_are_valid, is_utf8_continuation, is_surrogate')],
  AI, 'proof', AINOTE, observe=['destination buffer contents', 'returned positions'])
P('T02', 'Transcoding never touches memory outside the given ranges',
  'Every transcoding operation (checked or unsafe, transcoding or size prediction) reads only the source units it was given and writes only the destination units it was given, whatever the content of the source; the unsafe variants promise this for valid input.',
  ['inputs'], 'for every source range (including empty and truncated ones), every destination range (including empty) and every flag combination',
  'Out-of-bounds accesses need particular truncations together with particular amounts of room and usually do not fail a test when they happen.',
  [UTF, SBC], [('end-of-source and room tests', UTF + ': STRF_UTF_CHECK_DST, STRF_UTF_CHECK_DST_SIZE, src_it != src_end'), ('block copies', UTF + ': unsafe_transcode of an encoding to itself')],
  AI, 'proof', AINOTE, observe=['memory accesses'])
P('T03', 'The size predicted for a transcoding is the size it produces',
  'Asking for the size of a transcoding with a limit gives exactly the unit count, the source position and the stop reason that transcoding the same input with the same flags into a buffer of that many units gives.',
  ['inputs'], 'for every source string, limit and flag combination, for every pair of supported encodings',
  'Each pair has separately written size code with up to eight specialisations; tests compare a few strings at a few limits.',
  [UTF, SBC], [('size loops per pair of encodings', UTF + ': transcode_size, transcode_size_, transcode_size_stop_on_inv_seq_, transcode_size_continue_on_inv_seq_'), ('single-byte size code', SBC + ': find_first_*_codepoint, find_invalid_sequence')],
  AI, 'proof', AINOTE, observe=['returned size, position and stop reason'])
P('T04', 'Unsafe transcoding equals checked transcoding on valid input',
  'On source text that is well formed under the chosen flags, the unsafe transcoding operations (and their size predictions) give the same output, positions and stop reason as the checked ones, for every amount of room; when the room is short they deliver the longest prefix of whole characters that fits.',
  ['inputs'], 'for every well-formed source string, room and flag combination, for every pair of supported encodings',
  'The unsafe code is a separate implementation per pair with its own shortcuts (block copies, counting non-continuation bytes); tests sample few lengths and rooms.',
  [UTF, SBC], [('unsafe loops', UTF + ': unsafe_transcode, unsafe_transcode_size'), ('block copy backing up to a character boundary', UTF + ': UTF-8 to UTF-8 and UTF-16 to UTF-16')],
  AI, 'proof', AINOTE)
P('T05', 'Error notifications are exact',
  'During a transcoding the error notifier, if there is one, is called once per invalid sequence and once per unsupported codepoint, in source order, before the replacement is written or the operation stops, with the right unit size, charset name, sequence address, sequence length or codepoint, and never otherwise; a null notifier is never called.',
  ['inputs'], 'for every source string, room, flag combination and pair of supported encodings, with and without a notifier',
  'Tests check the notifications of a few sample strings; the arguments depend on where in the sequence the error is detected.',
  [UTF, SBC, CHS], [('notifier calls', UTF + ' and ' + SBC + ': err_notifier->invalid_sequence, err_notifier->unsupported_codepoint')], AI, 'proof', AINOTE)
P('T06', 'Transcoding stops for the specified reason at a resumable position',
  'A transcoding stops exactly when the source is exhausted, when the next output does not fit, or at the first invalid sequence or unsupported codepoint for which the corresponding stop flag is set (errors take precedence over lack of room); it reports that reason and positions such that nothing before them is pending and resuming from them continues as if there had been no stop.',
  ['inputs', 'histories'], 'for every source string, room, flag combination and pair of supported encodings',
  'The interplay of room, truncation and flags is a product space that tests sample sparsely.',
  [UTF, SBC], [('stop conditions and returned positions', UTF + ' and ' + SBC + ': return {seq_begin, dst_it, reason::...}')], AI, 'proof', AINOTE)
P('T07', 'Single-byte charsets follow their published tables in both directions',
  'Decoding a byte of a supported ISO-8859, Windows or ASCII charset gives the codepoint of the published table, or an invalid sequence where the table has a hole; encoding is its exact inverse, every codepoint outside the table being unsupported and replaced by a question mark (U+FFFD itself becomes a question mark without being reported).',
  ['inputs'], 'for every byte and every 32-bit code unit value, every string of them, for all 25 charsets',
  'Tests encode the characters the table has; the ~1.1 million codepoints it does not have, and the C1 and Latin-1 ranges that share code, are only sampled.',
  [SBC], [('decode tables', SBC + ': impl_*::decode'), ('encode tables and range shortcuts', SBC + ': impl_*::encode, impl_*::encode_ext'), ('lookup', SBC + ': lower_bound over ch32_to_char')],
  AI + '; oracle tables from Python codecs / WHATWG', 'proof', AINOTE)

DST = 'include/strf/destination.hpp'
FMT = 'include/strf/to_cfile.hpp'
SBF = 'include/strf/to_streambuf.hpp'
STR = 'include/strf/to_string.hpp'
AG = 'abstract interpretation of LLVM IR of arbitrary clients (inferred linear loop invariants, relational memory log)'
AGNOTE = ('Sound for operation histories and arguments of every length for every entry reported "proved" (all of them on the pinned tree), relative to: '
          'clang 18 front end on x86-64, C++20, NDEBUG; the engine in lib/ (no quantity carried by a loop moves further than 2^50 from its initial value; exceptions are not modelled); the client and environment models in lib/dest.py. '
          'Entries on changed code for which no invariant is found fall back to following all paths with a bounded number of loop arrivals and are reported as undecided beyond it.')

P('D01', 'C-string and array destinations keep within the array and truncate exactly',
  'Writing to a fixed-size destination (a C string or a character array given by pointer and end, pointer and size, range or array) never touches memory outside that array; the array ends up holding exactly the longest prefix of the text that fits (one character less, plus a terminating null, for C strings); finish() returns a pointer just past that text and says truncated exactly when something was dropped; after the overflow further writing, flushing or finishing does not disturb the kept text.',
  ['inputs', 'histories'], 'for every array size (from 1 for C strings, 0 for arrays), every history of direct writes to the buffer, recycle() and write() calls, with text of every length',
  'Tests print a few texts into a few sizes; overflow handling depends on the room left when each piece arrives and on what is done after overflow.',
  [DST], [('switch to the garbage buffer on overflow', DST + ': basic_cstr_destination/array_destination recycle, do_write'), ('terminator', DST + ': basic_cstr_destination::finish')],
  AG, 'proof', AGNOTE, state=[('good', 'nothing has been dropped so far', DST + ': output_buffer::good_'), ('buffer_ptr/buffer_end', 'free part of the array', DST)], observe=['array contents', 'result of finish()'])
P('D02', 'Every destination honours the space contract its writers rely on',
  'For every destination type of the library: the space it advertises is writable memory, recycle() leaves at least min_space_after_recycle (64) characters of space whether or not the destination is still good, buffer_ptr() never passes buffer_end(), and good() never goes back from false to true.',
  ['inputs', 'histories'], 'for every destination type and character type, every history of operations (also after failures), every buffer size and every behaviour of the underlying sink',
  'Printers write without checking further than ensure(): a destination which once leaves too little space overflows only for the piece that happens to need it.',
  [DST, FMT, SBF, STR], [('recycle', 'recycle() of every destination class'), ('do_write', 'do_write() of every destination class')],
  AG, 'proof', AGNOTE, observe=['buffer_space()', 'memory accesses'])
P('D03', 'Streaming destinations deliver text completely, once, in order; report failure',
  'File, wide-file, stream-buffer and string destinations pass every character written to them to the underlying sink exactly once, unchanged and in order (a flush at finish() or destruction included); once the sink accepts less than it was given, nothing more is passed to it and the destination is no longer good; finish() reports the number of characters the sink accepted and success exactly when everything was accepted.',
  ['inputs', 'histories', 'faults'], 'for every history of direct writes, recycle() and write() with text of every length, every buffer size and a sink that may fail at any call after accepting any part of it',
  'Tests use sinks that succeed or fail at one or two fixed points; double, lost or reordered pieces need a particular fill level of the buffer at a failure or at a long write.',
  [FMT, SBF, STR, DST], [('buffer flush', FMT + ': cfile_writer_base::recycle, do_write, finish'), ('stream buffer', SBF + ': basic_streambuf_writer'), ('strings', STR + ': basic_string_appender, basic_string_maker, basic_sized_string_maker')],
  AG, 'proof', AGNOTE, observe=['what the sink receives', 'result of finish()'])

INT = 'include/strf/detail/printable_types/int.hpp'
NPN = 'include/strf/detail/facets/numpunct.hpp'
IDG = 'include/strf/detail/int_digits.hpp'
AP = 'abstract interpretation of LLVM IR over abstract digits, against a reference layout written from the documentation'
P('D04', 'Raw writes through any destination deliver exactly the text given',
  'Through any destination that honours the space contract, write() delivers exactly the given text, put() one character, write_fill() the requested number of copies, the output buffer iterator every character assigned to it and a conversion copy every element, in order and without writing outside the space the destination advertises, however the destination hands out its space; ensure(n) leaves at least n characters of space (n up to 64) and delivers nothing; a non-positive count writes nothing.',
  ['inputs', 'histories', 'environments'], 'for every conforming destination (any amount of space at each moment, failing at any moment), every text length, all five character types',
  'Tests use a handful of buffer sizes; the splitting of a text over several buffers depends on the space left at each piece.',
  [DST], [('ensure, put, write', DST + ': output_buffer::ensure, put, write, do_write'), ('fills and copies', DST + ': detail::write_fill, output_buffer_interchar_copy'), ('iterator', 'include/strf/iterator.hpp: output_buffer_iterator')],
  AG, 'proof', AGNOTE, observe=['characters delivered', 'memory accesses'])
P('I01', 'Integers print exactly as documented for every value and format',
  'An integer (any standard integer type, or a pointer) prints as the digits of its value in the chosen base with the sign, base prefix, precision zeros, pad0 zeros, thousands separators, letter case, fill and alignment the documentation specifies, and nothing else, whatever the combination of formatting options and facets.',
  ['inputs'], 'for every value of every integer type, bases 2, 8, 10 and 16, every sign and prefix mode, letter case, and the partitioned precisions, widths and groupings listed in the evidence',
  'Each base has several separately written digit writers (plain, padded, grouped with narrow or wide separators) selected by the combination of options; tests sample a few values for some combinations.',
  [INT, NPN, IDG],
  [('layout of sign, prefix, zeros and fill', INT + ': default_int_printer, int_printer_no_pad0_nor_punct, int_printer_static_base_and_punct, int_printer_full_dynamic'), ('digit writers', IDG + ': intdigits_writer, intdigits_backwards_writer'), ('groups', NPN + ': digits_grouping, distribute')],
  AP, 'other', 'Covers every value (digits are unknowns) of each analysed type, base and option combination; widths, precisions and groupings are taken from finite partitions chosen relative to the digit count. '
  'Trusted: clang 18 front end (x86-64, C++20, NDEBUG), the engine in lib/, the reference layout in lib/pint.py. Entries that exceed the analysis budget on changed code are reported as undecided.',
  observe=['text delivered to the destination'])

AF = 'abstract interpretation of LLVM IR over abstract characters and finite partitions of the other arguments, against a reference written from the documentation'
AFNOTE = ('Covers every value of the unknowns (characters, digits) for each cell of the partitions listed in the harness (counts, room, groupings, options). '
          'Trusted: clang 18 front end (x86-64, C++20, NDEBUG), the engine in lib/, the reference in the harness. Entries that exceed the analysis budget on changed code are reported as undecided.')
P('T08', 'Character set objects: per-character functions and dynamic forms agree',
  'For every character set: encoded_char_size(), encode_char(), encode_fill(), validate(), decode_unit(), the replacement character functions and the function pointers obtained from the object agree with the encoding (unencodable characters become the replacement character, surrogates are written but not valid), and the dynamic form of a static character set has the same identification, functions, transcoders and transcoder lookup results.',
  ['inputs'], 'for every 32-bit character value, every code unit, all 28 character sets and their character types, static and dynamic',
  'Tests try a handful of characters per set; boundaries between encoding lengths, the dynamic objects, and the lookup tables are written separately for every character set.',
  [UTF, SBC, CHS], [('per-character functions', UTF + ' and ' + SBC + ': encode_char, encoded_char_size, validate, encode_fill, decode_unit'), ('dynamic form', UTF + ' and ' + SBC + ': to_dynamic; ' + CHS + ': dynamic_charset_data, dynamic_charset')],
  AF, 'proof', AFNOTE)
P('T09', 'Counting codepoints is exact and agrees with transcoding',
  'count_codepoints() counts each well-formed character as one and each maximal invalid sequence as one (what sanitizing would give), stops after max_count of them and returns the position reached; count_codepoints_fast() gives the same on valid text; neither reads outside the source.',
  ['inputs'], 'for every source string and max_count, every character set and both surrogate policies',
  'Counting is written separately from transcoding for every encoding; tests count a few strings.',
  [UTF, SBC], [('count functions', UTF + ' and ' + SBC + ': count_codepoints, count_codepoints_fast')], AI, 'other',
  AINOTE.replace(' (all of them on the pinned tree)', '') + ' On the pinned tree count_codepoints() is proved for every character set; count_codepoints_fast() for UTF-8 and UTF-16 is only analysed up to a bounded length.', observe=['count and position returned'])
P('N01', 'Digit grouping means the same however it is built and whoever asks',
  'A digits_grouping built by constructor, by creator, from a string or taken from a numpunct facet describes the same groups, whatever queries it (separator count, distribution of digits into groups, equality, iteration); sizes that are not allowed make it invalid or are ignored as documented; numpunct, default_numpunct and no_grouping report the grouping, separator and decimal point they were given.',
  ['inputs'], 'for every list of up to six group sizes of the partition in the harness (1, 2, 3, 4, 7, 31), repeating or not, every digit count of the partition up to 64, and every separator and decimal point',
  'The grouping is packed into bits and every query walks the packed form in its own way; tests try about a dozen groupings.',
  [NPN], [('packed groups', NPN + ': digits_grouping, digits_grouping_creator, digits_grouping_iterator'), ('facets', NPN + ': numpunct, default_numpunct, no_grouping')], AF, 'other', AFNOTE)
P('P01', 'Printed text does not depend on how the destination hands out its space',
  'Printing a value writes only within the space the destination has advertised (having ensured it), and the text is the same whether the destination offers all the space at once or in pieces.',
  ['inputs', 'environments'], 'for every value, for the first piece being empty, of one, two, seven or 64 characters and later pieces having exactly the guaranteed 64 characters',
  'Tests print to destinations with a lot of room; each printer has its own ensure() arithmetic which is only exercised when the space runs out in the middle of it.',
  [INT, IDG, DST], [('ensure before direct writes', INT + ': print functions calling ensure(sub_size_)'), ('digit writers which recycle by themselves', IDG + ': write_int_*_big_sep, write_little_sep')], AP, 'other', AFNOTE)
P('P02', 'The size calculated in advance is the size printed',
  'When the destination asks for the size in advance (reserve_calc), the size announced for an argument is exactly the number of characters printing it delivers.',
  ['inputs'], 'for every value, option combination of the harness and facet',
  'The size is calculated by code separate from the printing; destinations that reserve silently tolerate sizes that are too large, and grow when they are too small.',
  [INT, 'include/strf/detail/premeasurements.hpp'], [('size calculation', INT + ': pre->add_size')], AP, 'other', AFNOTE)

PT = 'include/strf/detail/printable_types/'
WID = 'include/strf/detail/facets/width_calculator.hpp'
FLT = PT + 'float.hpp'
P('F01', 'Floating-point numbers print the digits their notation and precision ask for',
  'A float or double prints its shortest decimal in general, fixed or scientific notation as asked: without a precision all digits and no more (general: the shorter of the two notations), with a precision the decimal rounded to that precision (to nearest, ties to even), trailing zeros added or removed, the decimal point shown, the sign and exponent written as the notation says; zeros, infinities and NaN print as documented in the letter case asked for; and the size calculated in advance is the size printed.',
  ['inputs'], 'for every significand of 1, 2, 3, 5, 7, 9, 16 and 17 digits (all values of the digits at once), exponents around every switch of notation and of the size of the exponent, precisions from none to beyond the digits, all sign and point options, float and double, five character types',
  'Rounding carries, removed zeros and sizes that depend on them need particular digit patterns; tests print some dozens of fixed numbers.',
  [FLT, IDG], [('notation, rounding and size', FLT + ': init_double_data_with_precision_general, ..._general_1digit, ..._scientific, ..._fixed, init_double_data_without_precision_*'), ('writers', FLT + ': fast_double_printer, punct_double_printer, print_amplified_integer*, print_scientific_notation')],
  AP, 'other', AFNOTE + ' The shortest-decimal algorithm (Dragonbox) is replaced by its specification: some decimal without trailing zeros.')
P('F02', 'Floats under width, fill, punctuation and in hexadecimal print as documented',
  'The text of a floating-point number with a width is that number filled on the side the alignment says, with pad0 zeros between sign and digits, the fill character in place of a plus sign when asked; with punctuation its integral digits are grouped as the numpunct facet says, including digits gained by rounding, and its decimal point is the one of the facet, encoded in the destination charset; hexadecimal notation prints the exact mantissa rounded to the precision (ties to even); and the size calculated in advance is the size printed.',
  ['inputs'], 'for every digit pattern of the lengths of the harness, signs, pad0, widths around the length of the text, three alignments, fills of one to four units, six groupings, separators and points of every encoding length (and none), all binary exponents classes including subnormal',
  'Each combination takes different size arithmetic and writers; tests use fixed numbers and few facets.',
  [FLT, IDG], [('fill and sizes', FLT + ': init_double_printer_data_fill, punct_double_printer constructors'), ('punctuated writers', FLT + ': print_fixed_, print_scientific_, print_hexadecimal_')],
  AP, 'other', AFNOTE)
P('X01', 'Characters and booleans print exactly as documented',
  'A character prints as itself, a char32_t printed to another character type as its encoding (or the replacement character), a bool as true or false, each with the repetition, fill and alignment asked for, a wide character counting as two columns; the width and size measured are those of the text.',
  ['inputs'], 'for every character value, every character set family, repetitions and widths of the partition around the boundaries (0, 1, the width of the text, one more, larger), three alignments and fill characters of every encoding length',
  'Tests print a few characters per type; unencodable characters, fills of several units and zero repetitions take separate branches.',
  [PT + 'char.hpp', PT + 'bool.hpp', WID], [('character printers', PT + 'char.hpp: char_printer, fmt_char_printer, conv_char32_printer, fmt_conv_char32_printer'), ('bool printers', PT + 'bool.hpp')], AF, 'other', AFNOTE)
P('S01', 'Strings print exactly as documented: conversion, precision, width, fill',
  'A string prints as its characters up to the precision (in columns, never cutting a character, a cluster of combining characters counting as its base) converted to the destination encoding as asked (raw, sanitized, transcoded or unsafely transcoded), filled to the requested width on the side the alignment says; the measured width is the width of that text.',
  ['inputs'], 'for strings mixing unknown characters of every width class, combining characters and invalid sequences (14 patterns of up to 34 characters), all precisions and widths around the boundaries, all alignments, source and destination encodings listed in the evidence',
  'Precision stops at different places depending on encodings, widths of the next character and combining sequences; tests use fixed strings and widths.',
  [PT + 'string.hpp', WID], [('string printers', PT + 'string.hpp: strcpy_printer, aligned_strcpy_printer, transcode_printer, aligned_transcode_printer, unsafe_transcode_printer'), ('width and position', WID + ': str_width_and_pos')], AF, 'other', AFNOTE)
P('R01', 'Tr-strings print their arguments as the tr-string syntax says',
  'A tr-string prints its text with {} replaced by the next argument, {N...} by the Nth, {-...} by nothing and {{ by one brace; a reference to a missing argument prints the replacement character and notifies the error handler exactly once with the position of the brace; an unterminated reference is taken as complete; the size and width calculated in advance are those of what is printed. Nothing outside the string is read.',
  ['inputs'], 'for every string of code units up to the length in the evidence and longer patterns with unknown units, 0 to 3 arguments, tr() as printing function and as argument, with and without size calculation',
  'The string is parsed by four separate state machines (print, print with size, size only, size and width); tests use well-formed strings of a few shapes.',
  ['include/strf/detail/tr_printer.hpp', PT + 'tr_string.hpp', 'include/strf/detail/reserve_policies.hpp'], [('parsers', 'tr_string_write, tr_string_size, tr_string_measure, tr_pre_printing'), ('error notification', 'tr_error_notifier_c')], AF, 'other', AFNOTE)
P('J01', 'Joins and ranges print their parts, aligned as a whole',
  'A join prints its arguments one after another, filled as a whole to the width asked for (the width being that of all its parts together, nested joins included) on the side the alignment says; with() applies its facets to the arguments inside it and to nothing else; a range prints its elements in order, each formatted or transformed as asked, with the separator between them and nowhere else; what is measured (size, and width up to the limit given) is what is printed, whatever the reservation policy and with line() adding exactly one newline.',
  ['inputs'], 'for the forms listed in lib/pjn.py (11 joins, 11 ranges), all their characters, 0 to 3 elements, widths around the width of the text, three alignments, printing directly, with size calculation, reserved, in pieces and measured with every width limit of the partition',
  'The measuring code is separate from the printing code and is short-circuited when the width is exhausted; tests use fixed widths.',
  [PT + 'join.hpp', PT + 'range.hpp', 'include/strf/detail/premeasurements.hpp', 'include/strf/detail/printing_syntax.hpp', 'include/strf/detail/reserve_policies.hpp'],
  [('joins', PT + 'join.hpp: aligned_join_printer, join_printer'), ('ranges', PT + 'range.hpp: range_printer, separated_range_printer, fmt_*, transformed_*'), ('facets for some arguments', PT + 'facets_pack.hpp')], AF, 'other', AFNOTE)
P('C01', 'Documented combinations of format functions and facets compile',
  'Every documented format function can be applied to every kind of printable that has it, in any order and after any other, giving an object with the documented format functions and values; facets can be packed, constrained and nested as documented; headers meant for users compile on their own; and misuse the library promises to refuse (fill given as an integer, formats a type does not have, mismatched character types, facets out of place) is rejected.',
  ['programs'], 'for every ordered pair of format functions of each kind of printable and the documented forms listed in lib/cwit.py',
  'Whether an expression compiles is decided per template instantiation: tests only instantiate the combinations they print.',
  ['include/strf/detail/format_functions.hpp', INT, PT + 'float.hpp', PT + 'string.hpp', 'include/strf/detail/value_and_format.hpp', 'include/strf/facets_pack.hpp', 'include/strf/printing_syntax.hpp'],
  [('format functions and their result types', 'format_functions.hpp: alignment_format_specifier_fn; int.hpp, float.hpp, string.hpp: *_specifier_fn'), ('facets packs', 'facets_pack.hpp: pack, constrain')],
  'compile-time witnesses: accepted and rejected programs decided by the compiler front end', 'other',
  'Complete for the enumerated pairs and witnesses under clang 18 C++20 (thorough: also g++ and C++17); each rejection is paired with an accepted neighbour so that it is rejected for its own sake.')

if __name__ == '__main__':
    with open(V + '/properties.jsonl', 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=CHECKS, not_applicable=NA,
             notes='Run the checks from /verif; each compiles the harness entries it needs from /repo/include to LLVM IR and analyses that; nothing of the library is executed. See DESIGN.md.')
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
