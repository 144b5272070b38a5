#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list.   python3 tools/catalogue.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'F15_Parser/F15Parse.py'
S = 'F15_Parser/F15TokenSyntaxDescriptions.py'
R = 'F15_Parser/ExtractedRouteRecord.py'
Q = 'F15_Parser/ExtractedRouteSequence.py'
M = 'F15_Parser/ErrorMessageDefinitions.py'
TZ, TS, TK = 'Tokenizer/Tokenize.py', 'Tokenizer/Tokens.py', 'Tokenizer/Token.py'
U, K = 'Utilities/Utils.py', 'Utilities/Constants.py'

# id, title, statement, over, quantifier text, why tests cannot, files, mechanisms, note of the check
PROPS = [
 ('C01', 'Tokenization is a lossless, positioned partition of the field',
  'For every input string and separator set, the token list is exactly the sequence of maximal runs of non-separator '
  'characters, plus one token for every forward slash that is a separator, in reading order. Every token carries the '
  'offset of its first character and the offset one past its last, so that cutting the input at those offsets gives '
  'the token text. Reusing a tokenizer or tokenizing the joined tokens again gives the same tokens, and a token list '
  'handed out earlier never changes.',
  ['inputs', 'histories'], 'all strings of up to 6 (thorough 7) arbitrary Unicode characters and 4 characters inside '
  'long fields, for four separator sets; every reuse of an instance on a second string',
  'The tests tokenize a handful of strings; offsets at string ends, adjacent separators, doubled slashes and reuse '
  'are properties of every string.', [TZ, TS, TK],
  [('scan loop and token saving', TZ + ' tokenize / __save_token')], ''),
 ('C02', 'Every element is classified by the documented field 15 syntax',
  'The base type and subtype given to an element are a function of its text alone: the first matching entry of the '
  'ICAO Doc 4444 / IFPS syntax (speeds, levels, coordinates, points, ATS routes, SID/STAR, NAT tracks, rule and '
  'truncation indicators, stay times). An element longer than 25 characters is classified as too long and anything '
  'that matches no entry as unknown. Neighbouring elements do not change the class.',
  ['inputs'], 'every string of 0 to 30 (and 60) arbitrary Unicode characters; the position independence for lengths '
  '1 to 7 (thorough 25)', 'Tests classify about a hundred sample texts; the boundaries between forty overlapping '
  'patterns can only be compared over all texts.', [S, P],
  [('table of regular expressions and their order', S), ('classification', P + ' assign_syntax_descriptions')], ''),
 ('C03', 'Parsing is total and says whether there were errors',
  'Parsing any list of elements whatsoever terminates without raising, completes the extracted route sequence with '
  'its destination record, and returns True exactly when no error was recorded and False otherwise.',
  ['inputs'], 'all fields made of one of 49 openings (one for every grammar state) and up to 2-3 elements of every '
  'kind, all digits of numeric elements, and all short strings of arbitrary Unicode characters',
  'Exceptions hide in rare continuations (end of field in every state, odd digits); tests reach some forty fields.',
  [P, S, Q], [('state functions for every element kind', P), ('end of field handling', P + ' truncate and the None '
                                                              'checks after get_next_token')], ''),
 ('C04', 'The ERS starts with ADEP, ends with ADES and keeps route order',
  'Every extracted route sequence begins with one ADEP record and ends with one ADES record, both aerodrome points '
  'at offset 0. Between them stand the records of the route elements in reading order, and each of them has the '
  'text, start offset, end offset, base type and subtype of its element.',
  ['inputs'], 'any element of up to 5 characters in 18 places, and all fields of an opening (43), 0..3 (thorough 4) elements of every kind with free characters and free '
  'offsets, and an ending (5)', 'Tests print a few sequences; order and identity have to hold for every field.',
  [P, Q], [('appending records', P + ' add_record'), ('dummy ADEP and ADES', Q)], ''),
 ('C05', 'No route element is lost or invented',
  'Every point, ATS route, DCT, SID, STAR, cruise climb and rule change element that the grammar accepts appears '
  'exactly once in the extracted route sequence, and no record is there without such an element. This holds also '
  'after an error: parsing resumes at the next element from which it can continue and keeps everything after it.',
  ['inputs'], 'as C04', 'A lost element in a rare continuation is invisible to tests of other continuations.',
  [P], [('state functions', P), ('resynchronisation', P + ' re_sync_parser_after_error')], ''),
 ('C06', 'Error records identify the offending element and quote it',
  'Every error record carries the text, start and end offsets, base type and subtype of the element that caused it, '
  'and the text of the message for that error with the element in the place of the placeholder. Errors stand in '
  'reading order and none is reported twice for one cause.',
  ['inputs'], 'as C04', 'There are 55 messages times all places they can arise in; tests look at few of them.',
  [P, Q, M], [('adding an error', P + ' add_error_no_re_sync, ' + Q + ' add_error'), ('messages', M)], ''),
 ('C07', 'Flight rules follow the rule changes and give the derived rules',
  'Every record carries the flight rules in force at its place: IFR after a SPEED/LEVEL or a completed change to '
  'IFR, VFR in VFR sections, OAT and IFPS in their sections, and the destination those of the last record. The '
  'derived flight rules of the field are I, V, Y or Z: I or V when the rules never change between IFR and VFR, Y '
  'when an IFR start is followed by a VFR section, Z when a VFR start is followed by an IFR section.',
  ['inputs', 'histories'], 'as C04, sequences of rule changes included', 'Rule changes interact with levels, points '
  'and errors over several elements; tests hold a few sequences.', [P, Q],
  [('carrying rules forward', P + ' carry_speed_altitude_rules_forward'), ('break start and end', P)], ''),
 ('C08', 'Speed and level are carried forward from element to element',
  'Every record except the destination has the speed and level of the last SPEED/LEVEL, SPEED/VFR or cruise climb '
  'element that applies to its place in the route, in the text given there and in SI units; a change at a point '
  'applies from that point on and leaves earlier records as they were. The default level of a VFR section is F050.',
  ['inputs', 'histories'], 'as C04', 'Propagation depends on the whole history of the field.', [P, R],
  [('carrying forward', P + ' carry_speed_altitude_rules_forward'), ('assigning', P + ' assign_speed_altitude')], ''),
 ('C09', 'Speeds and levels are converted to SI units correctly',
  'Knots and km/h give metres per second, hundreds of feet and tens of metres give metres, each rounded to the '
  'nearest unit; a Mach number gives the speed of sound of the standard atmosphere at the level times the Mach '
  'number (343 m/s at level 0). This holds for every digit in every place where a speed or level can stand.',
  ['inputs'], 'every digit of every speed and level form in 7 positions (Mach: one factor free, the other out of a '
  'list)', 'Tests compare a few values.', [P, U, K],
  [('conversion', P + ' assign_speed, assign_altitude'), ('Mach', U)], ''),
 ('C10', 'Cruise climb sections carry their speed and both levels',
  'The point of a cruise climb takes the speed and lower level of its climb element and the following records carry '
  'them on; the upper level (or PLUS) is recorded for that point only. A climb element anywhere else is an error; '
  'one that follows an element in error applies to the last record.',
  ['inputs'], 'every speed form and pair of level forms with all digits, and all structures around C/',
  'The slices of a 10 to 17 character element differ for every combination of forms.', [P],
  [('cruise climb', P + ' assign_speed_altitude_altitude, assign_speed_altitude_plus, cruise_climb_point')], ''),
 ('C11', 'Coordinates are decoded exactly and out of range ones are reported',
  'A latitude/longitude point gets the signed decimal degrees its degrees, minutes and hemispheres say. Degrees '
  'above 90 or 180, minutes above 59, totals above the maximum and bearings above 360 are reported with the message '
  'for that part and the whole element as its subject, and are not reported otherwise.',
  ['inputs'], 'every digit and hemisphere of every coordinate form, alone and with bearing/distance, in 9 positions',
  'There are 10^9 coordinates; boundaries such as 9001, 0960 or 18000 must each be right.', [P, U],
  [('decoding', P + ' assign_latitude, assign_longitude, assign_ll_deg, assign_ll_deg_min'), ('ranges', U)], ''),
 ('C12', 'Legs between known positions get bearing and distance',
  'When two successive points of the route both have coordinates, possibly with one non-point record (but '
  'not a cruise climb indicator) between them, the record of the first gets the bearing and distance of the geodesic from the first to the second. No other '
  'record gets a bearing or a distance.',
  ['inputs'], 'every digit of pairs of coordinate points in every arrangement of up to three records',
  'Which record the leg is assigned to depends on the records in between.', [P, U],
  [('legs', P + ' assign_azimuth_distance_between_points, set_azimuth_and_distance')], ''),
 ('C13', 'Coordinates with bearing and distance are projected',
  'A latitude/longitude point followed by a bearing and a distance in nautical miles gets the coordinates of the '
  'end of that geodesic, started at the decoded coordinates. This holds for every form and in every place.',
  ['inputs'], 'every digit of every form in 9 positions', 'As C11.', [P, U],
  [('projection', P + ' resolve_real_bd_point; ' + U)], ''),
 ('C14', 'STAY times belong to the point before them',
  'A stay of hours and minutes is recorded, in minutes, on the point before it and nowhere else, for every time of '
  'day. A field with a stay that is incomplete, not a time of day or not after a point is rejected, and such a stay '
  'records no time: a route, DCT, rule change or the ADEP never has one, also while recovering from an error.',
  ['inputs'], 'every time, every STAY digit, every structure around STAY', 'The tests hold three stays.', [P, R],
  [('stay', P + ' stay, stay_time')], ''),
 ('C15', 'The text of VFR, OAT and IFPS-stop sections is preserved',
  'All elements between the start and the end of a VFR, OAT or IFPS-stop section are kept, in order and separated '
  'by single blanks, as the break text of the record that opened the section, and no other record has a text. This '
  'holds whatever the elements are, over-long and unknown ones included.',
  ['inputs', 'histories'], 'openings of every section kind with up to 3 free elements of 35 kinds and every ending',
  'The text is built from arbitrary elements.', [P, R], [('break text', P + ' break_text_save')], ''),
 ('C16', 'Every legal route description is accepted',
  'A field that follows the ICAO Doc 4444 item 15 grammar (speed and level, then points, ATS routes, DCT, changes of '
  'speed, level and rules, cruise climbs, stays, SID, STAR and truncation in their legal places) is parsed without '
  'an error, and every element of the route is in the extracted route sequence.',
  ['inputs'], 'all derivations of the grammar up to a depth, every element with free characters',
  'Tests accept about twenty fields.', [P, S], [('state functions', P)], ''),
 ('C17', 'Illegal continuations are diagnosed with the right message',
  'For every grammar state and every element that may not follow it, the field is rejected and the error recorded '
  'is the one the message catalogue has for that situation, with the offending element as its subject. Fields that '
  'end where more is required are rejected as well.',
  ['inputs'], 'all 49 openings and up to 3 (thorough 4) free elements of up to 35 kinds',
  'The product of states and elements is far larger than the tests.', [P, M],
  [('state functions', P), ('messages', M)], ''),
 ('C18', 'XML output is well formed and says what the ERS says',
  'The XML of any extracted route sequence is a well formed document, whatever characters the field held (those '
  'XML can carry). It has one element per record and one per error, in order, whose text and attributes decode to '
  'the name, texts and numbers (to hundredths) of the record.',
  ['inputs'], 'texts of up to 3 arbitrary characters in every place, and all structures with one free element',
  'Markup characters can be anywhere.', [Q, R], [('XML', R + ' as_xml, ' + Q + ' as_xml')], ''),
 ('C19', 'Parsing is deterministic and free of history',
  'What a field parses to depends on the field alone: parsing it again, with the same or another parser, before or '
  'after other fields, with a token list whose cursor was moved, gives the same records, errors and verdict. '
  'Earlier results are never changed by later parses, and parsing leaves the texts and offsets of the tokens alone.',
  ['histories', 'inputs'], 'histories of two and three parses over all openings with 1 or 2 free elements',
  'Tests parse each field once with a new parser.', [P, Q, R, S, TZ, TS],
  [('per-parse state', 'constructors of the parser, tokenizer, containers and records')], ''),
 ('C20', 'The token list behaves as a list with a cursor',
  'Tokens are kept in the order they were added, inserted or cut off; first, last, next, previous, current and the '
  'peeks return the token at the place the cursor then has, and None outside the list. Peeks never move the cursor, '
  'and lists do not share tokens.',
  ['histories'], 'all histories of up to 3 operations (thorough 4) on lists of up to 4 tokens, any index and any look '
  'ahead', 'Tests walk one list.', [TS, TK], [('cursor', TS)], ''),
 ('C21', 'Records, sequences and tokens give back what was stored',
  'Every attribute read back from a record or a token is the one last stored, and new records and tokens are empty '
  'and independent of others. A sequence gives its records and errors in the order they were added, with any index '
  'outside it giving None, and its counts are right.',
  ['histories', 'inputs'], 'all histories of up to 3 operations, all attribute values', 'Tests use a few setters.',
  [R, Q, TK], [('accessors', R + ', ' + Q)], ''),
 ('C22', 'SID and STAR are recognised by position',
  'The first procedure-like element after the first SPEED/LEVEL is a SID, one at the end of the route is a STAR, and '
  'the literals SID and STAR likewise; the subtype of the record says which. In any other place they are reported.',
  ['inputs'], '22 openings and 3 free elements of 16 kinds', 'Positions and neighbours multiply.', [P],
  [('SID and STAR', P + ' sid, sid_star, star, post_sid')], ''),
 ('C23', 'The truncation indicator ends the field',
  'A T after a point or a route ends the description: it is not a record, and the field is accepted if T is its '
  'last element. Anything after it is reported, and T in a place where a description cannot be truncated is '
  'reported too.',
  ['inputs'], '26 openings, T and up to 3 elements', 'As C22.', [P], [('truncation', P + ' truncate')], ''),
 ('C24', 'Speed of sound follows the standard atmosphere',
  'The speed of sound is 331.15 m/s times the square root of the absolute temperature over 273.15 K, where the '
  'temperature is 15 degrees at altitude 0, falls by 6.45 K per 1,000 m up to 11,000 m and is constant above. A '
  'Mach number (in hundredths) gives that many hundredths of it, or of 343 m/s at altitude 0.',
  ['inputs'], 'every altitude from 0 to 40 km in quarter metres; every Mach number from 0 to 9.99 in steps of 0.0025 '
  'at ten altitudes', 'Tests compare nine values.', [U, K], [('speed of sound', U)], ''),
 ('C25', 'Degrees and minutes are validated at every boundary',
  'An angle in degrees is valid exactly when it is not above its maximum. One in degrees and minutes is valid '
  'exactly when its minutes are below 60 and the whole angle is not above the maximum.',
  ['inputs'], 'every number of up to 4 digits, with minutes or not, every maximum from 0 to 400',
  'Tests try twelve values.', [U], [('semantic checks', U)], ''),
 ('C26', 'Printing never fails and shows every record, error and token',
  'Printing an extracted route sequence or a token list never raises, whatever was parsed. It shows one line per '
  'record, error and token, in order, that begins with its text and shows its offsets, speed, level, flight rules '
  'and break or error text, and it gives the right counts.',
  ['inputs'], 'all openings with a free element and endings, arbitrary printable texts of up to 3 characters',
  'The tests do not look at what is printed.', [Q, R, TS, TK], [('printing', R + ' to_string, ' + Q + ' print_ers')],
  ''),
 ('C27', 'After an error parsing recovers and the rest is decoded as usual',
  'After any error, the first element from which parsing can continue starts normal parsing again: what follows is '
  'recorded, classified, diagnosed and given rules, speed and level as if the offending elements had not been '
  'there. Every later error is reported as well.',
  ['inputs', 'histories'], '30 kinds of error, each followed by up to 3 free elements of up to 35 kinds and endings',
  'Recovery is a product of errors and continuations.', [P],
  [('resynchronisation', P + ' re_sync_parser_after_error')], ''),
 ('C28', 'The layout of a field carries no meaning',
  'Which white space stands between the elements of a field, how much of it, whether it stands around a slash and '
  'before or after the whole, makes no difference to the extracted route sequence, its errors and the verdict, apart '
  'from offsets. The offsets of every record and error delimit the text of its element in the field as it was '
  'written.',
  ['inputs'], 'all fields of an opening (43), 1 free element of 36 kinds (2 of 16; thorough 2 of 24) and an ending, in four '
  'layouts with 0 to 3 arbitrary white space characters in every gap',
  'Tests use single blanks; line ends, tabs and blanks around slashes appear in real messages.', [TZ, TS, TK, P],
  [('scan loop', TZ + ' tokenize'), ('offsets handed to records', P + ' add_record, add_error_no_re_sync')], ''),
 ('C29', 'A parser can be shared and instances work side by side',
  'The parser keeps no state: one instance may serve several callers at the same time, and tokenizers and sequences '
  'of different callers do not influence each other. However the work of two callers is interleaved, each gets the '
  'result it gets alone.',
  ['schedules', 'inputs'], 'a parse of an opening (12, thorough 41) and a free element, a tokenization of any string of up '
  'to 3 (4) characters, or an XML output, interrupted at the entry of any function of the package by the whole work '
  'of another caller', 'Tests run one parse after the other; a race needs an interruption at one particular place.',
  [P, S, Q, TZ, TS], [('parser without attributes', P + ' ParseF15'), ('syntax table', S),
                      ('state per instance', TZ + ', ' + TS + ', ' + Q)],
  'Schedules: one preemption of the first caller, at function entries.'),
]

NOTE = ('Every path of the current source within the bounds is explored symbolically and z3 discharges the property on '
        'it for all values; counterexamples are replayed on the unmodified code. Trusted: the symbolic interpreter in '
        'sx/ (cross-checked by re-running sampled paths on CPython), z3, and the reference the property is stated '
        'against in props/.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for i, t, s, over, q, w, files, mech, _ in PROPS:
            assert len(t) <= 80, t
            fh.write(json.dumps({
                'id': i, 'title': t, 'statement': s, 'quantifier': {'over': over, 'text': q}, 'why_tests_cant': w,
                'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                            'observe_at': ['public API of the parser, tokenizer and containers'],
                            'hook_needed': None}}) + '\n')
    man = {'version': 1,
           'setup_cmd': 'python3-vt -B -c "import z3; print(z3.get_version_string())"',
           'checks': [], 'not_applicable': [],
           'notes': 'No hooks: the checks load the source of /repo (F15_REPO overrides the path), instrument it in '
                    'memory and execute it symbolically. See DESIGN.md.'}
    for p in PROPS:
        man['checks'].append({
            'property': p[0],
            'quick_cmd': './check.py --property %s --tier quick' % p[0],
            'thorough_cmd': './check.py --property %s --tier thorough' % p[0],
            'technique': 'bounded symbolic execution of the Python source, decided by z3',
            'level': 'model_checking', 'level_note': NOTE + (' ' + p[8] if p[8] else '')})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')


if __name__ == '__main__':
    main()
