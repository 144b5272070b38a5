"""A sequence whose records are changed between two outputs: each output has to show what is there at its time."""
from fstruct import *
from levels import run

FIELD = ['N0450F350', 'PNT', '?', 'RTE1', '50N010E', 'VFR', 'TXT']


def changes(ers, a, b):
    """What a caller can do to record a and error b, by name."""
    return [
        ('name', lambda: (a.set_name('NEW'), b.set_name('NEWER'))),
        ('start', lambda: (a.set_start_index(4711), b.set_start_index(4712))),
        ('end', lambda: (a.set_end_index(5711), b.set_end_index(5712))),
        ('base type', lambda: (a.set_base_type(bt('C')), b.set_base_type(bt('DCT')))),
        ('subtype', lambda: (a.set_sub_type(st('VFR')), b.set_sub_type(st('IFR')))),
        ('speed', lambda: (a.set_speed('K0801'), b.set_speed('M081'))),
        ('speed in SI', lambda: (a.set_speed_si(223), b.set_speed_si(224))),
        ('level', lambda: (a.set_altitude('S1131'), b.set_altitude('A091'))),
        ('level in SI', lambda: (a.set_altitude_si(11311), b.set_altitude_si(2774))),
        ('upper level', lambda: (a.set_altitude_cruise_to('F391'), b.set_altitude_cruise_to('PLUS'))),
        ('upper level in SI', lambda: (a.set_altitude_cruise_to_si(11918), b.set_altitude_cruise_to_si(7))),
        ('bearing', lambda: (a.set_bearing(91.5), b.set_bearing(92.25))),
        ('distance', lambda: (a.set_distance(1234.5), b.set_distance(2345.25))),
        ('latitude', lambda: (a.set_latitude(-12.5), b.set_latitude(0.0))),
        ('longitude', lambda: (a.set_longitude(112.25), b.set_longitude(-0.5))),
        ('rules', lambda: (a.set_flight_rules('OAT'), b.set_flight_rules('IFPS'))),
        ('stay', lambda: (a.set_stay_time('0117'), b.set_stay_time('0218'))),
        ('more text', lambda: (a.append_break_text('MORE'), b.append_error_text('Too.'))),
        ('other text', lambda: (a.set_break_text('OTHER'), b.set_error_text('Else.'))),
        ('no text', lambda: (a.set_break_text(''), b.set_error_text(''))),
        ('derived rules', lambda: ers.set_derived_flight_rules('Q')),
        ('one more record', lambda: ers.append_element(ExtractedRouteRecord('XTRA', 6, 7, bt('POINT'), st('PRP')))),
        ('one more record by its attributes',
         lambda: ers.create_append_element('YTRA', 8, 9, bt('POINT'), st('PRP'))),
        ('one more error', lambda: ers.add_error('ZTRA', 8, 9, bt('POINT'), st('PRP'), 'Message about !.')),
        ('a second field', lambda: run_into(ers)),
        ('nothing', lambda: None),
    ]


def run_into(ers):
    ts = Tokens()
    for i, x in enumerate(['M082F290', 'QNT', 'QQ-QQ']):
        ts.create_append_token(x, 11 * i, 11 * i + 8)
    ParseF15().parse_f15(ers, ts)


def changed(c, shown, n):
    ers, res = run(c, FIELD)
    shown(c, ers)
    for i in range(n):
        k = 1 + c.choose('record %d' % i, ers.get_number_of_elements() - 1 if n == 1 else 2)
        a, b = ers.get_element_at(k), ers.get_all_errors()[0]
        todo = changes(ers, a, b)
        j = c.choose('change %d' % i, len(todo))
        todo[j][1]()
        shown(c, ers)
